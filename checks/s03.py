"""S03: entity conditions. Whatever the objects do, a condition on entities is true exactly when the measured quantity says so, for any or all of the triggering entities."""
import math
import pbt, capi, osc, sim, boxes
from pbt import Violation, Discard

MARGIN = 1e-4
LEN = 500.0
INF = float("inf")
RULES = ["greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual"]
NAMES = ["A", "B", "C", "D", "E"]


def road(case):
    w = case["w"]

    def ln(i):
        return '<lane id="%d" type="driving" level="false"><width sOffset="0" a="%g" b="0" c="0" d="0"/></lane>' % (i, w)
    return ('<OpenDRIVE><header revMajor="1" revMinor="5"/><road name="" length="%r" id="1" junction="-1"><planView><geometry s="0" x="%r" y="%r" hdg="%r" length="%r"><line/></geometry></planView>'
            '<lanes><laneSection s="0"><left>%s</left><center><lane id="0" type="none" level="false"/></center><right>%s</right></laneSection></lanes></road></OpenDRIVE>'
            % (LEN, case["x0"], case["y0"], case["h0"], LEN, "".join(ln(i) for i in range(case["L"], 0, -1)), "".join(ln(-i) for i in range(1, case["R"] + 1))))


def wrap(a):
    return math.atan2(math.sin(a), math.cos(a))


class Obj:
    """one object at one moment: road coordinates s, t, relative heading; speed, sideways velocity, acceleration"""

    def __init__(self, case, o, st):
        self.s, self.t, self.hr = st["s"], st["t"], st["h"]
        h0 = case["h0"]
        c, s = math.cos(h0), math.sin(h0)
        self.x, self.y, self.h = case["x0"] + self.s * c - self.t * s, case["y0"] + self.s * s + self.t * c, h0 + self.hr
        self.v, self.vlat, self.along, self.alat = st["v"], st["vl"], st["al"], st["at"]
        ch, sh = math.cos(self.h), math.sin(self.h)
        self.vel = (self.v * ch - self.vlat * sh, self.v * sh + self.vlat * ch)
        self.acc = (self.along * ch - self.alat * sh, self.along * sh + self.alat * ch)
        self.bb = o["bb"]
        self.P = boxes.corners(self.x, self.y, self.h, self.bb)
        self.R = [((p[0] - case["x0"]) * c + (p[1] - case["y0"]) * s, -(p[0] - case["x0"]) * s + (p[1] - case["y0"]) * c) for p in self.P]     # corners in road coordinates
        self.type = o["type"]
        n = int(abs(self.t) / case["w"]) + 1
        self.lane = n if self.t > 0 else -n
        self.border = min(abs(abs(self.t) - k * case["w"]) for k in range(0, 8))


def local(a, x, y):
    c, s = math.cos(a.h), math.sin(a.h)
    return (x - a.x) * c + (y - a.y) * s, -(x - a.x) * s + (y - a.y) * c


def pos_of(case, p, objs):
    h0 = case["h0"]
    c, s = math.cos(h0), math.sin(h0)
    if p["k"] == "world":
        return case["x0"] + p["ps"] * c - p["pt"] * s, case["y0"] + p["ps"] * s + p["pt"] * c, h0 + p["ph"]
    if p["k"] == "lane":
        t = (abs(p["lane"]) - 0.5) * case["w"] * (1 if p["lane"] > 0 else -1)
        h = h0 + (math.pi if p["lane"] > 0 else 0)
        if p.get("ph") is not None:
            h = h0 + p["ph"]
        return case["x0"] + p["ps"] * c - t * s, case["y0"] + p["ps"] * s + t * c, h
    o = objs[p["ref"]]
    ch, sh = math.cos(o.h), math.sin(o.h)
    return o.x + p["dx"] * ch - p["dy"] * sh, o.y + p["dx"] * sh + p["dy"] * ch, o.h


def pos_xml(case, p):
    if p["k"] == "world":
        x, y, h = pos_of(case, p, None)
        return osc.position(dict(k="world", x=x, y=y, h=h))
    if p["k"] == "lane":
        return osc.position(dict(k="lane", road="1", lane=p["lane"], s=p["ps"], off=0.0, o=None if p.get("ph") is None else dict(type="absolute", h=case["h0"] + p["ph"])))
    return osc.position(dict(k="relobj", ref=p["ref"], dx=p["dx"], dy=p["dy"]))


def dist_obj(c, a, b):
    """signed distance from a to b"""
    if c["dt"] in ("euclidianDistance", "cartesianDistance"):
        lx, ly = local(a, b.x, b.y)
        if not c["free"]:
            return math.hypot(lx, ly) * (1 if lx > 0 else -1)
        d = boxes.distance(a.P, a.h, b.P, b.h)
        g = boxes.gap(boxes.span(a.P, a.h)[0], boxes.span(b.P, a.h)[0])
        return -d if g < 0 else d
    k = 0 if c["dt"] == "longitudinal" else 1
    if c["cs"] == "entity":
        if not c["free"]:
            return local(a, b.x, b.y)[k]
        return boxes.gap(boxes.span(a.P, a.h)[k], boxes.span(b.P, a.h)[k])
    sg = 1 if abs(wrap(a.hr)) < math.pi / 2 else -1
    if not c["free"]:
        return sg * ((b.s - a.s) if k == 0 else (b.t - a.t))
    if boxes.separation(a.P, a.h, b.P, b.h) <= 0:
        return 0.0
    u, v = [p[k] for p in a.R], [p[k] for p in b.R]
    return sg * boxes.gap((min(u), max(u)), (min(v), max(v)))


def dist_pt(c, a, case, x, y):
    if c["dt"] in ("euclidianDistance", "cartesianDistance"):
        if not c["free"]:
            return math.hypot(x - a.x, y - a.y) * (1 if local(a, x, y)[0] > 0 else -1)
        g = boxes.gap(boxes.span(a.P, a.h)[0], ((x * math.cos(a.h) + y * math.sin(a.h)),) * 2)
        return boxes.point_distance((x, y), a.P, a.h) * (-1 if g < 0 else 1)
    k = 0 if c["dt"] == "longitudinal" else 1
    if c["cs"] == "entity":
        if not c["free"]:
            return local(a, x, y)[k]
        q = (x * math.cos(a.h) + y * math.sin(a.h), -x * math.sin(a.h) + y * math.cos(a.h))[k]
        return boxes.gap(boxes.span(a.P, a.h)[k], (q, q))
    sg = 1 if abs(wrap(a.hr)) < math.pi / 2 else -1
    c0, s0 = math.cos(case["h0"]), math.sin(case["h0"])
    rs = ((x - case["x0"]) * c0 + (y - case["y0"]) * s0, -(x - case["x0"]) * s0 + (y - case["y0"]) * c0)
    if not c["free"]:
        return sg * (rs[k] - (a.s, a.t)[k])
    u = [p[k] for p in a.R]
    if c.get("finding"):
        # recorded finding: overlap is only seen when the nearest and the farthest corner are on different sides of the point
        d = sorted((rs[k] - v for v in u), key=abs)
        return 0.0 if d[0] * d[-1] < 0 else sg * d[0]
    return sg * boxes.gap((min(u), max(u)), (rs[k], rs[k]))


def quantity(case, c, n, objs, hist):
    """the measured value for triggering entity n: a number, None when undefined; or (True/False, margin)"""
    a, k = objs[n], c["c"]
    if k == "reldist":
        return abs(dist_obj(c, a, objs[c["ref"]]))
    if k == "dist":
        x, y, h = pos_of(case, c["pos"], objs)
        return abs(dist_pt(c, a, case, x, y))
    if k == "hwt":
        d = dist_obj(c, a, objs[c["ref"]])
        if d < 0 or a.v <= 0:
            return None
        return d / a.v
    if k == "ttc":
        if c.get("ref"):
            b = objs[c["ref"]]
            d = dist_obj(c, a, b)
            sp = math.hypot(*b.vel)
            if sp < 1e-9:
                close = a.v
            else:
                e = (b.vel[0] / sp, b.vel[1] / sp)
                if e[0] * math.cos(a.h) + e[1] * math.sin(a.h) < 0:
                    e = (-e[0], -e[1])
                close = (a.vel[0] - b.vel[0]) * e[0] + (a.vel[1] - b.vel[1]) * e[1]
        else:
            x, y, h = pos_of(case, c["pos"], objs)
            d, close = dist_pt(c, a, case, x, y), a.v
        if abs(d) < 1e-5 or abs(close) < 1e-5 or d / close < 0:
            return None
        return d / close
    if k == "speed":
        return {None: a.v, "longitudinal": a.v, "lateral": a.vlat, "vertical": 0.0}[c["dir"]]
    if k == "relspeed":
        b = objs[c["ref"]]
        dv = (a.vel[0] - b.vel[0], a.vel[1] - b.vel[1])
        ch, sh = math.cos(b.h), math.sin(b.h)
        return {None: a.v - b.v, "longitudinal": dv[0] * ch + dv[1] * sh, "lateral": -dv[0] * sh + dv[1] * ch, "vertical": 0.0}[c["dir"]]
    if k == "acc":
        return {None: math.hypot(a.along, a.alat) * (1 if a.along >= 0 else -1), "longitudinal": a.along, "lateral": a.alat, "vertical": 0.0}[c["dir"]]
    if k == "angle":
        ref = {"world": 0.0, "road": case["h0"], "lane": case["h0"] + (math.pi if a.lane > 0 else 0), "entity": a.h}[c["cs"]]
        d = abs(wrap(a.h - ref - c["value"]))
        return (d < c["tol"], abs(d - c["tol"]) if c["cs"] != "lane" or a.border > 0.01 else 0.0)
    if k == "reach":
        x, y, h = pos_of(case, c["pos"], objs)
        d = math.hypot(x - a.x, y - a.y)
        ok, m = d < c["tol"], abs(d - c["tol"])
        if c["pos"]["k"] == "lane" and c["pos"].get("ph") is not None:
            e = abs(wrap(a.h - h))
            if ok and abs(e - 0.05) < m:
                m = abs(e - 0.05)
            ok = ok and e < 0.05
        return (ok, m)
    if k == "coll":
        sep = []
        for m, b in objs.items():
            if m != n and (m == c.get("ref") or (not c.get("ref") and b.type == c["type"])):
                sep.append(boxes.separation(a.P, a.h, b.P, b.h))
        s = min(sep) if sep else INF
        return (s <= 0, abs(s))
    if k == "stand":
        d = hist[n]["stand"]
        return (d is not None and d > c["value"], 1.0 if d is None else abs(d - c["value"]))
    if k == "off":
        d = hist[n]["off"]
        return (d is not None and d > c["value"], 1.0 if d is None else abs(d - c["value"]))
    if k == "odo":
        return (hist[n]["odo"] >= c["value"], abs(hist[n]["odo"] - c["value"]))
    if k == "clear":
        lane = a.lane
        ms = [a.border - 0.01]
        found = False
        for m, b in objs.items():
            if m == n or (c["refs"] and m not in c["refs"]):
                continue
            dl = b.lane - lane - (1 if b.lane > 0 else 0)
            ms += [abs(b.s - a.s - c["fwd"]), abs(b.s - a.s + c["bwd"]), b.border - 0.01]
            if -c["bwd"] <= b.s - a.s <= c["fwd"] and c["lo"] <= dl <= c["hi"] and (c["opp"] or b.lane < 0):
                found = True
        exists = any(lane + c["lo"] <= l <= lane + c["hi"] for l in list(range(-case["R"], 0)) + (list(range(1, case["L"] + 1)) if c["opp"] else []))
        return (not found and exists, min(ms))
    raise Discard("kind")


def truth(case, c, objs, hist):
    """(value, ambiguous)"""
    res, amb = [], False
    for n in c["who"]:
        q = quantity(case, c, n, objs, hist)
        if isinstance(q, tuple):
            res.append(q[0])
            amb = amb or q[1] < MARGIN
        elif q is None:
            res.append(False)
        else:
            r, v = c["rule"], c["value"]
            res.append({"greaterThan": q > v, "greaterOrEqual": q > v, "lessThan": q < v, "lessOrEqual": q < v}[r])
            amb = amb or abs(q - v) < MARGIN * max(1, abs(v))
    return (any(res) if c["any"] == "any" else all(res)), amb


def xml(case, c):
    k = c["c"]
    if k in ("reldist", "hwt", "ttc", "dist"):
        at = dict(entityRef=c.get("ref") if k != "ttc" else None, freespace=bool(c["free"]), value=c["value"], rule=c["rule"], coordinateSystem=c["cs"], relativeDistanceType=c["dt"])
        if k == "reldist":
            return osc.tag("RelativeDistanceCondition", at)
        if k == "hwt":
            return osc.tag("TimeHeadwayCondition", at)
        if k == "dist":
            return osc.tag("DistanceCondition", at, pos_xml(case, c["pos"]))
        return osc.tag("TimeToCollisionCondition", at, osc.tag("TimeToCollisionConditionTarget", None, osc.tag("EntityRef", dict(entityRef=c["ref"])) if c.get("ref") else pos_xml(case, c["pos"])))
    if k == "speed":
        return osc.tag("SpeedCondition", dict(value=c["value"], rule=c["rule"], direction=c["dir"]))
    if k == "relspeed":
        return osc.tag("RelativeSpeedCondition", dict(entityRef=c["ref"], value=c["value"], rule=c["rule"], direction=c["dir"]))
    if k == "acc":
        return osc.tag("AccelerationCondition", dict(value=c["value"], rule=c["rule"], direction=c["dir"]))
    if k == "angle":
        return osc.tag("AngleCondition", dict(angleType="heading", angle=c["value"], angleTolerance=c["tol"], coordinateSystem=c["cs"]))
    if k == "reach":
        return osc.tag("ReachPositionCondition", dict(tolerance=c["tol"]), pos_xml(case, c["pos"]))
    if k == "coll":
        return osc.tag("CollisionCondition", None, osc.tag("EntityRef", dict(entityRef=c["ref"])) if c.get("ref") else osc.tag("ByType", dict(type=c["type"])))
    if k == "stand":
        return osc.tag("StandStillCondition", dict(duration=c["value"]))
    if k == "off":
        return osc.tag("OffroadCondition", dict(duration=c["value"]))
    if k == "odo":
        return osc.tag("TraveledDistanceCondition", dict(value=c["value"]))
    if k == "clear":
        return osc.tag("RelativeClearanceCondition", dict(distanceForward=c["fwd"], distanceBackward=c["bwd"], freeSpace=False, oppositeLanes=bool(c["opp"])),
                       osc.tag("RelativeLaneRange", {"from": c["lo"], "to": c["hi"]}), *[osc.tag("EntityRef", dict(entityRef=m)) for m in c["refs"]])
    raise Discard("kind")


def update_hist(case, hist, objs, old, t):
    for n, o in objs.items():
        h = hist[n]
        if old is not None:
            h["odo"] += math.hypot(o.x - old[n].x, o.y - old[n].y)
        w = case["w"] * (case["L"] if o.t > 0 else case["R"])
        for key, on in (("stand", abs(o.v) < 1e-3), ("off", abs(o.t) > w)):
            if not on:
                h["_" + key] = None
            elif h["_" + key] is None:
                h["_" + key] = t


def view_hist(hist, t):
    return {n: dict(odo=h["odo"], stand=None if h["_stand"] is None else t - h["_stand"], off=None if h["_off"] is None else t - h["_off"]) for n, h in hist.items()}


def run_model(case):
    """all moments: list of (objs, hist, t)"""
    out = []
    hist = {n: dict(odo=0.0, _stand=None, _off=None) for n in case["objs"]}
    old = {n: Obj(case, o, o["init"]) for n, o in case["objs"].items()}
    update_hist(case, hist, old, None, 0.0)
    t = 0.0
    for st in case["steps"]:
        objs = {n: Obj(case, case["objs"][n], st["st"][n]) for n in case["objs"]}
        out.append((objs, view_hist(hist, t), t))
        t += st["dt"]
        update_hist(case, hist, objs, old, t)
        old = objs
    return out


class S03(pbt.Check):
    id = "S03"
    targets = ["esminiLib"]
    quick_cases, quick_time = 5000, 45
    thorough_cases, thorough_time = 300000, 900
    rule = ("2-5 objects (vehicles, pedestrians, obstacles; random bounding boxes) with random positions, headings, speeds, velocities and accelerations reported in every step, on a straight road of any direction, and 3-8 entity conditions of 13 kinds "
            "(relative distance, distance, headway, time to collision, speed, relative speed, acceleration, angle, reach position, collision, stand still, off road, travelled distance, clearance), coordinate systems, free space, any/all; "
            "thresholds are drawn near values that occur. The events that start in every step are compared with conditions evaluated by independent geometry. Non-trivial: one condition is true in some step and false in another.")

    def prepare(self):
        self.se = capi.se()

    def gen(self, rng):
        L, R, w = rng.randint(1, 3), rng.randint(1, 3), rng.choice([3.0, 3.5, 4.0])
        case = dict(L=L, R=R, w=w, x0=round(rng.uniform(-200, 200), 2), y0=round(rng.uniform(-200, 200), 2), h0=rng.choice([0.0, round(rng.uniform(-3.1, 3.1), 3)]), objs={}, steps=[], conds=[])
        names = NAMES[:rng.randint(2, 5)]
        style = {}
        s0 = rng.uniform(150, 350)
        for n in names:
            ty = rng.choice(["vehicle", "vehicle", "vehicle", "pedestrian", "miscellaneous"])
            l = round(rng.uniform(0.5, 12), 2)
            bb = [round(rng.uniform(-0.3, 0.3) * l, 2), round(rng.choice([0.0, rng.uniform(-0.3, 0.3)]), 2), 0.7, l, round(rng.uniform(0.5, 3), 2), 1.5]
            style[n] = rng.choice(["fwd", "fwd", "rev", "any"])
            case["objs"][n] = dict(type=ty, bb=bb, init=self.state(rng, case, style[n], s0))
            if ty != "vehicle":
                case["objs"][n]["init"]["v"] = 0.0
        for i in range(rng.randint(6, 16)):
            st = {}
            for n in names:
                prev = case["steps"][-1]["st"][n] if case["steps"] else case["objs"][n]["init"]
                st[n] = dict(prev) if rng.random() < 0.35 else self.state(rng, case, style[n], s0)
                if rng.random() < 0.1:
                    st[n]["v"] = 0.0
            case["steps"].append(dict(dt=rng.choice([0.1, 0.1, 0.05, 0.3]), st=st))
        moments = run_model(case)
        for i in range(rng.randint(3, 8)):
            c = self.cond(rng, case, names, style)
            objs, hist, t = rng.choice(moments)
            if "value" not in c and c["c"] not in ("reach", "coll", "clear"):
                q = None
                try:
                    if c["c"] in ("stand", "off", "odo"):
                        q = hist[rng.choice(c["who"])][c["c"]]
                    elif c["c"] == "angle":
                        q = wrap(objs[c["who"][0]].h - {"world": 0.0, "road": case["h0"], "lane": case["h0"], "entity": objs[c["who"][0]].h}[c["cs"]]) + rng.choice([0, 0, 2 * math.pi])
                    else:
                        q = quantity(case, c, rng.choice(c["who"]), objs, hist)
                except Discard:
                    pass
                if q is None:
                    q = rng.uniform(0.1, 3)
                c["value"] = round(q + rng.choice([0.01, -0.01, 0.3, -0.3, rng.uniform(-1, 1) * (1 + abs(q) * 0.3)]), 3)
                if c["c"] in ("stand", "off", "odo"):
                    c["value"] = max(0.0, c["value"])
            if c["c"] == "reach":
                d = [math.hypot(objs[n].x - pos_of(case, c["pos"], objs)[0], objs[n].y - pos_of(case, c["pos"], objs)[1]) for n in c["who"]]
                c["tol"] = round(max(0.1, rng.choice(d) + rng.choice([0.05, 0.5, -0.1, 3])), 3)
            case["conds"].append(c)
        return case

    def state(self, rng, case, style, s0):
        w, L, R = case["w"], case["L"], case["R"]
        lane = rng.choice(list(range(1, L + 1)) + list(range(-R, 0)))
        t = (abs(lane) - 0.5) * w * (1 if lane > 0 else -1) + rng.choice([0.0, rng.uniform(-0.4, 0.4) * w])
        if rng.random() < 0.1:
            t = rng.choice([L * w + rng.uniform(0.2, 4), -R * w - rng.uniform(0.2, 4)])
        h = {"fwd": 0.0, "rev": math.pi, "any": rng.uniform(-3.1, 3.1)}[style]
        if style != "any":
            h += rng.choice([0.0, 0.0, rng.uniform(-0.3, 0.3)])
        return dict(s=round(s0 + rng.choice([rng.uniform(-8, 8), rng.uniform(-60, 60)]), 3), t=round(t, 3), h=round(h, 4), v=rng.choice([0.0, round(rng.uniform(0, 30), 2), round(rng.uniform(0, 30), 2), round(rng.uniform(-10, 30), 2)]),
                    vl=rng.choice([0.0, 0.0, round(rng.uniform(-2, 2), 2)]), al=round(rng.uniform(-6, 6), 2), at=round(rng.uniform(-3, 3), 2))

    def cond(self, rng, case, names, style):
        k = rng.choice(["reldist"] * 4 + ["dist"] * 3 + ["hwt", "hwt", "ttc", "ttc", "speed", "relspeed", "relspeed", "acc", "angle", "angle", "reach", "reach", "coll", "coll", "stand", "off", "odo", "clear", "clear"])
        who = rng.sample(names, rng.choice([1, 1, 2, len(names)]))
        c = dict(c=k, who=who, any=rng.choice(["any", "all", "all"]), rule=rng.choice(RULES))
        others = [n for n in names if n not in who] or names
        if k in ("reldist", "dist", "hwt", "ttc"):
            c.update(cs=rng.choice(["entity", "entity", "road", "lane"]), dt=rng.choice(["longitudinal", "longitudinal", "lateral", "euclidianDistance"]), free=rng.random() < 0.5)
            if k in ("hwt", "ttc") and c["dt"] == "lateral":
                c["dt"] = "longitudinal"
        if k in ("reldist", "hwt", "relspeed") or (k == "ttc" and rng.random() < 0.6) or (k == "coll" and rng.random() < 0.5):
            c["ref"] = rng.choice(others)
        if k in ("dist", "reach") or (k == "ttc" and not c.get("ref")):
            c["pos"] = self.pos(rng, case, names, k)
        if k in ("speed", "relspeed", "acc"):
            c["dir"] = rng.choice([None, "longitudinal", "lateral", "vertical"])
        if k == "angle":
            c.update(cs=rng.choice(["world", "road", "lane", "entity"]), tol=round(rng.uniform(0.05, 1.5), 3))
        if k == "coll" and not c.get("ref"):
            c["type"] = rng.choice(["vehicle", "pedestrian", "miscellaneous"])
        if k == "clear":
            lo = rng.randint(-2, 1)
            c.update(fwd=round(rng.uniform(0, 60), 2), bwd=round(rng.uniform(0, 60), 2), opp=rng.random() < 0.5, lo=lo, hi=lo + rng.randint(0, 2), refs=rng.choice([[], rng.sample(names, 1), rng.sample(names, 2)]))
        return c

    def pos(self, rng, case, names, k):
        o = case["objs"][rng.choice(names)]["init"] if not case["steps"] else rng.choice(case["steps"])["st"][rng.choice(names)]
        kind = rng.choice(["world", "lane", "relobj"])
        if kind == "world":
            return dict(k="world", ps=round(o["s"] + rng.uniform(-10, 10), 2), pt=round(o["t"] + rng.uniform(-2, 2), 2), ph=0.0)
        if kind == "lane":
            lane = rng.choice(list(range(1, case["L"] + 1)) + list(range(-case["R"], 0)))
            return dict(k="lane", lane=lane, ps=round(o["s"] + rng.uniform(-5, 5), 2), ph=rng.choice([None, round(o["h"] + rng.choice([0, 0.02, -0.02, 0.2, 2 * math.pi, -2 * math.pi]), 4)]) if k == "reach" else None)
        return dict(k="relobj", ref=rng.choice(names), dx=round(rng.uniform(-10, 10), 2), dy=round(rng.uniform(-4, 4), 2))

    def validate(self, case):
        if case["L"] < 1 or case["R"] < 1 or case["w"] < 2.5 or not case["objs"] or not case["conds"]:
            raise Discard("road")
        for o in case["objs"].values():
            b = o["bb"]
            if b[3] < 0.2 or b[4] < 0.2 or abs(b[0]) > 0.35 * b[3] or abs(b[1]) > 0.35 * b[4] + 0.1 or o["type"] not in ("vehicle", "pedestrian", "miscellaneous"):
                raise Discard("box")
            if o["type"] != "vehicle" and o["init"]["v"] != 0:
                raise Discard("speed")          # no performance limits, no speed action
        for st in [o["init"] for o in case["objs"].values()] + [x for s in case["steps"] for x in s["st"].values()]:
            if not 50 < st["s"] < LEN - 50 or abs(st["t"]) > 25:
                raise Discard("place")
        for c in case["conds"]:
            if not c["who"] or any(n not in case["objs"] for n in c["who"]) or (c.get("ref") and c["ref"] not in case["objs"]):
                raise Discard("who")
            if c["c"] == "clear" and (c["lo"] > c["hi"] or c["fwd"] < 0 or c["bwd"] < 0):
                raise Discard("range")
            if c.get("pos") and c["pos"]["k"] == "lane" and not (-case["R"] <= c["pos"]["lane"] <= case["L"] and c["pos"]["lane"] != 0 and 0 < c["pos"]["ps"] < LEN):
                raise Discard("lane")

    def skip(self, case, c, objs):
        """moments outside the domain of this condition"""
        a = [objs[n] for n in c["who"]]
        if c["c"] in ("reldist", "dist", "hwt", "ttc") and c["cs"] != "entity" and c["dt"] in ("longitudinal", "lateral"):
            # along the road: the direction of the measuring object has to be clear
            if any(abs(math.cos(o.hr)) < 0.05 for o in a):
                return True
        if c["c"] in ("hwt", "ttc"):
            for o in a:
                if abs(o.v) < 1e-5 and o.v != 0:
                    return True
                if c["c"] == "ttc" and c.get("ref"):
                    b = objs[c["ref"]]
                    # closing speed is defined for objects moving about parallel
                    if o.vlat or b.vlat or abs(math.sin(o.h - b.h)) > 0.7:
                        return True
                    x = dist_obj(c, o, b)
                else:
                    x = dist_obj(c, o, objs[c["ref"]]) if c.get("ref") else dist_pt(c, o, case, *pos_of(case, c["pos"], objs)[:2])
                if abs(x) < MARGIN or o is objs.get(c.get("ref")):
                    return True
                # side by side there is no clear "ahead"
                if c["dt"] == "euclidianDistance":
                    if c.get("ref"):
                        y = dist_obj(dict(c, dt="longitudinal", cs="entity"), o, objs[c["ref"]])
                    else:
                        y = dist_pt(dict(c, dt="longitudinal", cs="entity"), o, case, *pos_of(case, c["pos"], objs)[:2])
                    if abs(y) < MARGIN:
                        return True
        if c["c"] == "clear":
            w = case["w"]
            for n, o in objs.items():
                if o.t > case["L"] * w - 0.01 or o.t < -case["R"] * w + 0.01:
                    return True
            for o in a:
                if o.lane > 0 or abs(wrap(o.hr)) > 0.5:
                    return True
        if c["c"] == "angle" and c["cs"] == "lane" and any(o.t > case["L"] * case["w"] or o.t < -case["R"] * case["w"] for o in a):
            return True
        if c["c"] == "reldist" and any(o is objs[c["ref"]] for o in a):
            return True
        if c["c"] == "coll" and c.get("ref") in c["who"]:
            return True
        return False

    def run(self, case, env):
        try:
            self.validate(case)
            moments = run_model(case)
        except (KeyError, TypeError, IndexError):
            raise Discard("invalid")
        se = self.se
        names = sorted(case["objs"])
        ents, init = [], {}
        for n in names:
            o = case["objs"][n]
            ents.append({"vehicle": lambda: osc.vehicle(n, bb=o["bb"]), "pedestrian": lambda: osc.pedestrian(n, bb=o["bb"]), "miscellaneous": lambda: osc.misc(n, bb=o["bb"])}[o["type"]]())
            a = Obj(case, o, o["init"])
            init[n] = [dict(k="teleport", pos=dict(k="world", x=a.x, y=a.y, h=a.h)), dict(k="speed", v=a.v, dyn=dict())]
        events = [dict(name="e%d" % i, prio="parallel", max=100000, start=[[dict(k="entity", name="c%d" % i, who=c["who"], any=c["any"], xml=xml(case, c))]], actions=[dict(k="setvar", name="a%d" % i, ref="out", value=i)])
                  for i, c in enumerate(case["conds"])]
        events.append(dict(name="keep", prio="parallel", max=1, start=[[dict(k="time", name="never", value=1e9, rule="greaterThan")]], actions=[dict(k="user", name="ua")]))
        x = osc.scenario(dict(vars=[["out", "integer", -1]], entities=ents, init=init, stories=[osc.simple_story(events, [])]))
        S = sim.Sim(se, env, x, road(case), elems=True)
        if S.rc != 0:
            raise Violation("init", "the scenario was rejected")
        ids = {n: S.id(n) for n in names}
        S.take()
        seen = [set() for _ in case["conds"]]
        checks = 0
        for k, (st, (objs, hist, t)) in enumerate(zip(case["steps"], moments)):
            for n in names:
                o, i = objs[n], ids[n]
                if se.SE_ReportObjectPosXYH(i, o.x, o.y, o.h) != 0 or se.SE_ReportObjectSpeed(i, o.v) != 0 or se.SE_ReportObjectVel(i, o.vel[0], o.vel[1], 0.0) != 0 or se.SE_ReportObjectAcc(i, o.acc[0], o.acc[1], 0.0) != 0:
                    raise Violation("report", "a report was rejected")
            S.step(st["dt"])
            got = {c[0] for c in S.take() if c[1] == 6 and c[2] == 2}
            for i, c in enumerate(case["conds"]):
                if self.skip(case, c, objs):
                    continue
                exp, amb = truth(case, c, objs, hist)
                if amb:
                    continue
                checks += 1
                seen[i].add(exp)
                if ("e%d" % i in got) != exp:
                    if c["c"] in ("dist", "ttc") and not c.get("ref") and not case.get("strict") and truth(case, dict(c, finding=True), objs, hist)[0] != exp:
                        continue        # listed in known_findings.json
                    raise Violation("cond", "step %d: condition %s is %s, expected %s; measured %s" % (k, {a: b for a, b in c.items()}, not exp, exp, {n: quantity(case, c, n, objs, hist) for n in c["who"]}))
        S.close()
        both = sum(len(s) == 2 for s in seen)
        return dict(nontrivial=both > 0, checks=checks, classes=sorted({"kind:" + c["c"] for c, s in zip(case["conds"], seen) if len(s) == 2} | {"all:" + c["c"] for c, s in zip(case["conds"], seen) if len(s) == 2 and c["any"] == "all" and len(c["who"]) > 1}), stats=dict(both=both))


CHECK = S03
