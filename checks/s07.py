"""S07: positions. Every way of stating a position puts the entity at the place that statement means."""
import math
import pbt, capi, osc, odr, sim, net as lnet
from pbt import Violation, Discard

NAMES = ["A", "B", "C", "D"]


def wrap(a):
    return math.atan2(math.sin(a), math.cos(a))


def rel_lane(lane, d):
    """count lanes to the left (d > 0) without counting lane zero"""
    n = lane + d
    if lane < 0 <= n:
        n += 1
    elif lane > 0 >= n:
        n -= 1
    return n


class Place:
    """where an object is: world pose, and road coordinates if known"""

    def __init__(self, road, s, t, h, z=None, zdz=False):
        self.road, self.s, self.t, self.h, self.zdz = road, s, t, h, zdz
        self.exact = False             # all angles given absolute
        self.p, self.r = 0.0, 0.0      # pitch and roll, None if not judged
        self.xyloose = self.sloose = False       # foot points of world positions on curves are approximate
        self.zfree = False       # height not judged: relative in road coordinates to an object that is not on the road
        p = road.pose(s, t)
        self.x, self.y, self.z = p["x"], p["y"], p["z"] if z is None else z
        self.rh = p["h"]

    def lane(self):
        for i in self.road.lane_ids(self.s):
            if i and abs(self.t - self.road.center_t(self.s, i)[0]) <= self.road.width(self.s, i)[0] / 2:
                return i
        return None

    def margin(self):
        m = 9.0
        for i in self.road.lane_ids(self.s):
            if i:
                c, w = self.road.center_t(self.s, i)[0], self.road.width(self.s, i)[0]
                m = min(m, abs(self.t - c - w / 2), abs(self.t - c + w / 2))
        return m


def project(road, x, y, s0):
    """road coordinates of a world point, by Newton iteration from s0"""
    s = min(max(s0, 0.0), road.length)
    for _ in range(60):
        rx, ry, h, k = road.refline(s)
        dx, dy = x - rx, y - ry
        a, b = dx * math.cos(h) + dy * math.sin(h), -dx * math.sin(h) + dy * math.cos(h)
        if 1 - k * b < 0.3:
            raise Discard("curvature")
        s2 = s + a / (1 - k * b)
        if not 0.5 < s2 < road.length - 0.5:
            raise Discard("outside")
        if abs(s2 - s) < 1e-11:
            s = s2
            break
        s = s2
    rx, ry, h, k = road.refline(s)
    return s, -(x - rx) * math.sin(h) + (y - ry) * math.cos(h)


def dirn(road, lane):
    """driving direction of a lane relative to the road direction"""
    return (1 if lane < 0 else -1) * (-1 if road.lht() else 1)


def rotate(h, p, r, x, y, z):
    y, z = y * math.cos(r) - z * math.sin(r), y * math.sin(r) + z * math.cos(r)
    x, z = x * math.cos(p) + z * math.sin(p), -x * math.sin(p) + z * math.cos(p)
    return x * math.cos(h) - y * math.sin(h), x * math.sin(h) + y * math.cos(h), z


class S07(pbt.Check):
    id = "S07"
    targets = ["esminiLib"]
    quick_cases, quick_time = 5000, 35
    thorough_cases, thorough_time = 300000, 900
    rule = ("Random curved and elevated roads, and networks of linked roads with several lane sections, (right and left hand traffic), 2-4 objects placed in Init and then teleported again and again by events, each time to a world, lane, road, relative lane (ds and dsLane), relative road, relative world or relative object position with "
            "optional absolute or relative orientation (heading, pitch, roll), referring to any object (also itself) at its present place; every resulting world pose and road coordinate is compared with an independent road model. Non-trivial: at least one relative and one absolute position compared.")

    def prepare(self):
        self.se = capi.se()

    def gen_linked(self, rng):
        """relative lane positions along linked roads"""
        spec = lnet.gen_linked(rng, kinds=rng.choice([("line",), ("line", "arc", "spiral")]), junction=0.0, minlen=15.0)
        q = [dict(f=round(rng.random(), 3), t=rng.randrange(6), e=round(rng.choice([0.0, rng.uniform(-0.8, 0.8)]), 2), ds=round(rng.uniform(-90, 90), 2), lane=rng.random() < 0.5, rev=rng.random() < 0.3,
                  dl=rng.choice([0, 0, 1, -1, 2, -2]), off=round(rng.choice([0.0, rng.uniform(-0.8, 0.8)]), 2), o=rng.choice([None, None, round(rng.uniform(-3, 3), 3)])) for _ in range(rng.randint(4, 12))]
        return dict(spec=spec, q=q, dt=rng.choice([0.1, 0.02]))

    def run_linked(self, case, env):
        try:
            M = lnet.Linked(case["spec"])
            if not M.valid() or M.branches or not case["q"] or case["dt"] < 0.01:
                raise Discard("net")
            path = M.paths[0]
            L = M.path_len(path)
            plan = []
            for q in case["q"]:
                u = q["f"] * L
                cand = [tr for tr in sorted(M.spec["w"]) if M.at(path, tr, u) is not None]
                if not cand or min(abs(u - b) for b in M.breaks(path)) < 0.5 or abs(q["e"]) > 0.8 or abs(q["off"]) > 0.8:
                    continue
                tr = cand[q["t"] % len(cand)]
                a = M.at(path, tr, u, q["e"])
                lo, hi = M.span(path, tr, u)
                fwd = (a["dir"] > 0) if q["lane"] else not a["flip"]
                u2 = u + (q["ds"] if fwd else -q["ds"])
                if not lo + 0.5 < u2 < hi - 0.5 or min(abs(u2 - b) for b in M.breaks(path)) < 0.5:
                    continue
                if q["lane"] and q["rev"]:
                    continue                # the reference drives the wrong way
                b = M.at(path, tr, u2)
                # dLane counts to the left, seen in driving direction (dsLane) or along the road of the reference (ds)
                da = a["dir"] * (-1 if a["flip"] else 1) if q["lane"] else 1
                db = b["dir"] * (-1 if b["flip"] else 1) if q["lane"] else 1
                if not q["lane"] and a["flip"] != b["flip"] and (q["dl"] or q["off"]):
                    continue
                n0, n = rel_lane(a["lane"], da * q["dl"]), rel_lane(b["lane"], db * q["dl"])
                other = [x for x in sorted(M.spec["w"]) if (M.at(path, x, u) or {}).get("lane") == n0]
                if not other or M.at(path, other[0], u2) is None or M.at(path, other[0], u2)["lane"] != n:
                    continue
                road = M.N.by_id[b["road"]]
                plan.append((q, a, b["road"], b["s"], n, db * q["off"], da))
            if not plan:
                raise Discard("no place")
        except (KeyError, TypeError, ZeroDivisionError, IndexError, AttributeError, ValueError):
            raise Discard("invalid")
        evs = {"A": [], "B": []}
        for j, (q, a, road, s, lane, off, da) in enumerate(plan):
            face = (0.0 if da > 0 else math.pi) if q["lane"] else (math.pi if q["rev"] else 0.0)
            pa = dict(k="lane", road=a["road"], lane=a["lane"], s=a["s"], off=a["off"], o=dict(type="absolute", h=M.N.by_id[a["road"]].refline(a["s"])[2] + face))
            pb = dict(k="rellane", ref="A", dlane=q["dl"], off=q["off"], o=None if q["o"] is None else dict(type="relative", h=q["o"]), **({"dslane": q["ds"]} if q["lane"] else {"ds": q["ds"]}))
            for n, p, g in (("A", pa, 2 * j), ("B", pb, 2 * j + 1)):
                evs[n].append(dict(name="e%s%d" % (n, j), prio="parallel", max=1, start=[[dict(k="var", name="c%s%d" % (n, j), ref="go", value=g, rule="equalTo", edge="none")]], actions=[dict(k="teleport", name="a%s%d" % (n, j), pos=p)]))
        for n in evs:
            evs[n].append(dict(name="keep_" + n, prio="parallel", max=1, start=[[dict(k="time", name="never_" + n, value=1e9, rule="greaterThan")]], actions=[dict(k="user", name="ua_" + n)]))
        ini = dict(k="lane", road=plan[0][1]["road"], lane=plan[0][1]["lane"], s=plan[0][1]["s"], off=0.0)
        x = osc.scenario(dict(vars=[["go", "integer", -1]], entities=[osc.vehicle(n) for n in evs], init={n: [dict(k="teleport", pos=ini)] for n in evs}, stories=[osc.simple_story(evs[n], [n], name="story_" + n) for n in evs]))
        S = sim.Sim(self.se, env, x, M.xml())
        if S.rc != 0:
            raise Violation("init", "the scenario was rejected")
        cross = False
        for j, (q, a, rid, s, lane, off, da) in enumerate(plan):
            for g in (2 * j, 2 * j + 1):
                self.se.SE_SetVariableInt(b"go", g)
                S.step(case["dt"])
            st = S.state(S.id("B"))
            road = M.N.by_id[rid]
            w = "teleport %d: relative to road %s lane %d s %.2f, %s %.2f dLane %d: " % (j, a["road"], a["lane"], a["s"], "dsLane" if q["lane"] else "ds", q["ds"], q["dl"])
            where = self.se.SE_GetRoadIdString(st.roadId).decode()
            if where != rid or st.laneId != lane or abs(st.s - s) > 5e-3 or abs(st.laneOffset - off) > 5e-3:
                raise Violation("linked", w + "on road %s lane %d s %.3f offset %.3f, expected road %s lane %d s %.3f offset %.3f" % (where, st.laneId, st.s, st.laneOffset, rid, lane, s, off))
            pose = road.pose(s, road.center_t(s, lane)[0] + off)
            if math.hypot(st.x - pose["x"], st.y - pose["y"]) > 5e-3:
                raise Violation("linked", w + "at (%.3f, %.3f), expected (%.3f, %.3f)" % (st.x, st.y, pose["x"], pose["y"]))
            h = pose["h"] + (q["o"] or 0.0) + (math.pi if q["lane"] and dirn(road, lane) < 0 else 0.0)
            if abs(wrap(st.h - h)) > 2e-3:
                raise Violation("linked", w + "heading %.4f, expected %.4f" % (st.h, wrap(h)))
            cross |= rid != a["road"]
        S.close()
        return dict(nontrivial=cross, kinds=["linked"] + (["linked-roads"] if cross else []))

    def gen(self, rng):
        if rng.random() < 0.35:
            return self.gen_linked(rng)
        roads = []
        for i in range(rng.choice([1, 1, 2])):
            kinds = rng.choice([("line",), ("arc",), ("line", "arc", "spiral")])
            r = odr.gen_road(rng, str(i + 1), kinds, maxgeoms=3, elev=0.3, sup=0.0, off=0.0, secs=1, start=[3000.0 * i + round(rng.uniform(-100, 100), 1), round(rng.uniform(-100, 100), 1), round(rng.uniform(-3.1, 3.1), 3)], types=("driving",), heights=0.0, rule=0.5, ttypes=0.0, turn=1.0)
            nl, nr = rng.randint(1, 3), rng.randint(1, 3)
            w = rng.choice([3.0, 3.5, 4.0])
            r["secs"] = [dict(f=0.0, lanes=[dict(id=k, type="driving", w=[[0.0, w, 0.0, 0.0, 0.0]]) for k in list(range(nl, 0, -1)) + [0] + list(range(-1, -nr - 1, -1))])]
            for ln in r["secs"][0]["lanes"]:
                if ln["id"] == 0:
                    ln.update(type="none", w=[])
            r["cont"] = True
            roads.append(r)
        names = NAMES[:rng.randint(2, 4)]
        ini = [[n, self.pos(rng, names[:k], len(roads))] for k, n in enumerate(names)]
        tel = [[rng.choice(names), self.pos(rng, names, len(roads))] for _ in range(rng.randint(1, 8))]
        return dict(roads=roads, ini=ini, tel=tel, dt=rng.choice([0.1, 0.02]))

    def pos(self, rng, refs, nroads):
        k = rng.choice(["lane", "lane", "road", "world"] + (["rellane", "rellane", "dslane", "dslane", "relroad", "relworld", "relobj", "relobj"] if refs else []))
        p = dict(k=k)
        if k in ("lane", "road", "world"):
            p.update(road=rng.randrange(nroads), f=round(rng.uniform(0.02, 0.98), 3))
        if k == "lane":
            p.update(lane=rng.randrange(6), off=round(rng.choice([0.0, rng.uniform(-1, 1)]), 2))
        elif k in ("road", "world"):
            p.update(t=round(rng.uniform(-6, 6), 2))
            if k == "world":
                p.update(h=round(rng.uniform(-3, 3), 3), z=rng.choice([None, None, round(rng.uniform(-3, 3), 2)]))
        else:
            p["ref"] = rng.choice(refs)
            if k in ("rellane", "dslane"):
                p.update(dlane=rng.choice([0, 0, 1, -1, 2, -2]), ds=round(rng.uniform(-40, 40), 2), off=round(rng.choice([0.0, rng.uniform(-1, 1)]), 2))
            elif k == "relroad":
                p.update(ds=round(rng.uniform(-40, 40), 2), dt=round(rng.uniform(-5, 5), 2))
            else:
                p.update(dx=round(rng.uniform(-15, 15), 2), dy=round(rng.uniform(-4, 4), 2), dz=rng.choice([None, None, round(rng.uniform(-1, 1), 2)]))
        if k != "world" and rng.random() < 0.5:
            p["o"] = dict(type=rng.choice(["absolute", "relative"]), h=round(rng.uniform(-3, 3), 3))
            if rng.random() < 0.5:
                p["o"].update(p=round(rng.uniform(-0.4, 0.4), 3), r=round(rng.uniform(-0.4, 0.4), 3))
        return p

    def resolve(self, roads, where, p):
        """(place, xml position) of a statement"""
        k, o = p["k"], p.get("o")
        oh = o["h"] if o else 0.0
        ab = bool(o) and o["type"] == "absolute"
        if k in ("lane", "road", "world"):
            road = roads[p["road"] % len(roads)]
            s = p["f"] * road.length
            if not 0.5 < s < road.length - 0.5:
                raise Discard("s")
            rh = road.refline(s)[2]
            if k == "lane":
                ids = [i for i in road.lane_ids(s) if i]
                lane = ids[p["lane"] % len(ids)]
                if abs(p["off"]) > 1.2:
                    raise Discard("off")
                t = road.center_t(s, lane)[0] + p["off"]
                h = oh if ab else rh + (0.0 if dirn(road, lane) > 0 else math.pi) + oh
                return Place(road, s, t, h), dict(k="lane", road=road.id, lane=lane, s=s, off=p["off"], o=o), (lane, p["off"])
            if abs(p["t"]) > 8:
                raise Discard("t")
            if k == "road":
                return Place(road, s, p["t"], oh if ab else rh + oh), dict(k="road", road=road.id, s=s, t=p["t"], o=o), None
            q = road.pose(s, p["t"])
            return Place(road, s, p["t"], p["h"], None if p.get("z") is None else p["z"], p.get("z") is not None), dict(k="world", x=q["x"], y=q["y"], z=p.get("z"), h=p["h"]), None
        r = where[p["ref"]]
        road = r.road
        if k in ("rellane", "dslane"):
            lane = r.lane()
            if lane is None or r.margin() < 0.06:
                raise Discard("off road")
            d = dirn(road, lane) if k == "dslane" else 1
            if k == "dslane" and math.cos(r.h - r.rh) * d < 0.05:
                raise Discard("reference drives the wrong way")
            s = r.s + d * p["ds"]
            n = rel_lane(lane, d * p["dlane"])
            if n not in road.lane_ids(r.s) or n == 0 or not 0.5 < s < road.length - 0.5 or abs(p["off"]) > 1.2:
                raise Discard("no lane")
            t = road.center_t(s, n)[0] + d * p["off"]
            rh = road.refline(s)[2]
            h = oh if ab else rh + oh + (math.pi if k == "dslane" and dirn(road, n) < 0 else 0.0)
            return Place(road, s, t, h), dict(k="rellane", ref=p["ref"], dlane=p["dlane"], off=p["off"], o=o, **({"ds": p["ds"]} if k == "rellane" else {"dslane": p["ds"]})), (n, d * p["off"])
        if k == "relroad":
            s, t = r.s + p["ds"], r.t + p["dt"]
            if not 0.5 < s < road.length - 0.5 or abs(t) > 9:
                raise Discard("outside")
            return Place(road, s, t, oh if ab else road.refline(s)[2] + oh), dict(k="relroad", ref=p["ref"], ds=p["ds"], dt=p["dt"], o=o), None
        if k == "relworld":
            x, y, up = r.x + p["dx"], r.y + p["dy"], p.get("dz")
        else:
            if r.p is None:
                raise Discard("unknown orientation")
            v = rotate(r.h, r.p, r.r, p["dx"], p["dy"], p.get("dz") or 0.0)
            x, y, up = r.x + v[0], r.y + v[1], v[2]
            if any(abs(e) > 1e-12 for rec in road.elev for e in rec[2:]):
                raise Discard("object frame on a slope")
        s, t = project(road, x, y, r.s)
        if abs(t) > 9:
            raise Discard("t")
        dz = p.get("dz")
        return (Place(road, s, t, oh if ab else r.h + oh, None if dz is None else r.z + up, dz is not None), dict(k=k, ref=p["ref"], dx=p["dx"], dy=p["dy"], dz=dz, o=o), None)

    def flags(self, pl, p, where):
        r = where.get(p.get("ref"))
        o = p.get("o")
        flat = not any(abs(e) > 1e-12 for rec in pl.road.elev for e in rec[2:])
        if o and "p" in o and not (o["type"] == "absolute" or flat and (r is None or p["k"] not in ("relobj", "relworld") or (r.p, r.r) == (0.0, 0.0))):
            pl.p = pl.r = None
        elif o and "p" in o:
            pl.p, pl.r = o["p"], o["r"]
            pl.exact = o["type"] == "absolute"
        elif not flat:
            pl.p = pl.r = None
        elif p["k"] in ("relobj", "relworld"):
            pl.p, pl.r = (r.p, r.r) if not o else (0.0, 0.0) if (r.p, r.r) == (0.0, 0.0) else (None, None)
        inroad = p["k"] in ("rellane", "dslane", "relroad")
        if r is not None:
            pl.zfree = (inroad and (r.zdz or r.zfree)) or (p.get("dz") is not None and (r.zfree or r.xyloose))
            pl.xyloose = r.sloose if inroad else r.xyloose
        pl.sloose = pl.xyloose or p["k"] in ("world", "relworld", "relobj")

    def run(self, case, env):
        if "spec" in case:
            return self.run_linked(case, env)
        try:
            net = odr.Network(dict(roads=case["roads"]))
            roads = net.roads
            if not net.valid() or any(r.length < 5 for r in roads):
                raise Discard("net")
            where, init, plan, seen = {}, {}, [], set()
            for n, p in case["ini"]:
                if n in where or (p.get("ref") is not None and p["ref"] not in where):
                    raise Discard("order")
                try:
                    pl, px, lane = self.resolve(roads, where, p)
                except Discard:
                    pl, px, lane = self.resolve(roads, where, dict(k="lane", road=0, f=0.5, lane=len(where), off=0.0))
                    p = dict(k="lane")
                self.flags(pl, p, where)
                where[n] = pl
                init[n] = [dict(k="teleport", pos=px)]
                plan.append((None, n, pl, lane, p["k"]))
            for j, (n, p) in enumerate(case["tel"]):
                if n not in where or (p.get("ref") is not None and p["ref"] not in where):
                    raise Discard("order")
                try:
                    pl, px, lane = self.resolve(roads, where, p)
                except Discard:
                    continue
                self.flags(pl, p, where)
                where = dict(where)
                where[n] = pl
                plan.append((px, n, pl, lane, p["k"]))
        except (KeyError, TypeError, ZeroDivisionError, IndexError, AttributeError):
            raise Discard("invalid")
        if case["dt"] < 0.01:
            raise Discard("dt")
        stories = []
        names = list(init)
        acts = {n: [] for n in names}
        steps = [q for q in plan if q[0] is not None]
        for j, (px, n, pl, lane, k) in enumerate(steps):
            acts[n].append(dict(name="e%d" % j, prio="parallel", max=1, start=[[dict(k="var", name="c%d" % j, ref="go", value=j, rule="equalTo", edge="none")]], actions=[dict(k="teleport", name="a%d" % j, pos=px)]))
        for n in names:
            ev = acts[n] + [dict(name="keep_" + n, prio="parallel", max=1, start=[[dict(k="time", name="never_" + n, value=1e9, rule="greaterThan")]], actions=[dict(k="user", name="ua_" + n)])]
            st = osc.simple_story(ev, [n], name="story_" + n)
            stories.append(st)
        x = osc.scenario(dict(vars=[["go", "integer", -1]], entities=[osc.vehicle(n) for n in names], init=init, stories=stories))
        S = sim.Sim(self.se, env, x, net.xml())
        if S.rc != 0:
            raise Violation("init", "the scenario was rejected")
        ids = {n: S.id(n) for n in names}
        cur = {}
        for px, n, pl, lane, k in plan:
            if px is None:
                cur[n] = (pl, lane, k)
        self.compare(S, ids, cur, "after init")
        for j, (px, n, pl, lane, k) in enumerate(steps):
            self.se.SE_SetVariableInt(b"go", j)
            S.step(case["dt"])
            cur[n] = (pl, lane, k)
            self.compare(S, ids, cur, "after teleport %d of %s" % (j, n))
        S.close()
        ks = [q[4] for q in plan]
        return dict(nontrivial=any(k.startswith(("rel", "ds")) for k in ks) and any(k in ("lane", "road", "world") for k in ks), kinds=sorted(set(ks)))

    def compare(self, S, ids, cur, when):
        for n, (pl, lane, k) in cur.items():
            st = S.state(ids[n])
            w = "%s: %s (%s position)" % (when, n, k)
            slope = any(abs(e) > 1e-12 for rec in pl.road.elev for e in rec[2:])       # the heading of an object on a slope, and the foot point of a point above it, are approximate
            tol = (1.0 if slope else 0.5) if pl.xyloose else 5e-3
            htol, stol = (0.5, 1.0) if slope else (0.02 if pl.xyloose else 1e-3, 0.5 if pl.sloose else 5e-3)
            if math.hypot(st.x - pl.x, st.y - pl.y) > tol:
                raise Violation("xy", "%s is at (%.4f, %.4f), expected (%.4f, %.4f): road %s s %.3f t %.3f" % (w, st.x, st.y, pl.x, pl.y, pl.road.id, pl.s, pl.t))
            if abs(wrap(st.h - pl.h)) > htol:
                raise Violation("h", "%s has heading %.4f, expected %.4f (road heading %.4f)" % (w, st.h, wrap(pl.h), pl.rh))
            ptol = 0.25 if slope else 2e-3
            if pl.p is not None and (abs(wrap(st.p - pl.p)) > ptol or abs(wrap(st.r - pl.r)) > ptol):
                raise Violation("pr", "%s has pitch %.4f roll %.4f, expected %.4f %.4f" % (w, wrap(st.p), wrap(st.r), pl.p, pl.r))
            if not pl.zfree and abs(st.z - pl.z) > (0.15 if slope else 1e-3):
                raise Violation("z", "%s has z %.4f, expected %.4f" % (w, st.z, pl.z))
            if self.se.SE_GetRoadIdString(st.roadId).decode() != pl.road.id or abs(st.s - pl.s) > stol or abs(st.t - pl.t) > (0.05 if pl.sloose else 5e-3):
                raise Violation("road", "%s is on road %s s %.4f t %.4f, expected road %s s %.4f t %.4f" % (w, self.se.SE_GetRoadIdString(st.roadId).decode(), st.s, st.t, pl.road.id, pl.s, pl.t))
            if lane is not None and (st.laneId != lane[0] or abs(st.laneOffset - lane[1]) > (0.05 if pl.sloose else 5e-3)):
                raise Violation("lane", "%s is in lane %d offset %.4f, expected lane %d offset %.4f" % (w, st.laneId, st.laneOffset, lane[0], lane[1]))
            if lane is None and pl.margin() > 0.06 and pl.lane() is not None and st.laneId != pl.lane():
                raise Violation("lane", "%s is in lane %d, its t %.3f lies in lane %d" % (w, st.laneId, pl.t, pl.lane()))


CHECK = S07
