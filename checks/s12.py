"""S12: collisions, free space and vehicle combinations. Overlaps and distances are what the bounding boxes of all parts say, in every step."""
import math, ctypes as C
import pbt, capi, osc, sim, boxes
from pbt import Violation, Discard
import s03

MARGIN = 1e-3
NAMES = ["A", "B", "C", "D", "E"]
ENTITY, LANE, ROAD = 1, 2, 3
LAT, LON, CART, EUC = 1, 2, 3, 4


class Body:
    def __init__(self, case, st, oid, bb):
        self.id, self.x, self.y, self.z, self.h, self.v = oid, st.x, st.y, st.z, st.h, st.speed
        self.bb = bb
        self.P = boxes.corners(self.x, self.y, self.h, bb)
        c, s = math.cos(case["h0"]), math.sin(case["h0"])
        rs = lambda p: ((p[0] - case["x0"]) * c + (p[1] - case["y0"]) * s, -(p[0] - case["x0"]) * s + (p[1] - case["y0"]) * c)
        self.R = [rs(p) for p in self.P]
        self.s, self.t = rs((self.x, self.y))
        self.hr = s03.wrap(self.h - case["h0"])


class S12(pbt.Check):
    id = "S12"
    targets = ["esminiLib"]
    quick_cases, quick_time = 5000, 35
    thorough_cases, thorough_time = 300000, 900
    rule = ("2-5 objects (vehicles with up to two trailers, pedestrians, obstacles; random boxes and hitch offsets) reported at random, often close, places, headings and heights in every step of a random history, some deleted on the way; collision lists, free space distances between "
            "whole combinations, sampled distances and trailer placement are compared with independent box geometry. Non-trivial: some pair starts or ends overlapping during the run, or a combination with trailers is measured.")

    def prepare(self):
        self.se = capi.se()

    def box(self, rng):
        l = round(rng.uniform(0.6, 9), 2)
        return [round(rng.uniform(-0.3, 0.3) * l, 2), round(rng.choice([0.0, rng.uniform(-0.2, 0.2)]), 2), 0.7, l, round(rng.uniform(0.5, 3), 2), 1.5]

    def gen(self, rng):
        case = dict(L=2, R=2, w=3.5, x0=round(rng.uniform(-200, 200), 2), y0=round(rng.uniform(-200, 200), 2), h0=rng.choice([0.0, round(rng.uniform(-3.1, 3.1), 3)]), objs={}, steps=[])
        names = NAMES[:rng.randint(2, 5)]
        s0 = rng.uniform(150, 350)
        spread = rng.choice([6, 15, 40])
        place = lambda: dict(s=round(s0 + rng.uniform(-spread, spread), 2), t=round(rng.uniform(-6.5, 6.5), 2), h=round(rng.choice([rng.gauss(0, 0.2), rng.gauss(math.pi, 0.2), rng.uniform(-3, 3)]), 3), z=rng.choice([0.0, 0.0, 0.0, 1.5, 4.0]))
        for n in names:
            ty = rng.choice(["vehicle", "vehicle", "vehicle", "pedestrian", "miscellaneous"])
            o = dict(type=ty, bb=self.box(rng), init=place())
            if ty == "vehicle" and rng.random() < 0.6:
                o["tr"] = [dict(bb=self.box(rng), hitch=round(rng.uniform(-5, 0), 2), coupler=round(rng.uniform(0.5, 6), 2)) for _ in range(rng.randint(1, 2))]
            case["objs"][n] = o
        for i in range(rng.randint(3, 12)):
            st = dict(dt=rng.choice([0.1, 0.1, 0.05, 1.3]), st={n: place() for n in names if rng.random() < 0.7}, q=[])
            for j in range(rng.randint(1, 5)):
                st["q"].append([rng.randrange(12), rng.randrange(12), rng.choice(["simple", "free", "free", "gd"]), rng.choice([1, 2, 3, 4]), rng.choice([1, 3, 2]), rng.choice([0.5, 5.0, 30.0, 600.0])])
            if i and rng.random() < 0.15:
                st["del"] = rng.sample(names, rng.choice([1, 1, 2]))
            case["steps"].append(st)
        return case

    def run(self, case, env):
        se = self.se
        try:
            ents = []
            for n, o in case["objs"].items():
                if abs(o["bb"][0]) > 0.35 * o["bb"][3] or min(o["bb"][3:]) < 0.1 or abs(o["bb"][1]) > 0.4 * o["bb"][4]:
                    raise Discard("box")
                if o["type"] == "vehicle":
                    extra = ""
                    for k, tr in reversed(list(enumerate(o.get("tr") or []))):
                        if abs(tr["bb"][0]) > 0.35 * tr["bb"][3] or min(tr["bb"][3:]) < 0.1 or abs(tr["bb"][1]) > 0.4 * tr["bb"][4]:
                            raise Discard("box")
                        if tr["coupler"] < 0.3:
                            raise Discard("coupler")
                        v = osc.vehicle("x", bb=tr["bb"], cat="trailer", extra=osc.tag("TrailerCoupler", dict(dx=tr["coupler"])) + extra)
                        v = v[v.index("<Vehicle"):v.index("</ScenarioObject>")]
                        extra = osc.tag("TrailerHitch", dict(dx=tr["hitch"])) + osc.tag("Trailer", None, osc.tag("Trailer", dict(name=n + "_t%d" % k), v))
                    ents.append(osc.vehicle(n, bb=o["bb"], extra=extra))
                else:
                    ents.append((osc.pedestrian if o["type"] == "pedestrian" else osc.misc)(n, bb=o["bb"]))
            w = lambda p: (case["x0"] + p["s"] * math.cos(case["h0"]) - p["t"] * math.sin(case["h0"]), case["y0"] + p["s"] * math.sin(case["h0"]) + p["t"] * math.cos(case["h0"]), p["z"], case["h0"] + p["h"])
            init = {}
            for n, o in case["objs"].items():
                x, y, z, h = w(o["init"])
                init[n] = [dict(k="teleport", pos=dict(k="world", x=x, y=y, z=z, h=h))]
        except (KeyError, TypeError, IndexError):
            raise Discard("invalid")
        x = osc.scenario(dict(entities=ents, init=init, stories=[osc.simple_story([dict(name="e", prio="parallel", max=1, start=[[dict(k="time", name="never", value=1e9, rule="greaterThan")]], actions=[dict(k="user", name="ua")])], [])]))
        se.SE_CollisionDetection(True)
        S = sim.Sim(se, env, x, s03.road(case))
        if S.rc != 0:
            raise Violation("init", "the scenario was rejected")
        chain, bbs = {}, {}
        ntr = 0
        for n, o in case["objs"].items():
            ids, nm = [S.id(n)], n
            bbs[ids[0]] = o["bb"]
            for tr in o.get("tr") or []:
                nm += "+"
                ids.append(S.id(nm))
                bbs[ids[-1]] = tr["bb"]
                ntr += 1
            if min(ids) < 0:
                raise Violation("entities", "object %s or its trailers do not exist (ids %s)" % (n, ids))
            chain[n] = ids
        if se.SE_GetNumberOfObjects() != len(bbs):
            raise Violation("entities", "%d objects instead of %d" % (se.SE_GetNumberOfObjects(), len(bbs)))
        owner = {i: n for n, ids in chain.items() for i in ids}
        allids = sorted(owner)
        samples, state, flips, meas = {}, None, 0, 0
        t = 0.0
        for k, st in enumerate([None] + case["steps"]):
            if st is not None:
                for n in st.get("del") or []:
                    if n not in chain or len(chain) < 2:
                        continue
                    if se.SE_DeleteObject(chain[n][0]) != 0:
                        raise Violation("delete", "step %d: %s is not deleted" % (k, n))
                    dead = chain.pop(n)
                    allids = [i for i in allids if i not in dead]
                    for i in allids:
                        got = [se.SE_GetObjectCollision(i, j) for j in range(se.SE_GetObjectNumberOfCollisions(i))]
                        if set(got) - set(allids):
                            raise Violation("collisions", "step %d: object %d collides with %s, deleted objects are %s" % (k, i, got, dead))
                if st["dt"] <= 1e-3:
                    raise Discard("dt")
                for n, p in st["st"].items():
                    if n in chain:
                        X, Y, Z, H = w(p)
                        se.SE_ReportObjectPos(chain[n][0], X, Y, Z, H, 0.0, 0.0)
                S.step(st["dt"])
                t += st["dt"]
            where = "after step %d" % k
            B = {i: Body(case, S.state(i), i, bbs[i]) for i in allids}
            # reported places
            if st is not None:
                for n, p in st["st"].items():
                    if n in chain:
                        X, Y, Z, H = w(p)
                        b = B[chain[n][0]]
                        if math.hypot(b.x - X, b.y - Y) > 1e-6 or abs(s03.wrap(b.h - H)) > 1e-6:
                            raise Violation("report", "%s: %s is at %s instead of %s" % (where, n, (b.x, b.y, b.h), (X, Y, H)))
            # trailers hang on their hitch
            for n, ids in chain.items():
                for a, b, tr in zip(ids, ids[1:], case["objs"][n].get("tr") or []):
                    a, b = B[a], B[b]
                    hx, hy = a.x + tr["hitch"] * math.cos(a.h), a.y + tr["hitch"] * math.sin(a.h)
                    cx, cy = b.x + tr["coupler"] * math.cos(b.h), b.y + tr["coupler"] * math.sin(b.h)
                    if math.hypot(hx - cx, hy - cy) > 1e-6:
                        raise Violation("trailer", "%s: the coupler of a trailer of %s is %.3f m from the hitch" % (where, n, math.hypot(hx - cx, hy - cy)))
            # collisions
            now = {}
            for i in allids:
                cnt = se.SE_GetObjectNumberOfCollisions(i)
                got = [se.SE_GetObjectCollision(i, j) for j in range(cnt)]
                if len(set(got)) != len(got) or i in got:
                    raise Violation("collisions", "%s: collision list of object %d is %s" % (where, i, got))
                if se.SE_GetObjectCollision(i, cnt) != -1 or se.SE_GetObjectCollision(i, -1) != -1:
                    raise Violation("collisions", "%s: an element outside the collision list is delivered" % where)
                for j in allids:
                    if j == i:
                        continue
                    sep = boxes.separation(B[i].P, B[i].h, B[j].P, B[j].h)
                    dz = abs(B[i].z - B[j].z)
                    if abs(sep) < MARGIN or abs(dz - 2.5) < 0.01:
                        now[(i, j)] = None
                        continue
                    exp = sep < 0 and dz < 2.5
                    now[(i, j)] = exp
                    if exp != (j in got):
                        raise Violation("collisions", "%s: objects %d and %d %s (separation %.3f, height difference %.2f) but the collision list of %d is %s" % (where, i, j, "overlap" if exp else "do not overlap", sep, dz, i, got))
            if state is not None:
                flips += sum(1 for q in now if now[q] is not None and state.get(q) is not None and now[q] != state[q])
            state = now
            # distances
            for q in (st["q"] if st is not None else []):
                try:
                    ia, ib, kind, dt, cs, limit = allids[q[0] % len(allids)], allids[q[1] % len(allids)], q[2], q[3], q[4], q[5]
                except (IndexError, TypeError):
                    raise Discard("q")
                if dt not in (1, 2, 3, 4) or cs not in (1, 2, 3) or limit <= 0:
                    raise Discard("q")
                if ia == ib or owner[ia] == owner[ib]:
                    continue
                a, b = B[ia], B[ib]
                lx, ly = (b.x - a.x) * math.cos(a.h) + (b.y - a.y) * math.sin(a.h), -(b.x - a.x) * math.sin(a.h) + (b.y - a.y) * math.cos(a.h)
                if kind == "simple":
                    d, ts = C.c_double(), C.c_double()
                    rc = se.SE_SimpleGetDistanceToObject(ia, ib, dt, limit, C.byref(d), C.byref(ts))
                    key = (ia, ib, dt)
                    true = {LAT: ly, LON: lx}.get(dt, math.hypot(lx, ly) * (1 if lx >= 0 else -1))
                    if rc == 0:
                        if abs(d.value - true) > 1e-4 and not (dt in (CART, EUC) and abs(lx) < 1e-4):
                            raise Violation("simple", "%s: sampled distance (type %d) from %d to %d is %.4f, should be %.4f" % (where, dt, ia, ib, d.value, true))
                        if abs(ts.value - t) > 1e-6:
                            raise Violation("simple", "%s: a new sample has time stamp %g at time %g" % (where, ts.value, t))
                        samples[key] = (d.value, ts.value)
                    elif rc == -2:
                        if math.hypot(lx, ly) > 499.99:
                            for d2 in (1, 2, 3, 4):          # out of range: not measured for up to 3 s
                                samples[("far", ia, ib, d2)] = samples[("far", ib, ia, d2)] = t
                            continue
                        if t - samples.get(("far",) + key, -10) < 3.0 + 1e-6:
                            continue
                        if key not in samples:
                            raise Violation("simple", "%s: the first distance of type %d from %d to %d (%.3f m) is reported as out of range or not updated" % (where, dt, ia, ib, math.hypot(lx, ly)))
                        if (d.value, ts.value) != samples[key]:
                            raise Violation("simple", "%s: without a new sample, the distance of type %d from %d to %d is %s, the last sample was %s" % (where, dt, ia, ib, (d.value, ts.value), samples[key]))
                        age = t - ts.value
                        if age > 3.0 + 1e-6 or (age > 1e-6 and samples[key][0] < limit - 1e-6 and limit == samples.get(("limit",) + key)):
                            raise Violation("simple", "%s: the sample of distance type %d from %d to %d is %.2f s old" % (where, dt, ia, ib, age))
                    else:
                        raise Violation("simple", "%s: the distance between existing objects is refused (%d)" % (where, rc))
                    if rc == 0:
                        samples[("limit",) + key] = limit
                elif kind == "free":
                    meas += 1
                    A, D = [B[i] for i in chain[owner[ia]]], [B[i] for i in chain[owner[ib]]]
                    pairs = [(p, r) for p in A for r in D]
                    for o in [a] + D:
                        se.SE_ReportObjectVel(o.id, 0.0, 0.0, 0.0)
                    vals = []
                    for sp in (1.0, -1.0):
                        se.SE_ReportObjectSpeed(ia, sp)
                        ttc = C.c_double(-7.0)
                        rc = se.SE_GetTimeToCollision(ia, ib, cs, dt, True, C.byref(ttc))
                        vals.append((rc, ttc.value))
                    se.SE_ReportObjectSpeed(ia, 0.0)
                    if any(rc not in (0, -1) for rc, v in vals):
                        raise Violation("free", "%s: return code %s" % (where, vals))
                    got = max(v for rc, v in vals)
                    sg = 0 if got < 0 else (1 if vals[0][1] >= 0 else -1)
                    got = 0.0 if got < 0 else got * sg
                    dist = [boxes.distance(p.P, p.h, r.P, r.h) for p, r in pairs]
                    m = min(dist)
                    glon = [boxes.gap(boxes.span(p.P, p.h)[0], boxes.span(r.P, p.h)[0]) for p, r in pairs]
                    glat = [boxes.gap(boxes.span(p.P, p.h)[1], boxes.span(r.P, p.h)[1]) for p, r in pairs]
                    if cs == ENTITY or dt in (CART, EUC):
                        near = [i for i in range(len(pairs)) if dist[i] < m + 1e-6]
                        if dt in (CART, EUC):
                            exp = [m, -m] if any(abs(glon[i]) < 1e-6 for i in near) and any(True for i in near) else [m * (1 if glon[i] >= 0 else -1) for i in near]
                        else:
                            exp = [(glon if dt == LON else glat)[i] for i in near]
                    else:
                        kx = 0 if dt == LON else 1
                        if any(abs(abs(p.hr) - math.pi / 2) < 0.05 for p in A):
                            continue
                        vals2 = []
                        for (p, r), d0 in zip(pairs, dist):
                            if boxes.separation(p.P, p.h, r.P, r.h) <= 0:
                                vals2.append(0.0)
                            else:
                                u, v = [c[kx] for c in p.R], [c[kx] for c in r.R]
                                vals2.append((1 if abs(p.hr) < math.pi / 2 else -1) * boxes.gap((min(u), max(u)), (min(v), max(v))))
                        mm = min(abs(v) for v in vals2)
                        exp = [v for v in vals2 if abs(v) < mm + 1e-6]
                        if dt == LAT:
                            exp, got = [abs(v) for v in exp], abs(got)
                    if not any(abs(e - got) < 2e-4 for e in exp):
                        raise Violation("free", "%s: free space distance (coordinates %d, type %d) from %d of %s to %d of %s is %.4f, the boxes say %s (per pair: distance %s, longitudinal %s, lateral %s)" %
                                        (where, cs, dt, ia, chain[owner[ia]], ib, chain[owner[ib]], got, exp, dist, glon, glat))
                else:
                    pd = capi.SE_PositionDiff()
                    rc = se.SE_GetDistanceToObject(ia, ib, False, C.byref(pd))
                    if rc != 0:
                        raise Violation("distance", "%s: no distance on one road (%d)" % (where, rc))
                    sgn = 1 if abs(a.hr) < math.pi / 2 else -1
                    if abs(abs(a.hr) - math.pi / 2) > 0.01 and (abs(pd.ds - sgn * (b.s - a.s)) > 1e-3 or abs(abs(pd.dt) - abs(b.t - a.t)) > 1e-3):
                        raise Violation("distance", "%s: distance from %d to %d is ds %.3f dt %.3f, should be %.3f %.3f" % (where, ia, ib, pd.ds, pd.dt, sgn * (b.s - a.s), sgn * (b.t - a.t)))
                    if abs(pd.dx - lx) > 1e-3 or abs(pd.dy - ly) > 1e-3:
                        raise Violation("distance", "%s: distance from %d to %d is dx %.3f dy %.3f, should be %.3f %.3f" % (where, ia, ib, pd.dx, pd.dy, lx, ly))
        S.close()
        return dict(nontrivial=flips > 0 or (ntr > 0 and meas > 0), flips=flips, measured=meas)


CHECK = S12
