"""S17: an object with a route follows it: at every junction it takes the road of the route."""
import math
import pbt, odr, capi, net, osc, sim
from ctypes import byref
from pbt import Violation, Discard


class S17(pbt.Check):
    id = "S17"
    targets = ["esminiLib"]
    quick_cases, quick_time = 3000, 30
    thorough_cases, thorough_time = 200000, 900
    case_timeout = 20
    rule = ("Random networks of roads of either orientation with lane sections and a junction of 2-3 branches, 1-4 vehicles driving towards or out of the junction with routes (2-5 waypoints on roads of one path, in any lane of the driving direction, closed or not), "
            "target positions (acquire position) or without, assigned at the start and again on the way; after every step each vehicle must be on the roads of its route, in the lane that continues its own, further along by the distance moved, and the route points reported must be those given. "
            "Non-trivial: a vehicle with a route passed the junction.")

    def prepare(self):
        self.se = capi.se()

    def gen(self, rng):
        spec = net.gen_linked(rng, junction=1.0, ntrunk=(1, 3), minlen=15.0, kmax=0.01)
        cars = []
        for i in range(rng.randint(1, 4)):
            rt = []
            for j in range(rng.choice([0, 1, 1, 1, 2])):
                rt.append(dict(t=0.0 if j == 0 and rng.random() < 0.6 else odr.r3(rng.uniform(0.05, 3), 2), b=rng.randrange(3), acq=rng.random() < 0.25, wp=[[odr.r3(rng.random(), 3), rng.choice([-1, -1, rng.randrange(4)])] for _ in range(rng.choice([1, 1, 2, 3, 4]))], w0=odr.r3(rng.random(), 3), w1=odr.r3(rng.random(), 3)))
            cars.append(dict(b=rng.randrange(3), tr=rng.randrange(4), f=odr.r3(rng.random(), 3), rev=rng.random() < 0.25, v=odr.r3(rng.choice([rng.uniform(3, 30), rng.uniform(8, 20)]), 1), e=odr.r3(rng.choice([0.0, rng.uniform(-0.7, 0.7)]), 2), rt=rt))
        return dict(spec=spec, cars=cars, dt=rng.choice([0.05, 0.1, 0.1, 0.25]), n=rng.randint(20, 90))

    def run(self, case, env):
        try:
            M = net.Linked(case["spec"])
            if not M.valid() or len(M.branches) < 2 or not 0.01 <= case["dt"] <= 1 or not 1 <= case["n"] <= 500 or not case["cars"]:
                raise Discard("invalid")
            nt = len(M.trunk)
            ucon = sum(M.lens[str(rs["id"])] for rs in M.trunk)
            side = lambda d: sorted(t for t in case["spec"]["w"] if t[0] == ("r" if (d > 0) != M.lht else "l"))
            init, stories, cars = {}, [], []
            for i, c in enumerate(case["cars"]):
                n = "C%d" % i
                d = -1 if c["rev"] else 1
                trk = side(d)
                if not trk or c["v"] < 1:
                    raise Discard("track")
                track = trk[c["tr"] % len(trk)]
                path = M.paths[c["b"] % len(M.paths)]
                uout = ucon + M.lens[str(path[nt]["id"])]
                u0 = (1 + c["f"] * (ucon - 2)) if d > 0 else uout + 1 + c["f"] * (M.path_len(path) - uout - 2)
                a = M.at(path, track, u0, c["e"])
                if a is None or a["dir"] != d:
                    raise Discard("track")
                init[n] = [dict(k="teleport", pos=dict(k="lane", road=a["road"], lane=a["lane"], s=a["s"], off=a["off"])), dict(k="speed", v=c["v"], dyn=dict(shape="step"))]
                car = dict(n=n, d=d, track=track, path=path if d < 0 else None, rts=[], v=c["v"], u=u0, p0=path, through=0)
                evs, tl = [], -1
                for j, q in enumerate(c["rt"]):
                    p = path if d < 0 else M.paths[q["b"] % len(M.paths)]
                    if q["t"] < tl:
                        continue
                    if q["t"] > 0:
                        # on which road is it at that time, roughly: assign routes well before the junction only
                        ua = u0 + d * c["v"] * q["t"] * 1.3
                        if (d > 0 and ua > ucon - 8) or (d < 0 and ua < uout + 8):
                            continue
                    tl = q["t"]
                    rs, vv = M.locate(p, u0)
                    b0 = sum(M.lens[str(r["id"])] for r in p[:p.index(rs)]) if d > 0 else u0
                    # first waypoint on the road of the vehicle, the others further on; the last one beyond the junction
                    first = (b0 + 0.3 + q["w0"] * (u0 - b0 - 0.3)) if d > 0 else u0 + 0.1 * q["w0"]
                    last = uout + 0.5 + q["w1"] * (M.path_len(p) - uout - 1.0) if d > 0 else 0.5 + q["w1"] * (ucon - 1.0)
                    if d > 0:
                        uo = ucon + M.lens[str(p[nt]["id"])]
                        last = uo + 0.5 + q["w1"] * (M.path_len(p) - uo - 1.0)
                    us = sorted([(first + f * (last - first), k) for f, k in q["wp"][:-1]], key=lambda z: d * z[0])
                    wps = []
                    for u, k in [(first, -1)] + us + [(last, q["wp"][-1][1])]:
                        if wps and abs(u - wps[-1]["u"]) < 0.1:
                            continue
                        r, v2 = M.locate(p, u)
                        L = M.lens[str(r["id"])]
                        if r is p[nt] or min(abs(v2 - s["f"] * L) for s in r["secs"] + [dict(f=1.0)]) < 0.2:
                            continue
                        w = M.at(p, track if k < 0 else trk[k % len(trk)], u)
                        if w is None:
                            raise Discard("wp")
                        w["u"] = u
                        wps.append(w)
                    if len(wps) < 2 or wps[-1]["u"] != last or wps[0]["u"] != first:
                        continue
                    pos = lambda w: osc.position(dict(k="lane", road=w["road"], lane=w["lane"], s=w["s"], off=0.0))
                    if q["acq"]:
                        x = osc.tag("RoutingAction", None, osc.tag("AcquirePositionAction", None, osc.tag("Position", None, pos(wps[-1])) if not pos(wps[-1]).startswith("<Position>") else pos(wps[-1])))
                    else:
                        x = osc.tag("RoutingAction", None, osc.tag("AssignRouteAction", None, osc.tag("Route", dict(name="r%d_%d" % (i, j), closed=False), *[osc.tag("Waypoint", dict(routeStrategy="shortest"), pos(w)) for w in wps])))
                    A = dict(k="raw", name="a%d_%d" % (i, j), xml=x)
                    car["rts"].append(dict(t=q["t"], p=p, wps=wps, own=all(k < 0 or trk[k % len(trk)] == track for _, k in q["wp"]), acq=q["acq"], name="a%d_%d" % (i, j)))
                    if q["t"] <= 0:
                        init[n].append(A)
                    else:
                        evs.append(dict(name="e%d_%d" % (i, j), prio="parallel", max=1, start=[[dict(k="time", name="c%d_%d" % (i, j), value=q["t"], rule="greaterThan")]], actions=[A]))
                evs.append(dict(name="keep" + n, prio="parallel", max=1, start=[[dict(k="time", name="never" + n, value=1e9, rule="greaterThan")]], actions=[dict(k="user", name="ua" + n)]))
                stories.append(osc.simple_story(evs, [n], name="story" + n))
                cars.append(car)
            x = osc.scenario(dict(entities=[osc.vehicle(c["n"]) for c in cars], init=init, stories=stories))
            xml = M.xml()
        except (KeyError, TypeError, ZeroDivisionError, IndexError, ValueError, AttributeError):
            raise Discard("invalid")
        se = self.se
        S = sim.Sim(se, env, x, xml, elems=True)
        if S.rc != 0:
            raise Violation("init", "the scenario was rejected")
        rids = {se.SE_GetRoadIdFromString(str(i).encode()): str(i) for i in M.rs}
        for c in cars:
            c["id"] = S.id(c["n"])
            for r in c["rts"]:
                if r["t"] <= 0:
                    c["want"] = r
            c["prev"] = None
        n, passed = 0, 0
        for i in range(case["n"] + 1):
            if i:
                S.take()
                S.step(case["dt"])
                started = {q[0] for q in S.take() if q[2] == 2}
                for c in cars:
                    for r in c["rts"]:
                        if r["name"] in started:
                            c["want"] = r
            for c in cars:
                st = S.state(c["id"])
                w = "step %d, %s: " % (i, c["n"])
                rd = rids.get(st.roadId)
                if rd is None:
                    raise Violation("road", w + "on unknown road %d" % st.roadId)
                r = c.get("want")
                if r is not None and c.get("told") is not r:
                    c["told"] = r
                    self.points(se, c, r, st, w, M)
                # which path is it on
                if c["path"] is None:
                    trunk = [str(rs["id"]) for rs in M.trunk]
                    if rd not in trunk:
                        ps = [p for p in M.paths if rd in [str(rs["id"]) for rs in p]]
                        if c.get("want") and ps[0] is not c["want"]["p"]:
                            raise Violation("route", w + "left the junction on road %s, which is not on its route over the roads %s" % (rd, [rs["id"] for rs in c["want"]["p"]]))
                        c["path"] = ps[0]
                        if c.get("want"):
                            passed += 1
                path = c["path"] or c["p0"]
                ids = [str(rs["id"]) for rs in path]
                if rd not in ids:
                    raise Violation("route", w + "is on road %s, not on %s" % (rd, ids))
                k = ids.index(rd)
                base = sum(M.lens[q] for q in ids[:k])
                rs = path[k]
                u = base + (M.lens[rd] - st.s if rs["flip"] else st.s)
                if min(abs(u - b) for b in M.breaks(path)) > 1e-3:
                    a = M.at(path, c["track"], u)
                    if a is None:
                        raise Discard("lane ends")
                    if st.laneId != a["lane"]:
                        raise Violation("lane", w + "in lane %d of road %s at s %.3f, its lane is %d there" % (st.laneId, rd, st.s, a["lane"]))
                    road = M.N.by_id[rd]
                    kap = road.refline(min(max(st.s, 1e-6), road.length - 1e-6))[3]
                    if rs["flip"]:
                        kap = -kap
                    hexp = road.refline(min(max(st.s, 1e-6), road.length - 1e-6))[2] + (0.0 if (c["d"] > 0) != rs["flip"] else math.pi)
                    if abs(odr.adiff(st.h, hexp)) > 0.05:
                        raise Violation("heading", w + "heading %.4f, road %.4f" % (st.h, hexp))
                else:
                    kap = None
                p = c["prev"]
                if p is not None:
                    du = (u - p[0]) * c["d"]
                    if du < -1e-6:
                        raise Violation("back", w + "moved back by %.4f m" % -du)
                    if kap is not None and p[1] is not None and p[3] == (rd, a["k"]) and abs(kap - p[1]) < 1e-9:
                        dist = math.hypot(st.x - p[2][0], st.y - p[2][1])
                        endu = M.path_len(path) if c["d"] > 0 else 0.0
                        if abs(u - endu) > 1e-3 and not c["v"] * case["dt"] * 0.9 - 1e-3 < dist < c["v"] * case["dt"] * 1.05 + 1e-3:
                            raise Violation("distance", w + "moved %.4f m in %g s at speed %g" % (dist, case["dt"], c["v"]))
                c["prev"] = (u, kap, (st.x, st.y), (rd, a["k"] if kap is not None else None))
                n += 1
        S.close()
        return dict(nontrivial=passed > 0, checks=n, classes=sorted({("acquire" if r["acq"] else "route") + ("/rev" if c["d"] < 0 else "") for c in cars for r in c["rts"]}))

    def points(self, se, c, r, st, w, M):
        """the route as reported is the one given"""
        k = se.SE_GetNumberOfRoutePoints(c["id"])
        if k < 2:
            raise Violation("points", w + "has %d route points" % k)
        ri = capi.SE_RouteInfo()
        ids = [str(q["id"]) for q in r["p"]]
        us = []
        for i in range(k):
            if se.SE_GetRoutePoint(c["id"], i, byref(ri)) != 0:
                raise Violation("points", w + "route point %d of %d is not available" % (i, k))
            rd = se.SE_GetRoadIdString(ri.roadId).decode()
            if rd not in ids:
                raise Violation("points", w + "route point %d is on road %s, the route leads over %s" % (i, rd, ids))
            j = ids.index(rd)
            us.append(sum(M.lens[q] for q in ids[:j]) + (M.lens[rd] - ri.s if r["p"][j]["flip"] else ri.s))
            if r["own"] and min(abs(us[-1] - b) for b in M.breaks(r["p"])) > 1e-2:
                a = M.at(r["p"], c["track"], us[-1])
                if a is None or a["lane"] != ri.laneId:
                    raise Violation("points", w + "route point %d is in lane %d of road %s at s %.3f, the lane of the route is %s there" % (i, ri.laneId, rd, ri.s, a and a["lane"]))
        if any((b - a) * c["d"] < -1e-3 for a, b in zip(us, us[1:])):
            raise Violation("points", w + "the route points are at %s along the route" % us)
        want = [q["u"] for q in r["wps"]]
        if r["acq"]:
            want = [us[0], want[-1]]
        for u in (want[0], want[-1]):
            if min(abs(u - q) for q in us) > 0.01:
                raise Violation("points", w + "no route point at %.3f: %s" % (u, us))
        L = se.SE_GetRouteTotalLength(c["id"])
        if abs(L - abs(want[-1] - want[0])) > 0.01:
            raise Violation("length", w + "the length of the route is %.4f, from %.4f to %.4f are %.4f" % (L, want[0], want[-1], abs(want[-1] - want[0])))


CHECK = S17
