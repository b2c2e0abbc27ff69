"""S13: ideal object sensors. A sensor lists exactly the objects whose reference point is in its field of view, for every pose, mounting, visibility and set of objects."""
import math, ctypes as C
import pbt, capi, osc, sim
from pbt import Violation, Discard

NAMES = ["A", "B", "C", "D", "E", "F", "G", "H"]


class S13(pbt.Check):
    id = "S13"
    targets = ["esminiLib"]
    quick_cases, quick_time = 6000, 35
    thorough_cases, thorough_time = 300000, 900
    rule = ("2-8 objects reported at random places and headings (or driving on their own), 1-4 sensors mounted anywhere on any object at any time with random direction, opening angle, range and capacity, visibility actions, objects added and deleted on the way; "
            "after every step the list of every sensor is compared with the field of view computed from the reported states. Non-trivial: some sensor sees an object and misses another.")

    def prepare(self):
        self.se = capi.se()

    def gen(self, rng):
        u = lambda a, b: round(rng.uniform(a, b), 2)
        spread = rng.choice([8, 25, 60])
        names = NAMES[:rng.randint(2, 8)]
        place = lambda: dict(x=round(500 + rng.uniform(-spread, spread), 2), y=round(rng.choice([-1.75, 1.75, -5.25, rng.uniform(-spread, spread)]), 2), h=round(rng.choice([0.0, math.pi, rng.uniform(-4, 7)]), 3))
        case = dict(objs={n: dict(ty=rng.choice([1, 1, 2, 3]), v=rng.choice([0.0, 0.0, u(1, 25)]), init=place()) for n in names}, vis=[], steps=[])
        for i in range(rng.choice([0, 0, 1, 2])):
            case["vis"].append(dict(t=u(0, 1), who=rng.choice(names), s=rng.random() < 0.4, g=rng.random() < 0.5, tr=rng.random() < 0.5))
        for i in range(rng.randint(2, 10)):
            st = dict(dt=rng.choice([0.1, 0.05, 0.3]), rep={n: place() for n in names if rng.random() < 0.5}, ops=[])
            if i == 0 or rng.random() < 0.25:
                for _ in range(rng.choice([1, 1, 2])):
                    st["ops"].append(dict(k="sensor", o=rng.randrange(12), x=u(-3, 5), y=rng.choice([0.0, u(-2, 2)]), z=0.5, h=rng.choice([0.0, u(-3.2, 3.2), u(-1.6, 1.6)]), near=rng.choice([0.0, 0.5, u(0, 8)]), far=rng.choice([u(5, 20), u(10, 60), 200.0]),
                                          fov=rng.choice([u(0.1, 1.0), u(0.5, 3.1), u(3, 6.28)]), n=rng.choice([0, 1, 2, 3, 20, 20, 20])))
            if rng.random() < 0.15:
                st["ops"].append(dict(k="add", ty=rng.choice([1, 2, 3]), at=place()))
            if rng.random() < 0.15:
                st["ops"].append(dict(k="del", o=rng.randrange(12)))
            case["steps"].append(st)
        return case

    def run(self, case, env):
        se = self.se
        try:
            ents = [dict([(1, osc.vehicle), (2, osc.pedestrian), (3, osc.misc)])[o["ty"]](n) for n, o in case["objs"].items()]
            init = {}
            for n, o in case["objs"].items():
                init[n] = [dict(k="teleport", pos=dict(k="world", x=o["init"]["x"], y=o["init"]["y"], z=0.0, h=o["init"]["h"]))]
                if o["ty"] == 1:
                    init[n].append(dict(k="speed", v=o["v"], dyn=dict(shape="step", dim="time", v=0.0)))
            stories = []
            for i, v in enumerate(case["vis"]):
                if v["who"] not in case["objs"]:
                    raise Discard("vis")
                ev = [dict(name="e%d" % i, prio="parallel", max=1, start=[[dict(k="time", name="c%d" % i, value=v["t"], rule="greaterThan")]], actions=[dict(k="visibility", name="v%d" % i, g=v["g"], t=v["tr"], s=v["s"])])]
                stories.append(osc.simple_story(ev, [v["who"]], name="st%d" % i))
            never = [dict(name="never", prio="parallel", max=1, start=[[dict(k="time", name="cn", value=1e9, rule="greaterThan")]], actions=[dict(k="user", name="ua")])]
            stories.append(osc.simple_story(never, [], name="last"))
            protected = {v["who"] for v in case["vis"]}
            x = osc.scenario(dict(entities=ents, init=init, stories=stories))
        except (KeyError, TypeError):
            raise Discard("invalid")
        S = sim.Sim(se, env, x, osc.straight_road(), elems=True)
        if S.rc != 0:
            raise Violation("init", "the scenario was rejected")
        ids = {n: S.id(n) for n in case["objs"]}
        vis = {i: True for i in ids.values()}
        order = list(ids.values())
        sensors, hits, misses, added = [], 0, 0, 0
        S.take()
        for k, st in enumerate(case["steps"]):
            where = "step %d: " % (k + 1)
            try:
                for n, p in st["rep"].items():
                    if n in ids:
                        se.SE_ReportObjectPosXYH(ids[n], p["x"], p["y"], p["h"])
                for o in st["ops"]:
                    if o["k"] == "sensor":
                        host = order[o["o"] % len(order)]
                        if o["n"] < 0 or o["n"] > 50 or o["far"] <= o["near"] or o["fov"] <= 0 or o["fov"] > 6.283:
                            raise Discard("sensor")
                        r = se.SE_AddObjectSensor(host, o["x"], o["y"], o["z"], o["h"], o["near"], o["far"], o["fov"], o["n"])
                        if r != len(sensors):
                            raise Violation("sensor", where + "sensor id %d, expected %d" % (r, len(sensors)))
                        sensors.append((host, o))
                    elif o["k"] == "add":
                        added += 1
                        i = se.SE_AddObject(b"N%d" % added, o["ty"], 0, 0, -1, None)
                        if i < 0:
                            raise Violation("add", where + "object refused")
                        order.append(i)
                        vis[i] = True
                        se.SE_ReportObjectPosXYH(i, o["at"]["x"], o["at"]["y"], o["at"]["h"])
                    else:
                        i = order[o["o"] % len(order)]
                        if len(order) < 2 or any(ids.get(n) == i for n in protected):
                            continue
                        se.SE_DeleteObject(i)
                        order.remove(i)
                        ids = {n: j for n, j in ids.items() if j != i}
                if not 1e-3 <= st["dt"] <= 1:
                    raise Discard("dt")
            except (KeyError, TypeError, IndexError):
                raise Discard("op")
            if S.step(st["dt"]) != 0:
                break
            for nm, ty, state, path in S.take():
                if ty == 7 and state == 2 and nm.startswith("v"):
                    v = case["vis"][int(nm[1:])]
                    vis[ids[v["who"]]] = v["s"]
            P = {i: S.state(i) for i in order}
            for i, s in P.items():
                if bool(s.visibilityMask & 4) != vis[i]:
                    raise Violation("visible", where + "object %d has visibility mask %d, visible for sensors should be %s" % (i, s.visibilityMask, vis[i]))
            for j, (host, o) in enumerate(sensors):
                lst = (C.c_int * 64)(*([-77] * 64))
                n = se.SE_FetchSensorObjectList(j, lst)
                got = [lst[q] for q in range(max(n, 0))]
                if n < 0 or len(set(got)) != n or lst[n] != -77:
                    raise Violation("list", where + "sensor %d returns %d: %s" % (j, n, got))
                if host not in P:
                    if n:
                        raise Violation("list", where + "sensor %d, whose host is deleted, sees %s" % (j, got))
                    continue
                h = P[host]
                mx, my = h.x + o["x"] * math.cos(h.h) - o["y"] * math.sin(h.h), h.y + o["x"] * math.sin(h.h) + o["y"] * math.cos(h.h)
                yes, maybe = set(), set()
                for i, s in P.items():
                    if i == host or not vis[i]:
                        continue
                    d = math.hypot(s.x - mx, s.y - my)
                    a = abs(math.remainder(math.atan2(s.y - my, s.x - mx) - h.h - o["h"], 2 * math.pi))
                    if abs(d - o["near"]) < 1e-4 or abs(d - o["far"]) < 1e-4 or (abs(a - o["fov"] / 2) < 1e-5 + 1e-5 / (d + 1e-9)) or d < 1e-3:
                        maybe.add(i)
                    elif o["near"] < d < o["far"] and a < o["fov"] / 2:
                        yes.add(i)
                    else:
                        misses += 1
                g = set(got)
                bad = (not g <= yes | maybe) or n > o["n"] or (len(g) < min(o["n"], len(yes)))
                if bad or (len(yes | maybe) <= o["n"] and not yes <= g):
                    raise Violation("list", where + "sensor %d of object %d (at %.3f %.3f, heading %.4f, range %g-%g, opening %g, capacity %d) lists %s, but in view are %s (perhaps %s)" % (j, host, mx, my, h.h + o["h"], o["near"], o["far"], o["fov"], o["n"], got, sorted(yes), sorted(maybe)))
                hits += len(g)
        S.close()
        return dict(nontrivial=hits > 0 and misses > 0, stats=dict(hits=hits, misses=misses, sensors=len(sensors)))


CHECK = S13
