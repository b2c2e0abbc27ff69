"""S06: motion states. Velocities, accelerations, rates, odometer and road coordinates agree with the positions over the steps; reported values are taken over."""
import math
import ctypes as C
import pbt, capi, kitchen, odr, osc, sim, r02
from pbt import Violation, Discard

REPS = ["xyh", "pos", "mode", "lane", "lane", "t", "lateral", "speed", "vel", "acc", "avel", "aacc", "wheel"]
FULL = ("xyh", "pos", "mode", "lane")


class S06(pbt.Check):
    id = "S06"
    targets = ["esminiLib"]
    quick_cases, quick_time = 2500, 40
    thorough_cases, thorough_time = 100000, 900
    rule = ("Random scenarios with everything (linked roads and junctions, vehicles, pedestrians, obstacles, trailers, controllers, 20 kinds of actions, teleports, entities deleted and added) and random step sequences including empty steps; one object may be driven from outside: random reports of position (world, lane, lateral), "
            "speed, velocity, acceleration, angular rates and wheels, made before the step or in the object callback. After every step and for each object the reported quantities must satisfy the defining relations to the previous step. Non-trivial: some object moved and an action or a report took place.")

    def prepare(self):
        self.se = capi.se()

    def gen(self, rng):
        c = kitchen.gen(rng, steps=(8, 50), junction=0.4, ntrunk=(1, 3), ctrl=0.25)
        if rng.random() < 0.3:
            c["steps"] = [0.0 if rng.random() < 0.1 else d for d in c["steps"]]
        names = [e["n"] for e in c["ents"]]
        c["rep"] = None
        if rng.random() < 0.6:
            r = c["rep"] = rng.choice(names)
            for e in c["ents"]:
                if e["n"] == r:
                    e.update(trailer=False, ctrl=rng.choice([None, None, "ExternalController"]), on=[True, True], mode="override")
            oth = [x for x in names if x != r]
            for e in c["evs"]:
                if e["who"] == r:
                    e["who"] = rng.choice(oth)
                if e["act"]["k"] in ("delent", "addent") and e["act"]["ref"] == r:
                    e["act"]["ref"] = rng.choice(oth)
            reps = []
            for _ in c["steps"]:
                o = []
                if rng.random() < 0.7:
                    for k in rng.sample(REPS, rng.choice([1, 1, 2, 3, 5])):
                        if k in FULL and any(x["k"] in FULL + ("t", "lateral") for x in o):
                            continue
                        u = lambda m: odr.r3(rng.uniform(-m, m), 3)
                        x = dict(k=k, cb=rng.random() < 0.25)
                        if k in FULL + ("t", "lateral"):
                            x.update(at=kitchen.gen_place(rng), near=rng.random() < 0.6, dx=u(2), dy=u(2), z=u(1), h=u(7), p=u(0.4), r=u(0.4), mode=rng.choice([0, 0x1111, 0x3333, 0x7777, 0x0030, 0x0131]), t=u(8), lane=rng.randrange(6), off=u(1.2))
                            if k == "pos" and rng.random() < 0.3:
                                x["nan"] = "".join(q for q in "zpr" if rng.random() < 0.5)
                        elif k == "wheel":
                            x.update(v=[u(6), u(1)])
                        elif k == "speed":
                            x.update(v=[rng.choice([0.0, u(30), u(30)])])
                        else:
                            x.update(v=[u(30), u(30), u(5)])
                        o.append(x)
                reps.append(o)
            c["reps"] = reps
        return c

    # one report; returns what must be read back
    def report(self, S, oid, x, B, se):
        s = S.state(oid)
        k = x["k"]
        exp = {}
        try:
            if k in ("xyh", "pos", "mode"):
                if x["near"]:
                    px, py = s.x + x["dx"], s.y + x["dy"]
                else:
                    a = B.place(x["at"])
                    road = [r for r in B.M.N.roads if r.id == str(a["road"])][0]
                    w = road.pose(a["s"], road.center_t(a["s"], a["lane"])[0] + a["off"])
                    px, py = w["x"], w["y"]
                exp = dict(x=px, y=py)
                if k == "xyh":
                    rc = se.SE_ReportObjectPosXYH(oid, px, py, x["h"])
                    exp["h"] = x["h"]
                elif k == "pos":
                    v = {q: x[q] for q in "zpr"}
                    exp.update(v, h=x["h"])
                    for q in x.get("nan") or "":            # not a number: keep the present value
                        v[q], exp[q] = math.nan, getattr(s, q)
                    rc = se.SE_ReportObjectPos(oid, px, py, v["z"], x["h"], v["p"], v["r"])
                else:
                    rc = se.SE_ReportObjectPosMode(oid, px, py, x["z"], x["h"], x["p"], x["r"], x["mode"])
            elif k == "lane":
                a = B.place(x["at"])
                rid = se.SE_GetRoadIdFromString(str(a["road"]).encode())
                rc = se.SE_ReportObjectRoadPos(oid, rid, a["lane"], a["off"], a["s"])
                exp = dict(roadId=rid, laneId=a["lane"], laneOffset=a["off"], s=a["s"])
            elif k == "t":
                rc = se.SE_ReportObjectLateralPosition(oid, x["t"])
                exp = dict(roadId=s.roadId, s=s.s, t=x["t"])
            elif k == "lateral":
                road = self.road(S, B, s, se)
                if road is None:
                    return {}
                ids = [i for i in road.lane_ids(s.s) if i]
                if not ids or self.near(road, s.s):
                    return {}
                lane = ids[x["lane"] % len(ids)]
                rc = se.SE_ReportObjectLateralLanePosition(oid, lane, x["off"])
                exp = dict(roadId=s.roadId, s=s.s, laneId=lane, laneOffset=x["off"])
            else:
                v = x["v"]
                if k == "speed":
                    rc = se.SE_ReportObjectSpeed(oid, v[0])
                    exp = dict(speed=v[0])
                elif k == "wheel":
                    rc = se.SE_ReportObjectWheelStatus(oid, v[0], v[1])
                    exp = dict(wheel_rot=v[0], wheel_angle=v[1])
                else:
                    rc = getattr(se, dict(vel="SE_ReportObjectVel", acc="SE_ReportObjectAcc", avel="SE_ReportObjectAngularVel", aacc="SE_ReportObjectAngularAcc")[k])(oid, *v)
                    exp = {k: v}
        except (KeyError, IndexError, TypeError):
            raise Discard("report")
        if rc != 0:
            raise Violation("rc", "report %s refused" % k)
        self.readback(S, oid, exp, "reported (%s)" % k)
        return exp

    def road(self, S, B, s, se):
        rid = se.SE_GetRoadIdString(s.roadId & 0xffffffff).decode()
        for r in B.M.N.roads:
            if r.id == rid:
                return r
        return None

    def near(self, road, s):
        return s < 0.01 or s > road.length - 0.01 or any(abs(s - b) < 0.01 for b in road.breaks())

    def vec(self, fn, oid, n=3):
        v = [C.c_double() for _ in range(n)]
        if fn(oid, *[C.byref(x) for x in v]) != 0:
            raise Violation("rc", "a motion state of object %d is not available" % oid)
        return [x.value for x in v]

    def motion(self, S, oid):
        se = self.se
        s = S.state(oid)
        d = dict(s.dict())
        d["vel"] = self.vec(se.SE_GetObjectVelocityGlobalXYZ, oid)
        d["acc"] = self.vec(se.SE_GetObjectAccelerationGlobalXYZ, oid)
        d["avel"] = self.vec(se.SE_GetObjectAngularVelocity, oid)
        d["aacc"] = self.vec(se.SE_GetObjectAngularAcceleration, oid)
        d["all"] = self.vec(se.SE_GetObjectAccelerationLocalLatLong, oid, 2)
        d["a"] = se.SE_GetObjectAcceleration(oid)
        d["odo"] = se.SE_GetObjectOdometer(oid)
        for k in ("vel", "acc", "avel", "aacc", "all"):
            if not all(math.isfinite(v) for v in d[k]):
                raise Violation("nan", "%s of object %d is %s" % (k, oid, d[k]))
        if not math.isfinite(d["a"]) or not math.isfinite(d["odo"]):
            raise Violation("nan", "acceleration %s, odometer %s" % (d["a"], d["odo"]))
        return d

    def readback(self, S, oid, exp, what, d=None):
        d = d or self.motion(S, oid)
        for k, v in exp.items():
            g = d[k]
            if isinstance(v, list):
                bad = any(abs(a - b) > 1e-9 for a, b in zip(g, v))
            elif k in ("h", "p", "r"):
                bad = abs(odr.adiff(g, v)) > 1e-6
            elif isinstance(v, int):
                bad = g != v
            else:
                bad = abs(g - v) > 1e-5
            if bad:
                raise Violation("readback", "%s %s = %s, read back %s" % (what, k, v, g))

    def run(self, case, env):
        try:
            B = kitchen.build(dict(case, steps=[max(d, 0.01) for d in case["steps"]]))
            flat = not any(r.elev or r.sup for r in B.M.N.roads)
            reps, rep = case.get("reps") or [], case.get("rep")
            if rep is not None and (rep not in B.names or any(e["who"] == rep or (e["act"]["k"] in ("delent", "addent") and e["act"]["ref"] == rep) for e in case["evs"])):
                raise Discard("rep")
            tele = {}
            for i, e in enumerate(case["evs"]):
                if e["act"]["k"] == "teleport":
                    tele["act%d" % i] = e["who"]
            trailers = any(e.get("trailer") for e in case["ents"])
        except (KeyError, TypeError, AttributeError):
            raise Discard("invalid")
        se = self.se
        S = sim.Sim(se, env, B.xosc, B.xodr, elems=True, seed=7)
        if S.rc != 0:
            S.close()
            raise Discard("rejected")
        rid = S.id(rep) if rep is not None else -1
        pend = []                     # reports to make in the callback

        def cb(_s, _d):
            for x in pend:
                try:
                    self.merge(exps, self.report(S, rid, x, B, se))
                except (Violation, Discard) as e:
                    errs.append(e)
        exps, errs = {}, []
        self._cb = sim.OBJ_CB(cb)
        if rep is not None:
            se.SE_RegisterObjectCallback(rid, self._cb, None)
        names = {}

        def ids():
            out = []
            for i in range(se.SE_GetNumberOfObjects()):
                o = se.SE_GetId(i)
                out.append(o)
                names[o] = se.SE_GetObjectName(o).decode()
            if len(set(out)) != len(out):
                raise Violation("ids", "object ids %s" % out)
            return out
        prev = {o: self.motion(S, o) for o in ids()}
        t, moved, nrep, ran, n = 0.0, 0.0, 0, 0, 0
        if abs(se.SE_GetSimulationTime()) > 1e-9:
            raise Violation("time", "time %g at start" % se.SE_GetSimulationTime())
        for m in prev.values():
            if m["odo"] != 0.0:
                raise Violation("odometer", "odometer %g at start" % m["odo"])
        for i, dt in enumerate(case["steps"]):
            exps.clear()
            pend.clear()
            S.take()
            for x in (reps[i] if rep is not None and i < len(reps) else []):
                nrep += 1
                if x.get("cb"):
                    pend.append(x)
                else:
                    self.merge(exps, self.report(S, rid, x, B, se))
            full = bool(exps) and all(not x.get("cb") for x in reps[i]) and any(x["k"] in FULL for x in reps[i])
            latonly = any(x["k"] in ("t", "lateral") and not x.get("cb") for x in (reps[i] if i < len(reps) else []))
            S0 = S.state(rid) if rep is not None else None
            if S.step(dt) != 0:
                break
            if errs:
                raise errs[0]
            pend.clear()
            ch = S.take()
            ran += sum(1 for c in ch if c[1] == 7 and c[2] == 2)
            t += dt
            if abs(se.SE_GetSimulationTime() - t) > 1e-6:
                raise Violation("time", "time %.6f, expected %.6f" % (se.SE_GetSimulationTime(), t))
            jumped = {tele[c[0]] for c in ch if c[1] == 7 and c[0] in tele and c[2] == 2}
            cur = {o: self.motion(S, o) for o in ids()}
            for o, m in cur.items():
                p = prev.get(o)
                what = "step %d object %s: " % (i + 1, names[o])
                nm = names[o][2:] if names[o].startswith("t_") else names[o]
                if abs(m["timestamp"] - t) > 1e-3:
                    raise Violation("time", what + "time stamp %.4f, expected %.4f" % (m["timestamp"], t))
                got = exps if o == rid else {}
                if o == rid:
                    e = dict(got)
                    if latonly:             # moves on along the road
                        e = {k: v for k, v in e.items() if k in ("vel", "acc", "avel", "aacc", "wheel_rot", "wheel_angle", "speed")}
                    if dt > 1e-9:
                        for k in ("z", "p", "r"):
                            if not flat:
                                e.pop(k, None)
                    road = self.road(S, B, S.state(o), se)
                    q = self.road(S, B, S0, se)
                    if m["speed"] == 0 and (road is None or min(m["s"], road.length - m["s"]) < 0.5 or q is None or min(S0.s, q.length - S0.s) < 0.5):
                        e.pop("speed", None)        # objects at the end of the road stop
                        full = False
                    self.readback(S, o, e, what + "reported", m)
                # local and total acceleration
                c, sn = math.cos(m["h"]), math.sin(m["h"])
                lon, lat = m["acc"][0] * c + m["acc"][1] * sn, -m["acc"][0] * sn + m["acc"][1] * c
                tol = 1e-6 * (1 + abs(lon) + abs(lat))
                if abs(m["all"][0] - lat) > tol or abs(m["all"][1] - lon) > tol or abs(abs(m["a"]) - math.hypot(lon, lat)) > tol or (abs(lon) > 1e-3 * (1 + abs(lat)) and m["a"] * lon < 0):
                    raise Violation("local", what + "acceleration %s at heading %.4f reported as lat/long %s, magnitude %g" % (m["acc"], m["h"], m["all"], m["a"]))
                self.coords(S, B, o, m, what, se)
                n += 1
                if p is None or dt < 1e-6:
                    continue
                dp = [m[k] - p[k] for k in "xyz"]
                jump = nm in jumped
                if jump and m["odo"] > p["odo"] + 1e-3 and any(e["n"] == nm and e["ctrl"] for e in case["ents"]) and abs(m["odo"] - p["odo"] - math.hypot(dp[0], dp[1])) < 1e-6:
                    jump = False            # a teleport action has no effect on an object with an overriding controller
                if m["odo"] < p["odo"]:
                    raise Violation("odometer", what + "odometer goes from %g to %g" % (p["odo"], m["odo"]))
                if not jump:
                    moved = max(moved, math.hypot(dp[0], dp[1]))
                    if abs(m["odo"] - p["odo"] - math.hypot(dp[0], dp[1])) > 1e-6:
                        raise Violation("odometer", what + "odometer from %.6f to %.6f for a movement of %.6f" % (p["odo"], m["odo"], math.hypot(dp[0], dp[1])))
                    if "vel" not in got:
                        for k in range(3):
                            if abs(m["vel"][k] - dp[k] / dt) > 1e-6 / dt:
                                raise Violation("velocity", what + "velocity %s, moved %s in %g s" % (m["vel"], dp, dt))
                elif "vel" not in got and not names[o].startswith("t_"):
                    v, hv = math.hypot(m["vel"][0], m["vel"][1]), math.atan2(m["vel"][1], m["vel"][0]) + (math.pi if m["speed"] < 0 else 0.0)
                    # a lateral action may turn the heading later in the step
                    if v > 0.5 and abs(odr.adiff(hv, m["h"])) > 0.6:
                        raise Violation("velocity", what + "after a teleport the velocity is %s, speed %g, heading %.4f" % (m["vel"], m["speed"], m["h"]))
                if "acc" not in got:
                    for k in range(3):
                        if abs(m["acc"][k] - (m["vel"][k] - p["vel"][k]) / dt) > 1e-6 / dt:
                            raise Violation("acceleration", what + "acceleration %s, velocity from %s to %s in %g s" % (m["acc"], p["vel"], m["vel"], dt))
                if "avel" not in got and abs(abs(odr.adiff(m["h"], p["h"])) - math.pi) > 1e-6:
                    if abs(m["avel"][0] - odr.adiff(m["h"], p["h"]) / dt) > 1e-6 / dt:
                        raise Violation("rate", what + "heading rate %g, heading from %.5f to %.5f in %g s" % (m["avel"][0], p["h"], m["h"], dt))
                if "aacc" not in got and abs(m["aacc"][0] - (m["avel"][0] - p["avel"][0]) / dt) > 1e-6 / dt * (1 + 1 / dt):
                    raise Violation("angacc", what + "angular acceleration %g, heading rate from %.5f to %.5f in %g s" % (m["aacc"][0], p["avel"][0], m["avel"][0], dt))
                if m["objectType"] == 1 and not jump and m["speed"] * p["speed"] > 0 and not any(k.startswith("wheel") for k in got):
                    # the wheels roll over the distance travelled, forwards or backwards
                    lon = (dp[0] * c + dp[1] * sn) * m["speed"]
                    if abs(odr.adiff(m["wheel_rot"] - p["wheel_rot"], m["speed"] * dt / 0.35)) > 1e-4 and lon > 0.1 * abs(m["speed"]) * math.hypot(dp[0], dp[1]) > 0:
                        raise Violation("wheel", what + "wheels turn from %.4f to %.4f at speed %g in %g s" % (p["wheel_rot"], m["wheel_rot"], m["speed"], dt))
                    ang = math.copysign(math.atan2(odr.adiff(m["h"], p["h"]) / dt * 3.0, abs(m["speed"])), m["speed"] * odr.adiff(m["h"], p["h"]))
                    if abs(m["speed"]) > 0.1 and abs(m["speed"] - p["speed"]) < 1e-6 and abs(m["wheel_angle"] - ang) > 1e-4:
                        raise Violation("steer", what + "wheel angle %.5f, heading %.5f to %.5f at speed %g in %g s: %.5f" % (m["wheel_angle"], p["h"], m["h"], m["speed"], dt, ang))
                if o == rid and "speed" not in got and full:
                    v = math.hypot(m["vel"][0], m["vel"][1])
                    if abs(m["speed"] - v) > 1e-6 / dt:
                        raise Violation("speed", what + "speed %g, velocity %s" % (m["speed"], m["vel"]))
            prev = cur
        S.close()
        return dict(nontrivial=moved > 0.01 and (nrep > 0 or ran > 0), checks=n, stats=dict(reports=nrep, actions=ran), classes=sorted({"report:" + x["k"] for o in reps for x in o}) + ["act:" + e["act"]["k"] for e in case["evs"]])

    def merge(self, exps, e):
        if any(k in e for k in ("x", "laneId", "t")):
            for k in ("x", "y", "z", "h", "p", "r", "roadId", "laneId", "laneOffset", "s", "t"):
                exps.pop(k, None)
        exps.update(e)

    def coords(self, S, B, o, m, what, se):
        """road coordinates of the state agree with its world coordinates"""
        if m["roadId"] in (-1, 0xffffffff):
            return
        s = S.state(o)
        road = self.road(S, B, s, se)
        if road is None:
            raise Violation("road", what + "is on road %d" % s.roadId)
        if not -1e-6 <= s.s <= road.length + 1e-6:
            raise Violation("road", what + "is at s %.4f of road %s, of length %.4f" % (s.s, road.id, road.length))
        if self.near(road, s.s):
            return
        if s.laneId not in road.lane_ids(s.s) + [0]:
            raise Violation("road", what + "is in lane %d, which road %s does not have at s %.4f" % (s.laneId, road.id, s.s))
        c = road.center_t(s.s, s.laneId)[0] if s.laneId else road.center_t(s.s, 0)[0]
        if abs(c + s.laneOffset - s.t) > 1e-4:
            raise Violation("road", what + "lane %d offset %.5f, t %.5f, but the centre of the lane is at %.5f" % (s.laneId, s.laneOffset, s.t, c))
        w = road.pose(s.s, s.t)
        stol, ttol = r02.R02.tols(road, s.s, s.t, w, None, 0.0)       # world positions are projected on a sampled reference line
        if abs(s.t * w["k"]) < 0.9 and abs(s.t) < 20 and math.hypot(w["x"] - s.x, w["y"] - s.y) > stol + ttol:
            raise Violation("road", what + "is at (%.4f, %.4f), and on road %s s %.4f t %.4f, which is (%.4f, %.4f)" % (s.x, s.y, road.id, s.s, s.t, w["x"], w["y"]))


CHECK = S06
