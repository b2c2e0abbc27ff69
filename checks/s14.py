"""S14: objects through the API. Objects can be added, driven, observed and removed at any time; every call answers for the objects that exist, and refuses the others."""
import math, ctypes as C
import pbt, capi, osc, sim
from pbt import Violation, Discard

NAMES = ["A", "B", "C", "D", "E", "F"]
D = C.c_double


def vec(n):
    return [C.byref(D()) for _ in range(n)]


# call -> (arguments after the id, answer for an id that does not exist)
CALLS = {
    "SE_GetObjectState": (lambda: [C.byref(capi.SE_ScenarioObjectState())], -1), "SE_GetObjectRouteStatus": (lambda: [], -1),
    "SE_GetObjectInLaneType": (lambda: [], 1), "SE_ObjectCanChangeLanes": (lambda: [], -1), "SE_GetOverrideActionStatus": (lambda: [C.byref(capi.SE_OverrideActionList())], -1),
    "SE_GetObjectTypeName": (lambda: [], None), "SE_GetObjectName": (lambda: [], None), "SE_GetObjectModelFileName": (lambda: [], None),
    "SE_GetObjectGhostId": (lambda: [], -1), "SE_GetObjectGhostState": (lambda: [C.byref(capi.SE_ScenarioObjectState())], -1),
    "SE_GetObjectNumberOfCollisions": (lambda: [], -1), "SE_GetObjectCollision": (lambda: [0], -1), "SE_GetObjectOdometer": (lambda: [], "nan"), "SE_GetObjectAcceleration": (lambda: [], "nan"),
    "SE_GetObjectVelocityGlobalXYZ": (lambda: vec(3), -1), "SE_GetObjectAngularVelocity": (lambda: vec(3), -1), "SE_GetObjectAngularAcceleration": (lambda: vec(3), -1),
    "SE_GetObjectAccelerationGlobalXYZ": (lambda: vec(3), -1), "SE_GetObjectAccelerationLocalLatLong": (lambda: vec(2), -1),
    "SE_GetObjectNumberOfWheels": (lambda: [], -1), "SE_GetObjectWheelData": (lambda: [0, C.byref(capi.SE_WheelData())], -1),
    "SE_GetObjectLightState": (lambda: [0, C.byref(capi.SE_LightState())], -1),
    "SE_GetNumberOfRoutePoints": (lambda: [], -1), "SE_GetRoutePoint": (lambda: [0, C.byref(capi.SE_RouteInfo())], -1), "SE_GetRouteTotalLength": (lambda: [], -1.0),
    "SE_GetRoadInfoAtDistance": (lambda: [5.0, C.byref(capi.SE_RoadInfo()), 0, True], -1), "SE_GetRoadInfoAlongRoute": (lambda: [5.0, C.byref(capi.SE_RoadInfo()), 0, True], -1),
    "SE_GetRoadInfoAlongGhostTrail": (lambda: [5.0, C.byref(capi.SE_RoadInfo()), C.byref(D()), C.byref(D())], -1), "SE_GetRoadInfoGhostTrailTime": (lambda: [1.0, C.byref(capi.SE_RoadInfo()), C.byref(D())], -1),
    "SE_AddObjectSensor": (lambda: [0.0, 0.0, 0.0, 0.0, 0.0, 10.0, 1.0, 3], -1), "SE_DeleteObject": (lambda: [], -1),
    "SE_ReportObjectPos": (lambda: [0.0] * 6, -1), "SE_ReportObjectPosMode": (lambda: [0.0] * 6 + [0], -1), "SE_ReportObjectPosXYH": (lambda: [0.0] * 3, -1), "SE_ReportObjectRoadPos": (lambda: [0, -1, 0.0, 5.0], -1),
    "SE_ReportObjectSpeed": (lambda: [1.0], -1), "SE_ReportObjectLateralPosition": (lambda: [1.0], -1), "SE_ReportObjectLateralLanePosition": (lambda: [-1, 0.0], -1), "SE_ReportObjectVel": (lambda: [0.0] * 3, -1),
    "SE_ReportObjectAngularVel": (lambda: [0.0] * 3, -1), "SE_ReportObjectAcc": (lambda: [0.0] * 3, -1), "SE_ReportObjectAngularAcc": (lambda: [0.0] * 3, -1), "SE_ReportObjectWheelStatus": (lambda: [0.0] * 2, -1),
    "SE_SetSnapLaneTypes": (lambda: [2], -1), "SE_SetLockOnLane": (lambda: [True], -1),
    "SE_ObjectHasGhost": (lambda: [], 0),
}
PAIRS = {"SE_GetDistanceToObject": (lambda: [False, C.byref(capi.SE_PositionDiff())], -1), "SE_SimpleGetDistanceToObject": (lambda: [4, 100.0, C.byref(D()), C.byref(D())], -1), "SE_GetTimeToCollision": (lambda: [1, 4, True, C.byref(D())], -1)}
TEXT = ["hello", "{}", "{", "}", "{0}", "%s%n", "{:d}", "a\nb", "", "{x}"]


class S14(pbt.Check):
    id = "S14"
    targets = ["esminiLib"]
    quick_cases, quick_time = 6000, 40
    thorough_cases, thorough_time = 200000, 900
    rule = ("Random histories of calls: scenario vehicles (with trailers and controllers), pedestrians and obstacles, objects added with and without bounding box, deleted (also towing vehicles and trailers), moved, observed by callbacks and sensors, "
            "with calls for ids that never existed or exist no more, out of range indices, and scenarios closed and started again. A model keeps the list of objects and their last reported poses; after every call the library must agree with the model. Non-trivial: an object was added or deleted and the simulation stepped on.")

    def prepare(self):
        self.se = capi.se()

    def gen(self, rng):
        u = lambda a, b: round(rng.uniform(a, b), 2)
        ents = []
        for n in NAMES[:rng.randint(1, 4)]:
            e = dict(n=n, ty=rng.choice([1, 1, 1, 2, 3]), lane=rng.choice([-1, -2, 1]), s=u(50, 900), v=rng.choice([0.0, u(1, 20)]), len=u(2, 8), ntr=0, props=rng.randint(0, 3), ctrl=None)
            if e["ty"] == 1:
                e["ntr"] = rng.choice([0, 0, 0, 1, 2])
                e["ctrl"] = rng.choice([None, None, None, "ExternalController", "ACCController", "FollowRouteController"])
            ents.append(e)
        ops = []
        for _ in range(rng.choice([5, 10, 20, 40])):
            k = rng.choice(["add", "add", "del", "del", "rep", "rep", "step", "step", "step", "bad", "bad", "ok", "pair", "cb", "sensor", "prop", "wheel", "log", "states"])
            o = dict(k=k, t=rng.randrange(40))
            if k == "add":
                o.update(name=rng.choice([None, "X%d" % rng.randrange(4), rng.choice(NAMES)]), ty=rng.choice([1, 1, 2, 3]), cat=rng.randrange(4), role=rng.randrange(3), bb=None if rng.random() < 0.4 else [u(-1, 1), u(-1, 1), u(0, 1), u(0.5, 3), u(0.5, 9), u(0.5, 3)])
            elif k == "rep":
                o.update(x=u(10, 950), y=u(-6, 6), h=u(-4, 7), kind=rng.choice(["xyh", "pos", "road", "speed", "lat"]), lane=rng.choice([-2, -1, 1, 2]), v=u(-5, 30))
            elif k == "step":
                o.update(dt=rng.choice([0.1, 0.05, 0.01, 0.5]))
            elif k in ("bad", "ok"):
                o.update(f=rng.choice(list(CALLS)), id=rng.choice([-1, -5, 1000, "old", "old", "old"]))
            elif k == "pair":
                o.update(f=rng.choice(list(PAIRS)), t2=rng.randrange(40), b=rng.random() < 0.6, id=rng.choice([-1, 77, "old"]))
            elif k == "log":
                o.update(i=rng.randrange(len(TEXT)))
            elif k in ("prop", "wheel"):
                o.update(i=rng.choice([-1, 0, 1, 2, 3, 4, 5, 100]))
            ops.append(o)
        for o in ops:
            if rng.random() < 0.02:
                o["reinit"] = True
        return dict(ents=ents, ops=ops, pre=[rng.choice(list(CALLS)) for _ in range(rng.randint(0, 4))], post=[rng.choice(list(CALLS)) for _ in range(rng.randint(0, 4))])

    def bad(self, f, oid, what):
        args, exp = CALLS[f]
        r = getattr(self.se, f)(oid, *args())
        if exp == "nan":
            ok = r != r
        else:
            ok = r == exp
        if not ok:
            raise Violation("refuse", "%s(%d) returns %r %s, expected %s" % (f, oid, r, what, exp))

    def scenario(self, case):
        ents, init = [], {}
        for e in case["ents"]:
            props = "".join(osc.tag("Property", dict(name="p%d" % i, value="%s_%d" % (e["n"], i))) for i in range(e["props"]))
            if e["len"] < 0.5 or e["ntr"] > 3:
                raise Discard("ent")
            bb = [round(e["len"] / 4, 3), 0.0, 0.75, e["len"], 1.8, 1.5]
            if e["ty"] == 1:
                extra = ""
                for k in range(e["ntr"]):
                    v = osc.vehicle("x", bb=[1.0, 0.0, 0.7, 4.0, 1.8, 1.4], cat="trailer", extra=osc.tag("TrailerCoupler", dict(dx=3.0)) + extra)
                    v = v[v.index("<Vehicle"):v.index("</ScenarioObject>")]
                    extra = osc.tag("TrailerHitch", dict(dx=-1.0)) + osc.tag("Trailer", None, osc.tag("Trailer", dict(name="t"), v))
                c = osc.tag("ObjectController", None, osc.tag("Controller", dict(name="c" + e["n"]), osc.tag("Properties", None, osc.tag("Property", dict(name="esminiController", value=e["ctrl"]))))) if e["ctrl"] else ""
                ents.append(osc.vehicle(e["n"], bb=bb, props=props, extra=extra, controller=c))
            elif e["ty"] in (2, 3):
                x = (osc.pedestrian if e["ty"] == 2 else osc.misc)(e["n"], bb=bb)
                ents.append(x.replace("<Properties/>", osc.tag("Properties", None, props)))
            else:
                raise Discard("type")
            init[e["n"]] = [dict(k="teleport", pos=dict(k="lane", road=1, lane=e["lane"], s=e["s"]))]
            if e["ty"] == 1:
                init[e["n"]].append(dict(k="speed", v=e["v"], dyn=dict(shape="step", dim="time", v=0.0)))
            if e["ty"] == 1 and e["ctrl"]:
                init[e["n"]].append(dict(k="raw", xml=osc.tag("ControllerAction", None, osc.tag("ActivateControllerAction", dict(longitudinal=True, lateral=True)))))
        st = [osc.simple_story([dict(name="e", prio="parallel", max=1, start=[[dict(k="time", name="never", value=1e9, rule="greaterThan")]], actions=[dict(k="user", name="ua")])], [])]
        return osc.scenario(dict(entities=ents, init=init, stories=st))

    def start(self, case, env, first):
        se = self.se
        S = sim.Sim(se, env, self.xosc, osc.straight_road())
        if S.rc != 0:
            raise Violation("init", "the scenario was rejected")
        self.objs = []            # [id, name, type, props, box or None, head of combination]
        self.gone = set() if first else self.gone
        self.t, self.cbs, self.sensors, self.pose = 0.0, [], [], {}
        n = se.SE_GetNumberOfObjects()
        exp = []
        for e in case["ents"]:
            nm = e["n"]
            exp.append((nm, e["ty"], [("p%d" % i, "%s_%d" % (e["n"], i)) for i in range(e["props"])], (1.8, e["len"], 1.5), e["n"], e))
            for k in range(e["ntr"]):
                nm += "+"
                exp.append((nm, 1, [], (1.8, 4.0, 1.4), e["n"], None))
        if n != len(exp):
            raise Violation("objects", "%d objects, expected %s" % (n, [x[0] for x in exp]))
        byname = {}
        for i in range(n):
            byname[se.SE_GetObjectName(se.SE_GetId(i)).decode()] = se.SE_GetId(i)
        order = [se.SE_GetId(i) for i in range(n)]
        for nm, ty, pr, bx, head, e in exp:
            if nm not in byname:
                raise Violation("objects", "object %s does not exist, only %s" % (nm, sorted(byname)))
            self.objs.append(dict(id=byname[nm], n=nm, ty=ty, props=pr, box=bx, head=head, api=False))
            if e is not None and (e["ty"] != 1 or e["v"] == 0 or True):
                self.pose[byname[nm]] = dict(x=e["s"], y={-1: -1.75, -2: -5.25, 1: 1.75, 2: 5.25}[e["lane"]], v=e["v"] if e["ty"] == 1 else 0.0, free=e["ty"] == 1 and e["ctrl"] in ("ACCController", "FollowRouteController"), hold=e["ctrl"] == "ExternalController", vfree=e["ctrl"] == "ExternalController", h=0.0 if e["lane"] < 0 else math.pi)
        self.objs.sort(key=lambda o: order.index(o["id"]))
        return S

    def check(self, where):
        se = self.se
        n = se.SE_GetNumberOfObjects()
        got = [se.SE_GetId(i) for i in range(n)]
        exp = [o["id"] for o in self.objs]
        if got != exp:
            raise Violation("objects", "%s: object ids %s, expected %s" % (where, got, exp))
        if se.SE_GetId(n) != -1 or se.SE_GetId(-1) != -1:
            raise Violation("objects", "%s: an index out of range has an id" % where)
        if abs(se.SE_GetSimulationTime() - self.t) > 1e-9:
            raise Violation("time", "%s: time %r, expected %r" % (where, se.SE_GetSimulationTime(), self.t))
        seen = set()
        for o in self.objs:
            nm = se.SE_GetObjectName(o["id"])
            if nm is None or nm.decode() != o["n"]:
                raise Violation("name", "%s: the name of object %d is %s, expected %s" % (where, o["id"], nm, o["n"]))
            s = self.S.state(o["id"])
            if s.id != o["id"] or s.objectType != o["ty"]:
                raise Violation("state", "%s: state of object %d says id %d type %d, expected type %d" % (where, o["id"], s.id, s.objectType, o["ty"]))
            if "cat" in o and s.objectCategory != o["cat"]:
                raise Violation("state", "%s: object %d has category %d, expected %d" % (where, o["id"], s.objectCategory, o["cat"]))
            if o["box"] is not None and max(abs(a - b) for a, b in zip((s.width, s.length, s.height), o["box"])) > 1e-6:
                raise Violation("state", "%s: object %d measures %s, expected %s" % (where, o["id"], (s.width, s.length, s.height), o["box"]))
            if o.get("ctr") and max(abs(a - b) for a, b in zip((s.centerOffsetX, s.centerOffsetY, s.centerOffsetZ), o["ctr"])) > 1e-6:
                raise Violation("state", "%s: object %d has centre %s, expected %s" % (where, o["id"], (s.centerOffsetX, s.centerOffsetY, s.centerOffsetZ), o["ctr"]))
            if o["n"] not in seen:
                seen.add(o["n"])
                if se.SE_GetIdByName(o["n"].encode()) != o["id"]:
                    raise Violation("name", "%s: the id of %s is %d, expected %d" % (where, o["n"], se.SE_GetIdByName(o["n"].encode()), o["id"]))
            p = self.pose.get(o["id"])
            if p and not p.get("free"):
                if abs(s.x - p["x"]) > 1e-3 or abs(s.y - p["y"]) > 1e-3 or abs(math.remainder(s.h - p["h"], 2 * math.pi)) > 1e-3:
                    raise Violation("pose", "%s: object %d (%s) is at (%.4f, %.4f, %.4f), expected (%.4f, %.4f, %.4f)" % (where, o["id"], o["n"], s.x, s.y, s.h, p["x"], p["y"], p["h"]))
                if abs(s.speed - p["v"]) > 1e-6 and not p.get("vfree"):
                    raise Violation("speed", "%s: object %d (%s) has speed %.4f, expected %.4f" % (where, o["id"], o["n"], s.speed, p["v"]))
            nc = se.SE_GetObjectNumberOfCollisions(o["id"])
            for j in range(nc):
                c = se.SE_GetObjectCollision(o["id"], j)
                if c not in exp or c == o["id"]:
                    raise Violation("collision", "%s: object %d collides with object %d, which does not exist" % (where, o["id"], c))
        if se.SE_GetNumberOfObjectSensors() != len(self.sensors):
            raise Violation("sensor", "%s: %d sensors, expected %d" % (where, se.SE_GetNumberOfObjectSensors(), len(self.sensors)))
        for i, h in enumerate(self.sensors):
            lst = (C.c_int * 60)(*([-77] * 60))
            k = se.SE_FetchSensorObjectList(i, lst)
            if k < 0 or k > 50 or (h not in exp and k):
                raise Violation("sensor", "%s: sensor %d of object %d sees %d objects" % (where, i, h, k))
            for j in range(k):
                if lst[j] not in exp or lst[j] == h:
                    raise Violation("sensor", "%s: sensor %d on object %d sees object %d, which %s" % (where, i, h, lst[j], "is its host" if lst[j] == h else "does not exist"))
        if se.SE_FetchSensorObjectList(len(self.sensors), (C.c_int * 60)()) != -1 or se.SE_FetchSensorObjectList(-1, (C.c_int * 60)()) != -1:
            raise Violation("sensor", "%s: a sensor which does not exist delivers a list" % where)

    def run(self, case, env):
        se = self.se
        try:
            self.xosc = self.scenario(case)
            for f in case["pre"]:
                self.bad(f, 0, "without a scenario")
        except (KeyError, TypeError):
            raise Discard("invalid")
        se.SE_CollisionDetection(True)
        S = self.S = self.start(case, env, True)
        self.check("at start")
        changed, stepped, cnt = 0, 0, {}
        keep = []
        for i, o in enumerate(case["ops"]):
            where = "op %d %s" % (i, o.get("k"))
            try:
                k = o["k"]
                if o.get("reinit"):
                    S.close()
                    if se.SE_GetNumberOfObjects() > 0 or se.SE_GetId(0) != -1:
                        raise Violation("close", "there are objects after the scenario has been closed")
                    S = self.S = self.start(case, env, False)
                    self.gone = set()
                    self.check("restarted")
                ids = [x["id"] for x in self.objs]
                tgt = self.objs[o["t"] % len(self.objs)] if self.objs else None
                if k == "add":
                    nm = o["name"]
                    if o["bb"] is None:
                        oid = se.SE_AddObject(None if nm is None else nm.encode(), o["ty"], o["cat"], o["role"], -1, None)
                    else:
                        if min(o["bb"][3:]) <= 0:
                            raise Discard("bb")
                        oid = se.SE_AddObjectWithBoundingBox(None if nm is None else nm.encode(), o["ty"], o["cat"], o["role"], -1, None, capi.SE_OSCBoundingBox(*o["bb"]), 0)
                    if oid < 0 or oid in ids or oid in self.gone:
                        raise Violation("add", "%s: the new object gets id %d (present %s, deleted %s)" % (where, oid, ids, sorted(self.gone)))
                    got = se.SE_GetObjectName(oid).decode()
                    if nm is not None and got != nm:
                        raise Violation("add", "%s: new object %s is named %s" % (where, nm, got))
                    self.objs.append(dict(id=oid, n=got, ty=o["ty"], cat=o["cat"], props=[], box=tuple(o["bb"][3:]) if o["bb"] else None, ctr=tuple(o["bb"][:3]) if o["bb"] else None, head=None, api=True))
                    changed += 1
                elif k == "del":
                    if tgt is None or (len(self.objs) == 1):
                        continue
                    if se.SE_DeleteObject(tgt["id"]) != 0:
                        raise Violation("delete", "%s: object %d can not be deleted" % (where, tgt["id"]))
                    dead = [tgt["id"]]
                    if tgt["head"]:          # its trailers follow
                        dead = [x["id"] for x in self.objs if x["head"] == tgt["head"] and len(x["n"]) >= len(tgt["n"])]
                    self.objs = [x for x in self.objs if x["id"] not in dead]
                    self.gone |= set(dead)
                    for d in dead:
                        self.pose.pop(d, None)
                    changed += 1
                elif k == "rep":
                    if tgt is None or (tgt["head"] and len(tgt["n"]) > 1):
                        continue
                    oid, p = tgt["id"], self.pose.get(tgt["id"])
                    if o["kind"] in ("xyh", "pos", "road"):
                        if o["kind"] == "xyh":
                            rc, h = se.SE_ReportObjectPosXYH(oid, o["x"], o["y"], o["h"]), o["h"]
                        elif o["kind"] == "pos":
                            rc, h = se.SE_ReportObjectPos(oid, o["x"], o["y"], 0.0, o["h"], 0.0, 0.0), o["h"]
                        else:
                            s = S.state(oid)
                            hrel = s.h
                            rc = se.SE_ReportObjectRoadPos(oid, se.SE_GetRoadIdFromString(b"1"), o["lane"], 0.0, o["x"])
                            h = S.state(oid).h
                        y = {-1: -1.75, -2: -5.25, 1: 1.75, 2: 5.25}[o["lane"]] if o["kind"] == "road" else o["y"]
                        if p is not None and (p.get("free") or not tgt["api"]):
                            self.pose[oid] = dict(x=o["x"], y=y, h=h, v=0.0, vfree=True, free=False, once=True, still=p)
                        else:
                            self.pose[oid] = dict(x=o["x"], y=y, h=h, v=p["v"] if p and not p.get("once") else 0.0, vfree=not (p and not p.get("vfree")), hold=True, once=not tgt["api"] or tgt["ty"] == 3)
                    elif o["kind"] == "speed":
                        rc = se.SE_ReportObjectSpeed(oid, o["v"])
                        if p is not None:
                            p.update(v=o["v"], vfree=True)
                            if not tgt["api"] or tgt["ty"] == 3:
                                p["free"] = True
                    else:
                        rc = se.SE_ReportObjectLateralPosition(oid, o["y"])
                        if p is not None:
                            p["free"] = True
                    if rc != 0:
                        raise Violation("report", "%s: the report for object %d is refused" % (where, oid))
                elif k == "step":
                    if not 1e-3 <= o["dt"] <= 1.0:
                        raise Discard("dt")
                    for c in self.cbs:
                        c[2].clear()
                    if S.step(o["dt"]) != 0:
                        raise Violation("step", "%s: the simulation stops" % where)
                    self.t += o["dt"]
                    stepped += changed > 0
                    for oid, p in list(self.pose.items()):
                        if p.get("once"):            # an own motion takes over
                            if "seen" in p:
                                p["free"] = True
                            p["seen"] = True
                        elif not p.get("free") and not p.get("hold"):
                            p["x"] += p["v"] * o["dt"] * math.cos(p["h"])
                            if not 2 < p["x"] < 998:
                                p["free"] = True
                    live = {x["id"] for x in self.objs}
                    for oid, data, calls in self.cbs:
                        exp = [(oid, data)] if oid in live else []
                        if calls != exp:
                            raise Violation("callback", "%s: a callback for object %d with data %s was called with %s" % (where, oid, data, calls))
                elif k == "cb":
                    if tgt is None:
                        continue
                    calls, data = [], 1000 + len(self.cbs)

                    def f(st, d, calls=calls):
                        calls.append((st.contents.id, d))
                    cb = sim.OBJ_CB(f)
                    keep.append(cb)
                    self.cbs.append((tgt["id"], data, calls))
                    se.SE_RegisterObjectCallback(tgt["id"], cb, C.c_void_p(data))
                elif k == "sensor":
                    if tgt is None:
                        continue
                    r = se.SE_AddObjectSensor(tgt["id"], 1.0, 0.0, 0.5, 0.3, 0.5, 200.0, 3.0, 50)
                    if r != len(self.sensors):
                        raise Violation("sensor", "%s: the new sensor gets id %d, expected %d" % (where, r, len(self.sensors)))
                    self.sensors.append(tgt["id"])
                elif k == "bad":
                    self.oneid(o, where)
                elif k == "ok":
                    f = o["f"]
                    if tgt is None or f in ("SE_DeleteObject", "SE_AddObjectSensor") or "Report" in f or "Set" in f:
                        continue
                    cnt[f] = cnt.get(f, 0) + 1
                    r = getattr(se, f)(tgt["id"], *CALLS[f][0]())
                    if CALLS[f][1] == -1 and r == -1 and f not in ("SE_GetObjectGhostId", "SE_GetObjectGhostState", "SE_GetObjectCollision", "SE_GetObjectNumberOfWheels", "SE_GetObjectWheelData", "SE_GetRoutePoint", "SE_GetRoadInfoAlongGhostTrail",
                                                                   "SE_GetRoadInfoGhostTrailTime", "SE_GetRoadInfoAtDistance", "SE_GetRoadInfoAlongRoute", "SE_ObjectCanChangeLanes"):
                        raise Violation("refuse", "%s: %s refuses object %d" % (where, f, tgt["id"]))
                elif k == "pair":
                    args, exp = PAIRS[o["f"]]
                    bad = min(self.gone) if o["id"] == "old" and self.gone else (o["id"] if isinstance(o["id"], int) and o["id"] not in ids else 5000)
                    if tgt is None:
                        continue
                    if o["b"]:
                        pr = (tgt["id"], bad) if o["t2"] % 2 else (bad, tgt["id"])
                        r = getattr(se, o["f"])(*pr, *args())
                        if r != exp:
                            raise Violation("refuse", "%s: %s%s returns %d" % (where, o["f"], pr, r))
                    else:
                        b = self.objs[o["t2"] % len(self.objs)]
                        getattr(se, o["f"])(tgt["id"], b["id"], *args())
                elif k == "prop":
                    ix = o["t"] % (len(self.objs) + 1)
                    n = se.SE_GetNumberOfProperties(ix)
                    pr = self.objs[ix]["props"] if ix < len(self.objs) else None
                    if n != (-1 if pr is None else len(pr)):
                        raise Violation("property", "%s: object with index %d has %d properties, expected %s" % (where, ix, n, pr))
                    nm, v = se.SE_GetObjectPropertyName(ix, o["i"]), se.SE_GetObjectPropertyValue(ix, b"p%d" % o["i"])
                    exp = pr[o["i"]] if pr is not None and 0 <= o["i"] < len(pr) else ("", "")
                    if (nm.decode(), v.decode()) != exp:
                        raise Violation("property", "%s: property %d of index %d is %s = %s, expected %s" % (where, o["i"], ix, nm, v, exp))
                elif k == "wheel":
                    if tgt is None:
                        continue
                    n = se.SE_GetObjectNumberOfWheels(tgt["id"])
                    w = capi.SE_WheelData(x=-99.0, wheel_radius=-99.0)
                    rc = se.SE_GetObjectWheelData(tgt["id"], o["i"], C.byref(w))
                    if tgt["ty"] != 1 and (n != -1 or rc != -1):
                        raise Violation("wheel", "%s: object %d is not a vehicle but has %d wheels" % (where, tgt["id"], n))
                    if tgt["ty"] == 1:
                        if rc != (0 if 0 <= o["i"] < n else -1):
                            raise Violation("wheel", "%s: wheel %d of %d of object %d: return code %d" % (where, o["i"], n, tgt["id"], rc))
                        if not tgt["api"] and "+" not in tgt["n"] and n != 4:
                            raise Violation("wheel", "%s: object %d has %d wheels, expected 4" % (where, tgt["id"], n))
                        if rc == 0 and not tgt["api"] and "+" not in tgt["n"]:
                            ex = (3.0 if o["i"] < 2 else 0.0, 0.84 * (-1 if o["i"] % 2 == 0 else 1), 0.4)
                            if abs(w.x - ex[0]) > 1e-6 or abs(abs(w.y) - abs(ex[1])) > 1e-6 or w.axle != o["i"] // 2 or (self.t > 0 and abs(w.wheel_radius - ex[2]) > 1e-6):
                                raise Violation("wheel", "%s: wheel %d of object %d: %s" % (where, o["i"], tgt["id"], w.dict()))
                elif k == "log":
                    se.SE_LogMessage(TEXT[o["i"]].encode())
                elif k == "states":
                    n = C.c_int(0)
                    arr = (capi.SE_ScenarioObjectState * (len(self.objs) + 1))()
                    f = se.SE_GetObjectStates
                    f.argtypes = None
                    if f(C.byref(n), arr) != 0 or n.value != len(self.objs) or [arr[j].id for j in range(n.value)] != ids:
                        raise Violation("states", "%s: states of %d objects, ids %s" % (where, n.value, [arr[j].id for j in range(min(n.value, len(self.objs)))]))
            except (KeyError, TypeError, IndexError):
                raise Discard("op")
            self.check("after " + where)
        gone = sorted(self.gone)
        S.close()
        for f in case["post"]:
            self.bad(f, gone[0] if gone else 0, "after the end")
        return dict(nontrivial=changed > 0 and stepped > 0, stats=dict(changes=changed, ops=len(case["ops"])), classes=["%s" % o["k"] for o in case["ops"]])

    def oneid(self, o, where):
        ids = {x["id"] for x in self.objs}
        oid = o["id"]
        if oid == "old":
            oid = sorted(self.gone)[o["t"] % len(self.gone)] if self.gone else 999
        if oid in ids:
            return
        self.bad(o["f"], oid, where)


CHECK = S14
