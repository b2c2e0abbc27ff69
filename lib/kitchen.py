"""Scenarios that use a bit of everything: a linked road network, several objects, controllers, and events with all kinds of actions."""
import math
import net, odr, osc
from pbt import Discard

CTRLS = ["ACCController", "NaturalDriver", "SloppyDriverController", "ALKS_R157SM_Controller", "ECE_ALKS_RefDriverController", "FollowRouteController", "LoomingController", "ExternalController"]
KINDS = ["speed", "speed", "relspeed", "profile", "lanechange", "lanechange", "laneoffset", "teleport", "longdist", "latdist", "traj", "route", "acquire", "visibility", "light", "setvar", "addvar", "delent", "addent", "activate", "sync", "param"]
MODELS = ["RSS", "Regulation", "ReferenceDriver", "FSM"]


def gen_place(rng):
    return dict(b=rng.randrange(3), tr=rng.randrange(6), f=round(rng.uniform(0.03, 0.9), 3), off=round(rng.choice([0.0, rng.uniform(-0.6, 0.6)]), 2))


def gen_dyn(rng, shapes=("linear", "sinusoidal", "cubic", "step")):
    dim = rng.choice(["time", "time", "rate", "distance"])
    return dict(shape=rng.choice(list(shapes)), dim=dim, v=dict(time=round(rng.uniform(0.3, 3), 2), rate=round(rng.uniform(0.5, 6), 2), distance=round(rng.uniform(5, 40), 1))[dim])


def gen_act(rng, names, kinds):
    k = rng.choice(kinds)
    a = dict(k=k)
    if k == "speed":
        a.update(v=round(rng.uniform(0, 30), 1), dyn=gen_dyn(rng))
    elif k == "relspeed":
        a.update(v=round(rng.uniform(-5, 5), 1), ref=rng.choice(names), cont=rng.random() < 0.3, dyn=gen_dyn(rng))
    elif k == "profile":
        t, e = 0.0, []
        for _ in range(rng.randint(1, 4)):
            t = round(rng.uniform(0.3, 2), 2)
            e.append(dict(v=round(rng.uniform(0, 25), 1), t=t))
        a.update(entries=e, mode=rng.choice(["follow", "position"]))
    elif k == "lanechange":
        a.update(lane=rng.choice([-3, -2, -1, 1, 2, 3]), ref=rng.choice([None, rng.choice(names)]), off=round(rng.choice([0.0, rng.uniform(-0.5, 0.5)]), 2), dyn=gen_dyn(rng))
    elif k == "laneoffset":
        a.update(off=round(rng.uniform(-1, 1), 2), shape=rng.choice(["linear", "sinusoidal", "cubic"]), acc=round(rng.uniform(0.3, 3), 2))
    elif k == "teleport":
        a.update(to=gen_place(rng))
    elif k in ("longdist", "latdist"):
        a.update(ref=rng.choice(names), d=round(rng.uniform(1, 30), 1), cont=rng.random() < 0.5, free=rng.random() < 0.5)
    elif k == "traj":
        a.update(pts=[gen_place(rng) for _ in range(rng.randint(2, 5))], timed=rng.random() < 0.5, mode=rng.choice(["position", "follow"]), shape=rng.choice(["Polyline", "Polyline", "Clothoid", "Nurbs"]))
    elif k == "route":
        a.update(pts=[gen_place(rng) for _ in range(rng.randint(2, 3))], strat=rng.choice(["shortest", "fastest", "leastIntersections"]))
    elif k == "acquire":
        a.update(to=gen_place(rng))
    elif k == "visibility":
        a.update(m=rng.randrange(8))
    elif k == "light":
        a.update(t=rng.choice(["brakeLights", "indicatorLeft", "highBeam", "warningLights"]), m=rng.choice(["on", "off", "flashing"]))
    elif k in ("setvar", "addvar", "param"):
        a.update(v=rng.randint(-5, 5))
    elif k in ("delent", "addent"):
        a.update(ref=rng.choice(names), to=gen_place(rng))
    elif k == "activate":
        a.update(lo=rng.random() < 0.6, la=rng.random() < 0.5)
    elif k == "sync":
        a.update(ref=rng.choice(names), p1=gen_place(rng), p2=gen_place(rng), v=round(rng.uniform(1, 20), 1))
    return a


def gen(rng, kinds=KINDS, ctrls=CTRLS, ctrl=0.4, steps=(20, 80), maxobj=4, events=(2, 8), dts=((0.1,), (0.05,), (0.02, 0.1), (0.1, 0.3, 0.01)), **kw):
    spec = net.gen_linked(rng, minlen=40.0, maxlen=150.0, **kw)
    names = ["Ego", "Tgt", "Ped", "Box", "Van"][:rng.randint(2, maxobj)]
    ents = []
    for n in names:
        ty = rng.choice(["vehicle", "vehicle", "vehicle", "pedestrian", "misc"]) if n in ("Ped", "Box") else "vehicle"
        l = round(rng.uniform(0.5, 8), 1)
        ents.append(dict(n=n, ty=ty, bb=[round(rng.uniform(0, 0.3) * l, 2), 0.0, 0.7, l, round(rng.uniform(0.5, 2.5), 1), 1.5], at=gen_place(rng), v=round(rng.choice([0.0, rng.uniform(0, 25)]), 1), trailer=rng.random() < 0.15,
                         ctrl=rng.choice(ctrls) if ctrls and rng.random() < ctrl else None, on=[rng.random() < 0.8, rng.random() < 0.4], mode=rng.choice(["override", "additive"]), model=rng.choice(MODELS)))
    evs = []
    for i in range(rng.randint(*events)):
        r = rng.random()
        if r < 0.6 or not i:
            tr = dict(k="time", v=round(rng.uniform(0, 5), 2))
        elif r < 0.75:
            tr = dict(k="after", e=rng.randrange(i))
        elif r < 0.9:
            tr = dict(k="near", a=rng.choice(names), b=rng.choice(names), v=round(rng.uniform(2, 60), 1))
        else:
            tr = dict(k="speed", a=rng.choice(names), v=round(rng.uniform(1, 20), 1))
        evs.append(dict(who=rng.choice(names), tr=tr, prio=rng.choice(["parallel", "override", "skip"]), max=rng.choice([1, 1, 2]), act=gen_act(rng, names, kinds)))
    d = rng.choice(list(dts))
    return dict(spec=spec, ents=ents, evs=evs, steps=[rng.choice(d) for _ in range(rng.randint(*steps))])


class Built:
    pass


def build(case, extra_entities=(), extra_events=()):
    try:
        return _build(case, extra_entities, extra_events)
    except (KeyError, TypeError, ZeroDivisionError, IndexError, ValueError, AttributeError):
        raise Discard("invalid")


def _build(case, extra_entities, extra_events):
    B = Built()
    M = B.M = net.Linked(case["spec"])
    if not M.valid() or any(d < 1e-3 for d in case["steps"]):
        raise Discard("invalid")

    def place(p):
        path = M.paths[p["b"] % len(M.paths)]
        u = min(max(p["f"], 0.01), 0.99) * M.path_len(path)
        rs, v = M.locate(path, u)
        L = M.lens[str(rs["id"])]
        sec = [s for s in rs["secs"] if s["f"] * L <= v][-1]
        trk = sec["R"] + sec["L"]
        a = M.at(path, trk[p["tr"] % len(trk)], u, p.get("off") or 0.0)
        return dict(k="lane", road=a["road"], lane=a["lane"], s=a["s"], off=a["off"])
    B.place = place
    names = [e["n"] for e in case["ents"]]
    if len(set(names)) != len(names) or not names:
        raise Discard("names")
    ents, init = [], {}
    for e in case["ents"]:
        n = e["n"]
        ctrl = ""
        acts = [dict(k="teleport", pos=place(e["at"]))]
        if e["ty"] == "vehicle":
            acts.append(dict(k="speed", v=e["v"], dyn=dict(shape="step")))
            if e.get("ctrl"):
                pr = dict(mode=e["mode"], setSpeed=15.0, desiredSpeed=15.0, desiredDistance=20.0, lookAheadDistance=40.0, timeGap=1.2, model=e["model"], sloppiness=0.5, time=2.0, route="")
                ctrl = osc.tag("ObjectController", None, osc.tag("Controller", dict(name=e["ctrl"]), osc.tag("Properties", None, *[osc.tag("Property", dict(name=k, value=v)) for k, v in pr.items() if v != ""])))
                acts.append(dict(k="raw", xml=osc.tag("ActivateControllerAction", dict(longitudinal=bool(e["on"][0]), lateral=bool(e["on"][1])))))
            extra = ""
            if e.get("trailer"):
                v = osc.vehicle("x", bb=[2.0, 0.0, 0.7, 4.0, 1.8, 1.5], cat="trailer", extra=osc.tag("TrailerCoupler", dict(dx=3.0)))
                extra = osc.tag("TrailerHitch", dict(dx=-1.0)) + osc.tag("Trailer", None, osc.tag("Trailer", dict(name="t_" + n), v[v.index("<Vehicle"):v.index("</ScenarioObject>")]))
            ents.append(osc.vehicle(n, bb=e["bb"], controller=ctrl, extra=extra))
        else:
            ents.append((osc.pedestrian if e["ty"] == "pedestrian" else osc.misc)(n, bb=e["bb"]))
        init[n] = acts
    ents += list(extra_entities)
    pos = lambda p: osc.position(place(p))
    by = {n: [] for n in names}
    for i, ev in enumerate(case["evs"]):
        if ev["who"] not in by:
            raise Discard("who")
        t, a = ev["tr"], ev["act"]
        if t["k"] == "time":
            c = dict(k="time", value=t["v"], rule="greaterThan")
        elif t["k"] == "after":
            c = dict(k="state", type="event", ref="ev%d" % t["e"], state="completeState")
            if not 0 <= t["e"] < i:
                raise Discard("after")
        elif t["k"] == "near":
            c = dict(k="entity", who=[t["a"]], xml=osc.tag("RelativeDistanceCondition", dict(entityRef=t["b"], freespace=True, value=t["v"], rule="lessThan", coordinateSystem="entity", relativeDistanceType="euclidianDistance")))
            if t["a"] not in by or t["b"] not in by:
                raise Discard("near")
        else:
            c = dict(k="entity", who=[t["a"]], xml=osc.tag("SpeedCondition", dict(value=t["v"], rule="greaterThan")))
            if t["a"] not in by:
                raise Discard("speed")
        c.update(name="cond%d" % i, delay=0, edge="none" if t["k"] == "time" else "rising")
        k = a["k"]
        if a.get("ref") and a["ref"] not in by:
            raise Discard("ref")
        if k == "speed":
            x = dict(k="speed", v=a["v"], dyn=a["dyn"])
        elif k == "relspeed":
            x = dict(k="speed", v=a["v"], ref=a["ref"], cont=a["cont"], dyn=a["dyn"])
        elif k == "profile":
            x = dict(k="profile", entries=a["entries"], mode=a["mode"])
        elif k == "lanechange":
            x = dict(k="lanechange", lane=a["lane"], ref=a["ref"], off=a["off"], dyn=a["dyn"])
        elif k == "laneoffset":
            x = dict(k="laneoffset", off=a["off"], shape=a["shape"], maxacc=a["acc"])
        elif k == "teleport":
            x = dict(k="teleport", pos=place(a["to"]))
        elif k == "longdist":
            x = dict(k="raw", xml=osc.tag("LongitudinalAction", None, osc.tag("LongitudinalDistanceAction", dict(entityRef=a["ref"], distance=a["d"], continuous=a["cont"], freespace=a["free"]), osc.tag("DynamicConstraints", dict(maxAcceleration=5, maxDeceleration=5, maxSpeed=40)))))
        elif k == "latdist":
            x = dict(k="raw", xml=osc.tag("LateralAction", None, osc.tag("LateralDistanceAction", dict(entityRef=a["ref"], distance=a["d"] / 10, continuous=a["cont"], freespace=a["free"]), osc.tag("DynamicConstraints", dict(maxAcceleration=5, maxDeceleration=5, maxSpeed=40)))))
        elif k == "traj":
            pts = [place(p) for p in a["pts"]]
            if a["shape"] == "Polyline":
                sh = osc.tag("Polyline", None, *[osc.tag("Vertex", dict(time=2.0 * j if a["timed"] else None), osc.position(p)) for j, p in enumerate(pts)])
            elif a["shape"] == "Clothoid":
                sh = osc.tag("Clothoid", dict(curvature=0.001, curvatureDot=0.0002, length=60.0, startTime=0.0 if a["timed"] else None, stopTime=6.0 if a["timed"] else None), osc.position(pts[0]))
            else:
                n = len(pts)
                order = min(3, n)
                kn = [0.0] * order + [float(j) for j in range(1, n - order + 1)] + [float(n - order + 1)] * order
                sh = osc.tag("Nurbs", dict(order=order), *([osc.tag("ControlPoint", dict(time=2.0 * j if a["timed"] else None, weight=1.0), osc.position(p)) for j, p in enumerate(pts)] + [osc.tag("Knot", dict(value=v)) for v in kn]))
            x = dict(k="raw", xml=osc.tag("RoutingAction", None, osc.tag("FollowTrajectoryAction", None, osc.tag("TrajectoryRef", None, osc.tag("Trajectory", dict(name="tr%d" % i, closed=False), osc.tag("Shape", None, sh))),
                     osc.tag("TimeReference", None, osc.tag("Timing", dict(domainAbsoluteRelative="relative", scale=1.0, offset=0.0)) if a["timed"] else osc.tag("None")), osc.tag("TrajectoryFollowingMode", dict(followingMode=a["mode"])))))
        elif k == "route":
            x = dict(k="raw", xml=osc.tag("RoutingAction", None, osc.tag("AssignRouteAction", None, osc.tag("Route", dict(name="r%d" % i, closed=False), *[osc.tag("Waypoint", dict(routeStrategy=a["strat"]), pos(p)) for p in a["pts"]]))))
        elif k == "acquire":
            x = dict(k="raw", xml=osc.tag("RoutingAction", None, osc.tag("AcquirePositionAction", None, pos(a["to"]))))
        elif k == "visibility":
            x = dict(k="visibility", g=bool(a["m"] & 1), t=bool(a["m"] & 2), s=bool(a["m"] & 4))
        elif k == "light":
            x = dict(k="raw", xml=osc.tag("AppearanceAction", None, osc.tag("LightStateAction", None, osc.tag("LightType", None, osc.tag("VehicleLight", dict(vehicleLightType=a["t"]))), osc.tag("LightState", dict(mode=a["m"])))))
        elif k == "setvar":
            x = dict(k="setvar", ref="v1", value=a["v"])
        elif k == "addvar":
            x = dict(k="addvar", ref="v1", value=a["v"])
        elif k == "param":
            x = dict(k="setparam", ref="p1", value=a["v"])
        elif k in ("delent", "addent"):
            x = dict(k="rawglobal", xml=osc.tag("GlobalAction", None, osc.tag("EntityAction", dict(entityRef=a["ref"]), osc.tag("DeleteEntityAction") if k == "delent" else osc.tag("AddEntityAction", None, pos(a["to"])))))
        elif k == "activate":
            x = dict(k="raw", xml=osc.tag("ControllerAction", None, osc.tag("ActivateControllerAction", dict(longitudinal=bool(a["lo"]), lateral=bool(a["la"])))))
        elif k == "sync":
            x = dict(k="raw", xml=osc.tag("SynchronizeAction", dict(masterEntityRef=a["ref"]), osc.tag("TargetPositionMaster", None, osc.position(place(a["p1"]))[len("<Position>"):-len("</Position>")]), osc.tag("TargetPosition", None, osc.position(place(a["p2"]))[len("<Position>"):-len("</Position>")]), osc.tag("FinalSpeed", None, osc.tag("AbsoluteSpeed", dict(value=a["v"])))))
        else:
            raise Discard("kind")
        x["name"] = "act%d" % i
        by[ev["who"]].append(dict(name="ev%d" % i, prio=ev["prio"], max=ev["max"], start=[[c]], actions=[x]))
    stories = []
    for n in names:
        stories.append(osc.simple_story(by[n] + [dict(name="keep_" + n, prio="parallel", max=1, start=[[dict(k="time", name="never_" + n, value=1e9, rule="greaterThan")]], actions=[dict(k="user", name="ua_" + n)])], [n], name="story_" + n))
    stories += list(extra_events)
    B.xodr = M.xml()
    B.xosc = osc.scenario(dict(params=[["p1", "integer", 3]], vars=[["v1", "integer", 1]], entities=ents, init=init, stories=stories))
    B.names = names
    return B
