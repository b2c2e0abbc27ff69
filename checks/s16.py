"""S16: actions are independent. An action shared by several actors or executed repeatedly acts like separate, fresh actions."""
import ctypes as C
import math
import pbt, capi, osc, net, sim, kitchen
from pbt import Violation, Discard

KINDS = ["speed", "relspeed", "profile", "profile", "lanechange", "laneoffset", "longdist", "longdist", "latdist", "latdist", "traj", "traj", "route", "acquire", "sync", "sync", "teleport", "light", "visibility", "override", "assign"]
FIELDS = ["x", "y", "z", "h", "p", "r", "roadId", "laneId", "laneOffset", "s", "t", "speed", "wheelAngle", "visibilityMask"]


class S16(pbt.Check):
    id = "S16"
    targets = ["esminiLib"]
    quick_cases, quick_time = 2200, 38
    thorough_cases, thorough_time = 100000, 900
    case_timeout = 40
    rule = ("Random scenarios on linked roads with two actors of different size, limits and speed and a reference object; 1-3 actions (speed, relative speed, speed profile, lane change, lane offset, longitudinal and lateral distance, trajectory, route, position, synchronization, teleport, lights, "
            "visibility, override, controller; absolute and relative, all options) in events with both actors, executed 1-4 times, interrupted by speed, lane and teleport actions. The same scenario is run with one separate event and group per actor and execution, triggered in the same "
            "steps. All object states, lights, overrides, routes and the number of actions started and ended must be the same in every step. Non-trivial: two actions ran, and an action had two actors or ran twice.")

    def prepare(self):
        self.se = capi.se()

    # ------------------------------------------------------------ generation
    def gen_pos(self, rng):
        k = rng.choice(["place", "place", "rellane", "relroad", "relworld", "relobj"])
        if k == "place":
            return dict(k=k, **kitchen.gen_place(rng))
        return dict(k=k, a=round(rng.uniform(-20, 40), 1), b=round(rng.uniform(-4, 4), 1), n=rng.choice([-1, 0, 0, 1]), h=rng.choice([None, 0.0, 0.5, 3.0]))

    def gen_act(self, rng):
        k = rng.choice(KINDS)
        a = dict(k=k)
        dyn = lambda: dict(kitchen.gen_dyn(rng), mode=rng.choice([None, None, "follow", "position"]))
        lim = lambda: rng.choice([None, dict(maxAcceleration=round(rng.uniform(0.5, 6), 1), maxDeceleration=round(rng.uniform(0.5, 6), 1), maxSpeed=round(rng.uniform(5, 40), 1)), dict(maxAcceleration=round(rng.uniform(0.5, 4), 1)), dict(maxSpeed=round(rng.uniform(5, 30), 1))])
        if k == "speed":
            a.update(v=round(rng.uniform(0, 30), 1), dyn=dyn())
        elif k == "relspeed":
            a.update(v=round(rng.uniform(0.3, 2), 2), cont=rng.random() < 0.4, dyn=dyn(), vt=rng.choice(["delta", "factor"]))
        elif k == "profile":
            l = lim()
            if l and rng.random() < 0.7:
                l.update(maxAccelerationRate=round(rng.uniform(0.5, 8), 1), maxDecelerationRate=round(rng.uniform(0.5, 8), 1))
            tm = rng.random() < 0.8
            a.update(entries=[dict(v=round(rng.uniform(0, 25), 1), t=rng.choice([0.0, round(rng.uniform(0.2, 2), 2)]) if i == 0 and tm else round(rng.uniform(0.3, 2), 2) if tm else None) for i in range(rng.choice([1, 2, 2, 3, 4]))], mode=rng.choice(["follow", "position"]), lim=l, ref=rng.random() < 0.25)
        elif k == "lanechange":
            a.update(lane=rng.choice([-2, -1, 1, 2]), ref=rng.random() < 0.5, off=round(rng.choice([0.0, rng.uniform(-0.5, 0.5)]), 2), dyn=dyn())
        elif k == "laneoffset":
            a.update(off=round(rng.uniform(-1, 1), 2), ref=rng.random() < 0.4, cont=rng.random() < 0.3, shape=rng.choice(["linear", "sinusoidal", "cubic", "step"]), acc=rng.choice([None, round(rng.uniform(0.3, 3), 2)]))
        elif k == "longdist":
            a.update(d=round(rng.uniform(1, 30), 1), gap=rng.random() < 0.3, cont=rng.random() < 0.5, free=rng.random() < 0.5, disp=rng.choice([None, "any", "any", "trailingReferencedEntity", "leadingReferencedEntity"]), cs=rng.choice([None, "entity", "lane", "road"]), lim=lim())
        elif k == "latdist":
            a.update(d=round(rng.uniform(0, 3), 1), cont=rng.random() < 0.5, free=rng.random() < 0.6, disp=rng.choice([None, "any", "leftToReferencedEntity", "rightToReferencedEntity"]), cs=rng.choice([None, "entity", "lane", "road"]), lim=lim())
        elif k == "traj":
            a.update(pts=[self.gen_pos(rng) for _ in range(rng.randint(2, 4))], timed=rng.choice([None, "relative", "absolute"]), mode=rng.choice(["position", "follow"]), shape=rng.choice(["Polyline", "Polyline", "Clothoid", "Nurbs", "Spline"]), scale=rng.choice([1.0, 1.0, 0.5]), off=rng.choice([0.0, 0.0, 1.0]),
                     d0=rng.choice([None, None, 3.0]))
            if a["shape"] == "Nurbs":
                a["timed"] = None
        elif k == "route":
            a.update(pts=[kitchen.gen_place(rng) for _ in range(rng.randint(2, 3))], strat=rng.choice(["shortest", "fastest", "leastIntersections"]))
        elif k in ("acquire", "teleport"):
            a.update(to=self.gen_pos(rng))
        elif k == "sync":
            a.update(p1=kitchen.gen_place(rng), p2=kitchen.gen_place(rng), v=round(rng.uniform(1, 20), 1), fin=rng.choice([None, "abs", "rel", "rel"]), vt=rng.choice(["delta", "factor"]), steady=rng.choice([None, None, "dist", "time"]), sv=round(rng.uniform(1, 15), 1), tol=rng.choice([None, 2.0]))
        elif k == "light":
            a.update(t=rng.choice(["brakeLights", "indicatorLeft", "highBeam", "warningLights"]), m=rng.choice(["on", "off", "flashing"]), on=rng.choice([None, 0.3]), off=rng.choice([None, 0.2]), trans=rng.choice([None, 0.4]))
        elif k == "visibility":
            a.update(m=rng.randrange(8))
        elif k == "override":
            a.update(w=rng.choice(["Throttle", "Brake", "Clutch", "SteeringWheel"]), v=round(rng.uniform(0, 1), 2), on=rng.random() < 0.7, rate=rng.choice([None, 0.3]))
        elif k == "assign":
            a.update(c=rng.choice(["ACCController", "ALKS_R157SM_Controller", "NaturalDriver"]), model=rng.choice(kitchen.MODELS), v=round(rng.uniform(3, 25), 1), lo=rng.random() < 0.8, la=rng.random() < 0.3)
        return a

    def gen(self, rng):
        spec = net.gen_linked(rng, minlen=150.0, maxlen=400.0, junction=0.3, ntrunk=(1, 3))
        acts = [self.gen_act(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        bb = lambda: [round(rng.uniform(0, 1.5), 2), 0.0, 0.7, round(rng.uniform(2, 9), 1), round(rng.uniform(1, 2.6), 1), 1.5]
        obj = lambda: dict(bb=bb(), v=round(rng.uniform(1, 25), 1), at=kitchen.gen_place(rng), lim=[round(rng.uniform(15, 60), 1), round(rng.uniform(1, 10), 1), round(rng.uniform(1, 10), 1)])
        steps, idle = [], 0
        for _ in range(rng.randint(25, 70)):
            s = dict(dt=rng.choice([0.1, 0.1, 0.05, 0.2]))
            r = rng.random()
            if idle > 0:
                idle -= 1
            elif r < 0.25:
                s["go"] = rng.randrange(len(acts))
                idle = rng.randint(0, 8)
            elif r < 0.33:
                s["n"] = rng.randrange(6)
            steps.append(s)
        return dict(spec=spec, A=obj(), B=obj(), R=obj(), near=rng.random() < 0.5, acts=acts, two=[rng.random() < 0.7 for _ in acts], steps=steps, noise=[round(rng.uniform(0, 25), 1), round(rng.uniform(0, 25), 1), kitchen.gen_place(rng), rng.choice([-2, -1, 1, 2]), kitchen.gen_place(rng), round(rng.uniform(-3, 3), 1)])

    # ------------------------------------------------------------ scenario
    def act_xml(self, a, i, place):
        t, k = osc.tag, a["k"]

        def pos(p):
            if p["k"] == "place":
                return osc.position(place(p))
            o = None if p.get("h") is None else dict(type="relative", h=p["h"])
            return osc.position(dict(rellane=dict(k="rellane", ref="Ref", dlane=p["n"], ds=p["a"], off=0.0, o=o), relroad=dict(k="relroad", ref="Ref", ds=p["a"], dt=p["b"], o=o), relworld=dict(k="relworld", ref="Ref", dx=p["a"], dy=p["b"], o=o), relobj=dict(k="relobj", ref="Ref", dx=p["a"], dy=p["b"], o=o))[p["k"]])
        strip = lambda x: x[len("<Position>"):-len("</Position>")]
        lim = lambda a: t("DynamicConstraints", a["lim"]) if a.get("lim") else ""
        if k == "speed":
            return dict(k="speed", v=a["v"], dyn=a["dyn"])
        if k == "relspeed":
            return dict(k="speed", v=a["v"], ref="Ref", vt=a["vt"], cont=a["cont"], dyn=a["dyn"])
        if k == "profile":
            return dict(k="profile", entries=a["entries"], mode=a["mode"], lim=a["lim"], ref="Ref" if a["ref"] else None)
        if k == "lanechange":
            return dict(k="lanechange", lane=a["lane"], ref="Ref" if a["ref"] else None, off=a["off"], dyn=a["dyn"])
        if k == "laneoffset":
            return dict(k="laneoffset", off=a["off"], ref="Ref" if a["ref"] else None, cont=a["cont"], shape=a["shape"], maxacc=a["acc"])
        if k == "longdist":
            return dict(k="raw", xml=t("LongitudinalAction", None, t("LongitudinalDistanceAction", dict(entityRef="Ref", distance=None if a["gap"] else a["d"], timeGap=a["d"] / 10 if a["gap"] else None, continuous=a["cont"], freespace=a["free"], displacement=a["disp"], coordinateSystem=a["cs"]), lim(a))))
        if k == "latdist":
            return dict(k="raw", xml=t("LateralAction", None, t("LateralDistanceAction", dict(entityRef="Ref", distance=a["d"], continuous=a["cont"], freespace=a["free"], displacement=a["disp"], coordinateSystem=a["cs"]), lim(a))))
        if k == "traj":
            pts, tm = a["pts"], a["timed"]
            if a["shape"] == "Polyline":
                sh = t("Polyline", None, *[t("Vertex", dict(time=2.0 * j if tm else None), pos(p)) for j, p in enumerate(pts)])
            elif a["shape"] == "Clothoid":
                sh = t("Clothoid", dict(curvature=0.001, curvaturePrime=0.0002, length=60.0, startTime=0.0 if tm else None, stopTime=6.0 if tm else None), pos(pts[0]))
            elif a["shape"] == "Spline":
                sh = t("ClothoidSpline", dict(timeEnd=6.0 if tm else None), *[t("Segment", dict(curvatureStart=0.0, curvatureEnd=0.01 * j, length=20.0, hOffset=0.0, timeStart=2.0 * j if tm else None), pos(pts[0]).replace("Position>", "PositionStart>", 1).replace("</Position>", "</PositionStart>") if j == 0 and len(pts) > 2 else "") for j in range(3)])
            else:
                n = len(pts)
                o = min(3, n)
                kn = [0.0] * o + [float(j) for j in range(1, n - o + 1)] + [float(n - o + 1)] * o
                sh = t("Nurbs", dict(order=o), *([t("ControlPoint", dict(time=2.0 * j if tm else None, weight=1.0), pos(p)) for j, p in enumerate(pts)] + [t("Knot", dict(value=v)) for v in kn]))
            return dict(k="raw", xml=t("RoutingAction", None, t("FollowTrajectoryAction", dict(initialDistanceOffset=a["d0"]), t("TrajectoryRef", None, t("Trajectory", dict(name="tr%d" % i, closed=False), t("Shape", None, sh))),
                        t("TimeReference", None, t("Timing", dict(domainAbsoluteRelative=tm, scale=a["scale"], offset=a["off"])) if tm else t("None")), t("TrajectoryFollowingMode", dict(followingMode=a["mode"])))))
        if k == "route":
            return dict(k="raw", xml=t("RoutingAction", None, t("AssignRouteAction", None, t("Route", dict(name="r%d" % i, closed=False), *[t("Waypoint", dict(routeStrategy=a["strat"]), osc.position(place(p))) for p in a["pts"]]))))
        if k == "acquire":
            return dict(k="raw", xml=t("RoutingAction", None, t("AcquirePositionAction", None, pos(a["to"]))))
        if k == "teleport":
            return dict(k="raw", xml=t("TeleportAction", None, pos(a["to"])))
        if k == "sync":
            st = "" if not a["steady"] else t("TargetDistanceSteadyState", dict(distance=a["sv"])) if a["steady"] == "dist" else t("TargetTimeSteadyState", dict(time=a["sv"] / 5))
            f = "" if not a["fin"] else t("FinalSpeed", None, t("AbsoluteSpeed", dict(value=a["v"]), st) if a["fin"] == "abs" else t("RelativeSpeedToMaster", dict(value=a["v"] / 10, speedTargetValueType=a["vt"]), st))
            return dict(k="raw", xml=t("SynchronizeAction", dict(masterEntityRef="Ref", targetTolerance=a["tol"], targetToleranceMaster=a["tol"]), t("TargetPositionMaster", None, strip(osc.position(place(a["p1"])))), t("TargetPosition", None, strip(osc.position(place(a["p2"])))), f))
        if k == "light":
            return dict(k="raw", xml=t("AppearanceAction", None, t("LightStateAction", dict(transitionTime=a["trans"]), t("LightType", None, t("VehicleLight", dict(vehicleLightType=a["t"]))), t("LightState", dict(mode=a["m"], flashingOnDuration=a["on"], flashingOffDuration=a["off"])))))
        if k == "visibility":
            return dict(k="visibility", g=bool(a["m"] & 1), t=bool(a["m"] & 2), s=bool(a["m"] & 4))
        if k == "override":
            return dict(k="raw", xml=t("ControllerAction", None, t("OverrideControllerValueAction", None, t(a["w"], dict(value=a["v"], active=bool(a["on"]), maxRate=a["rate"])))))
        if k == "assign":
            pr = dict(mode="override", setSpeed=a["v"], desiredSpeed=a["v"], desiredDistance=20.0, timeGap=1.2, model=a["model"])
            return dict(k="raw", xml=t("ControllerAction", None, t("AssignControllerAction", dict(activateLongitudinal=bool(a["lo"]), activateLateral=bool(a["la"])), t("Controller", dict(name=a["c"]), t("Properties", None, *[t("Property", dict(name=n, value=v)) for n, v in pr.items()])))))
        raise Discard("kind")

    def scenario(self, case, M, place, starts):
        """starts None: one event per action with all actors; else number of executions of each action, with own events and groups"""
        act, nz = [lambda i=i, a=a: dict(self.act_xml(a, i, place), name="act%d" % i) for i, a in enumerate(case["acts"])], case["noise"]
        groups = []
        never = lambda n: dict(name="keep" + n, prio="parallel", max=1, start=[[dict(k="time", name="never" + n, value=1e9, rule="greaterThan")]], actions=[dict(k="user", name="ua" + n)])

        def grp(n, actors, events):
            groups.append(dict(name="g" + n, max=1, actors=actors, mans=[dict(name="m" + n, events=events + [never(n)])]))
        noise = [("A", dict(k="speed", v=nz[0], dyn=dict(shape="step"))), ("B", dict(k="speed", v=nz[1], dyn=dict(shape="linear", dim="time", v=1.0))), ("Ref", dict(k="teleport", pos=place(nz[2]))), ("A", dict(k="lanechange", lane=nz[3], dyn=dict(shape="sinusoidal", dim="time", v=1.5))), ("B", dict(k="teleport", pos=place(nz[4]))),
                 ("Ref", dict(k="speed", v=abs(nz[5]), dyn=dict(shape="linear", dim="time", v=1.0)))]
        for j, (who, x) in enumerate(noise):
            grp("n%d" % j, [who], [dict(name="n%d" % j, prio="parallel", max=1000, start=[[dict(k="var", name="cn%d" % j, ref="noise", value=j, rule="equalTo")]], actions=[dict(x, name="nact%d" % j)])])
        for i in range(len(case["acts"])):
            who = ["A", "B"] if case["two"][i] else ["A"]
            if starts is None:
                grp("e%d" % i, who, [dict(name="e%d" % i, prio="parallel", max=1000, start=[[dict(k="var", name="c%d" % i, ref="go%d" % i, value=0, rule="greaterThan")]], actions=[act[i]()])])
            else:
                for w in who:
                    for n in range(starts[i]):
                        s = "e%d%s%d" % (i, w, n)
                        grp(s, [w], [dict(name=s, prio="parallel", max=1, start=[[dict(k="var", name="c" + s, ref="go%d" % i, value=n + 1, rule="equalTo")]], actions=[act[i]()])])
        ents = [osc.vehicle(n, bb=o["bb"], maxspeed=o["lim"][0], maxacc=o["lim"][1], maxdec=o["lim"][2]) for n, o in (("A", case["A"]), ("B", case["B"]), ("Ref", case["R"]))]
        init = {}
        for n, o in (("A", case["A"]), ("B", case["B"]), ("Ref", case["R"])):
            p = dict(o["at"])
            if case["near"] and n != "Ref":
                r = case["R"]["at"]
                p = dict(r, f=min(0.95, max(0.02, r["f"] + (p["f"] - 0.5) * 0.3)), off=p["off"])
            init[n] = [dict(k="teleport", pos=place(p)), dict(k="speed", v=o["v"], dyn=dict(shape="step"))]
        st = [dict(name="story", acts=[dict(name="act", start=[[dict(k="time", name="actstart", value=0.0, rule="greaterOrEqual")]], groups=groups)])]
        return osc.scenario(dict(vars=[["noise", "integer", -1]] + [["go%d" % i, "integer", 0] for i in range(len(case["acts"]))], entities=ents, init=init, stories=st))

    # ------------------------------------------------------------ run
    def simulate(self, case, env, xosc, xodr, trig, tag):
        """trig: per step {action: value}"""
        se = self.se
        S = sim.Sim(se, env, xosc, xodr, elems=True, name=tag, seed=7)
        if S.rc != 0:
            return None
        ids = [S.id(n) for n in ("A", "B", "Ref")]
        out, S.changes = [], []
        for k, s in enumerate(case["steps"]):
            se.SE_SetVariableInt(b"noise", s["n"] if s.get("n") is not None else -1)
            for i in range(len(case["acts"])):
                se.SE_SetVariableInt(b"go%d" % i, trig[k].get(i, 0))
            S.step(s["dt"])
            ch = S.take()
            rec = dict(ev=[c[0] for c in ch if c[1] == 6 and c[2] == 2 and c[0][0] == "e"], act={}, st=[])
            for c in ch:
                if c[1] == 7 and c[0].startswith("act") and c[2] in (2, 3):
                    q = c[0] + (" started" if c[2] == 2 else " ended")
                    rec["act"][q] = rec["act"].get(q, 0) + 1
            for o in ids:
                st = capi.SE_ScenarioObjectState()
                if se.SE_GetObjectState(o, C.byref(st)) != 0:
                    raise Violation("state", "state not available")
                d = st.dict()
                r = [float(d[f]) if f in d else 0.0 for f in FIELDS]
                for l in range(10):
                    ls = capi.SE_LightState()
                    r.append(float(ls.light_mode) if se.SE_GetObjectLightState(o, l, C.byref(ls)) == 0 else -9.0)
                    r.append(float(ls.emitting))
                ov = capi.SE_OverrideActionList()
                if se.SE_GetOverrideActionStatus(o, C.byref(ov)) == 0:
                    for f in ("throttle", "brake", "clutch", "parkingBrake", "steeringWheel"):
                        q = getattr(ov, f, None)
                        if q is not None:
                            r += [float(q.active), float(q.value)]
                r.append(float(se.SE_GetNumberOfRoutePoints(o)))
                rec["st"].append(r)
            out.append(rec)
            if se.SE_GetQuitFlag() != 0:
                break
        S.close()
        return out

    def run(self, case, env):
        try:
            if any(not 1e-3 < s["dt"] <= 0.5 for s in case["steps"]) or not case["acts"] or len(case["two"]) != len(case["acts"]):
                raise Discard("dt")
            for s in case["steps"]:
                if s.get("go") is not None and not 0 <= s["go"] < len(case["acts"]) or s.get("n") is not None and not 0 <= s["n"] < 6:
                    raise Discard("go")
            M = net.Linked(case["spec"])
            if not M.valid():
                raise Discard("net")
            B = kitchen.Built()

            def place(p):
                path = M.paths[p["b"] % len(M.paths)]
                u = min(max(p["f"], 0.01), 0.99) * M.path_len(path)
                rs, v = M.locate(path, u)
                L = M.lens[str(rs["id"])]
                sec = [q for q in rs["secs"] if q["f"] * L <= v][-1]
                trk = sec["R"] + sec["L"]
                a = M.at(path, trk[p["tr"] % len(trk)], u, p.get("off") or 0.0)
                return dict(k="lane", road=a["road"], lane=a["lane"], s=a["s"], off=a["off"])
            x1 = self.scenario(case, M, place, None)
            xodr = M.xml()
        except (KeyError, TypeError, IndexError, ValueError, AttributeError, ZeroDivisionError):
            raise Discard("invalid")
        a = self.simulate(case, env, x1, xodr, [{s["go"]: 1} if s.get("go") is not None else {} for s in case["steps"]], "shared")
        if a is None:
            raise Discard("rejected")
        cnt, trig = [0] * len(case["acts"]), []
        for r in a:
            t = {}
            for e in r["ev"]:
                i = int(e[1:])
                cnt[i] += 1
                t[i] = cnt[i]
            trig.append(t)
        trig += [{}] * (len(case["steps"]) - len(trig))
        if sum(cnt) > 12:
            raise Discard("many")
        b = self.simulate(case, env, self.scenario(case, M, place, cnt), xodr, trig, "separate")
        if b is None:
            raise Violation("init", "the scenario with separate actions was rejected")
        done = [0] * len(cnt)
        for k, (p, q) in enumerate(zip(a, b)):
            for i in trig[k]:
                done[i] += 1
            self.what = ", ".join("%s%s%s" % (x["k"], " for two" if t else "", " #%d" % n) for x, n, t in zip(case["acts"], done, case["two"]) if n)
            if p["act"] != q["act"]:
                raise Violation("actions", "(%s) step %d: %s with shared actions, %s with separate actions" % (self.what, k, p["act"], q["act"]))
            for n, u, v in zip("ABR", p["st"], q["st"]):
                for j, (g, h) in enumerate(zip(u, v)):
                    if g != h and not (abs(g - h) <= 1e-6 * max(1.0, abs(g)) or math.isnan(g) and math.isnan(h)):
                        raise Violation("state", "(%s) step %d: object %s: %s is %r with shared actions, %r with separate actions" % (self.what, k, n, FIELDS[j] if j < len(FIELDS) else "light/override/route value %d" % (j - len(FIELDS)), g, h))
        if len(a) != len(b):
            raise Violation("quit", "%d steps with shared actions, %d with separate actions" % (len(a), len(b)))
        return dict(nontrivial=sum(cnt) >= 2 and any(c > 1 or c and t for c, t in zip(cnt, case["two"])), checks=len(a), classes=sorted({x["k"] for x, c in zip(case["acts"], cnt) if c} | {x["k"] + "/repeated" for x, c in zip(case["acts"], cnt) if c > 1}),
                    stats=dict(executions=sum(cnt), steps=len(a)))


CHECK = S16
