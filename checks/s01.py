"""S01: storyboard life cycle. The states of all storyboard elements follow the OpenSCENARIO state machine, priorities and execution counts."""
import pbt, capi, osc, sim, story
from pbt import Violation, Discard
from s02 import rnd_value, TYPES

ROAD = osc.straight_road(600)
ETYPES = ["story", "act", "maneuverGroup", "maneuver", "event", "action"]
STATES = ["standbyState", "runningState", "completeState", "startTransition", "endTransition", "stopTransition"]


TRAJ = ('<RoutingAction><FollowTrajectoryAction><TrajectoryRef><Trajectory name="tr" closed="false"><Shape><Polyline>'
        '<Vertex time="0"><Position><WorldPosition x="100" y="-2" h="0"/></Position></Vertex><Vertex time="1000"><Position><WorldPosition x="300" y="-2" h="0"/></Position></Vertex>'
        '</Polyline></Shape></Trajectory></TrajectoryRef><TimeReference><Timing domainAbsoluteRelative="relative" scale="1" offset="0"/></TimeReference><TrajectoryFollowingMode followingMode="position"/>'
        '</FollowTrajectoryAction></RoutingAction>')


class S01(pbt.Check):
    id = "S01"
    targets = ["esminiLib"]
    quick_cases, quick_time = 9000, 40
    thorough_cases, thorough_time = 300000, 900
    rule = ("Random storyboards (1-2 stories, 1-2 acts with start/stop triggers, 1-2 groups, 1-2 maneuvers, 1-4 events of any priority and execution count with 0-3 actions: instant, "
            "timed, never ending; longitudinal, lateral, both, global; for one or two actors, beside running init actions) with triggers on time, variables and states of other elements, driven by random variable histories; each element's state changes in each step are compared with a "
            "reference state machine. Non-trivial: at least three events started and at least one event was overwritten, skipped, repeated or stopped or ended by a conflicting action.")

    def prepare(self):
        self.se = capi.se()

    def gen(self, rng):
        vs = {"v%d" % i: rng.choice(["int", "bool"]) for i in range(rng.randint(1, 3))}
        names = {t: [] for t in ETYPES}
        cnt = [0]

        def name(t):
            cnt[0] += 1
            n = "%s%d" % (t[0] + t[-1], cnt[0])
            names[t].append(n)
            return n

        stories = []
        objs = ["Ego", "Car"]
        for _ in range(rng.choice([1, 1, 2])):
            S = dict(name=name("story"), acts=[])
            for _ in range(rng.choice([1, 1, 2])):
                A = dict(name=name("act"), groups=[])
                for _ in range(rng.choice([1, 1, 2])):
                    G = dict(name=name("maneuverGroup"), max=rng.choice([1, 1, 1, 2, 3]), actors=rng.choice([["Ego"], ["Car"], ["Ego", "Car"]]), mans=[])
                    for _ in range(rng.choice([1, 1, 2])):
                        M = dict(name=name("maneuver"), events=[])
                        for _ in range(rng.choice([1, 2, 2, 3, 4])):
                            E = dict(name=name("event"), prio=rng.choice(["overwrite", "override", "skip", "parallel"]), max=rng.choice([1, 1, 2, 3, 1000]), actions=[])
                            if G["max"] > 1 and E["max"] in (2, 3):
                                E["max"] = 1
                            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                                k = rng.choice(["setvar", "speed", "speed", "lane", "lane", "traj", "teleport", "user"])
                                a = dict(k=k, name=name("action"))
                                if k == "setvar":
                                    a["ref"] = rng.choice(sorted(vs))
                                    a["value"] = rnd_value(rng, vs[a["ref"]])
                                elif k == "speed":
                                    a["T"] = round(rng.uniform(0.02, 0.6), 2)
                                    a["v"] = float(rng.randint(0, 5))
                                elif k == "lane":
                                    a["off"] = rng.choice([-1, 1]) * round(rng.uniform(0.6, 1), 2)
                                E["actions"].append(a)
                            M["events"].append(E)
                        G["mans"].append(M)
                    A["groups"].append(G)
                S["acts"].append(A)
            stories.append(S)
        cn = [0]
        # each variable tends to switch something
        def cond(p_time=0.15, p_state=0.35):
            cn[0] += 1
            c = dict(name="c%d" % cn[0], edge=rng.choice(["none", "none", "rising", "falling", "risingOrFalling"]), delay=rng.choice([0, 0, 0, 0.1, 0.25]), rule=rng.choice(osc.RULES))
            r = rng.random()
            if r < p_time:
                c.update(k="time", value=round(rng.uniform(0, 2), 2), rule=rng.choice(["greaterThan", "greaterOrEqual"]))
            elif r < p_time + p_state:
                t = rng.choice([t for t in ETYPES + ["event", "event", "action"] if names[t]])
                c.update(k="state", type=t, ref=rng.choice(names[t]), state=rng.choice(STATES))
            else:
                n = rng.choice(sorted(vs))
                c.update(k="var", ref=n, value=rnd_value(rng, vs[n]), rule=rng.choice(["equalTo", "equalTo", "notEqualTo"] + ([] if vs[n] == "bool" else ["greaterThan", "lessOrEqual"])))
            return c

        def trig(empty):
            if rng.random() < empty:
                return []
            return [[cond() for _ in range(rng.choice([1, 1, 1, 2]))] for _ in range(rng.choice([1, 1, 1, 2]))]

        for S in stories:
            for A in S["acts"]:
                A["start"] = None if rng.random() < 0.2 else ([[dict(k="time", name="t0" + A["name"], value=0.0, rule="greaterOrEqual", edge="none", delay=0)]] if rng.random() < 0.6 else trig(0.2))
                A["stop"] = trig(0.1) if rng.random() < 0.35 else None
                for G in A["groups"]:
                    for M in G["mans"]:
                        for E in M["events"]:
                            E["start"] = trig(0.1)
        stop = trig(0) if rng.random() < 0.1 else None
        dts = rng.choice([[0.1], [0.05], [0.1, 0.05, 0.2]])
        steps = [dict(dt=rng.choice(dts), set={n: rnd_value(rng, vs[n]) for n in sorted(vs) if rng.random() < 0.25}) for _ in range(rng.randint(10, 40))]
        ini = {o: [dict(k=k, T=round(rng.uniform(0.3, 3), 2), v=1.0) if k == "speed" else dict(k=k, off=0.5) for k in ("speed", "lane") if rng.random() < 0.4] for o in objs}
        return dict(ini=ini, vars=vs, init={n: rnd_value(rng, t) for n, t in vs.items()}, stories=stories, stop=stop, steps=steps)

    def run(self, case, env):
        vs, init = case["vars"], case["init"]
        try:
            for n in vs:
                init[n]
            for s in case["steps"]:
                if s["dt"] <= 0 or any(type(v) is not type(init[n]) for n, v in s["set"].items()):
                    raise Discard("step")
            values = {n: [vs[n], init[n]] for n in vs}
            B = story.Board(dict(stories=case["stories"], stop=case["stop"], init=case["ini"]), values)
            for e in B.els:
                if e.typ != "action" and e.typ != "event" and not e.children:
                    raise Discard("empty element")
                if e.max < 1 or (e.typ == "maneuverGroup" and e.max > 1 and any(1 < ev.max < 1000 for m in e.children for ev in m.children)):
                    raise Discard("max")
                for tr in (e.start_trig, e.stop_trig):
                    if tr and any(not g for g in tr.groups):
                        raise Discard("empty group")
                if e.typ == "action" and e.a["k"] in ("speed", "lane") and (e.a.get("T", 1) < 0.01 or not 0 <= e.a.get("v", 0) <= 10 or not 0.5 <= abs(e.a.get("off", 1)) <= 1):
                    raise Discard("T")
        except (KeyError, TypeError, IndexError):
            raise Discard("invalid")
        def conv(a):
            if a["k"] == "speed":
                return dict(a, dyn=dict(shape="linear", dim="time", v=a["T"]))
            if a["k"] == "lane":
                return dict(k="lanechange", name=a.get("name"), lane=-1, off=a["off"], dyn=dict(shape="linear", dim="distance", v=1e6))
            if a["k"] == "traj":
                return dict(k="raw", name=a["name"], xml=TRAJ)
            if a["k"] == "teleport":
                return dict(k="teleport", name=a["name"], pos=dict(k="lane", road="1", lane=-1, s=200.0))
            return a
        st = [dict(s, acts=[dict(a, groups=[dict(g, mans=[dict(m, events=[dict(e, start=e["start"] if e["start"] is not None else [], actions=[conv(x) for x in e["actions"]]) for e in m["events"]])
                                                          for m in g["mans"]]) for g in a["groups"]]) for a in s["acts"]]) for s in case["stories"]]
        lane = lambda s: [dict(k="teleport", pos=dict(k="lane", road="1", lane=-1, s=s))]
        x = osc.scenario(dict(vars=[[n, TYPES[t], init[n]] for n, t in sorted(vs.items())], entities=[osc.vehicle("Ego", maxacc=2000.0, maxdec=2000.0), osc.vehicle("Car", maxacc=2000.0, maxdec=2000.0)],
                              init={o: lane(p) + [conv(a) for a in case["ini"][o]] for o, p in (("Ego", 100.0), ("Car", 400.0))}, stories=st, stop=case["stop"]))
        S = sim.Sim(self.se, env, x, ROAD, elems=True)
        if S.rc != 0:
            raise Violation("init", "the scenario was rejected")
        se = self.se
        t = 0.0
        B.start(t)
        started, hits, done = 0, 0, False
        for k in range(len(case["steps"]) + 1):
            dt = 0.0
            if k > 0:
                sp = case["steps"][k - 1]
                dt = sp["dt"]
                for n, v in sp["set"].items():
                    values[n][1] = v
                    f = se.SE_SetVariableInt if vs[n] == "int" else se.SE_SetVariableBool
                    if f(n.encode(), v) != 0:
                        raise Violation("set", "setting %s failed" % n)
                S.step(dt)
            B.step(t, dt)
            t += dt
            exp, got = {}, {}
            for p, ty, s in B.take():
                exp.setdefault((p, ty), []).append(s)
            for n, ty, s, p in S.take():
                if p.endswith("TeleportAction") and "::" not in p:
                    continue
                got.setdefault((p, ty), []).append(s)
            for key in sorted(set(exp) | set(got)):
                if exp.get(key, []) != got.get(key, []):
                    raise Violation("state", "step %d, time %.3f: element %s (type %d) took states %s, expected %s" % (k, t - dt, key[0] or "storyboard", key[1], got.get(key, []), exp.get(key, [])))
            started += sum(2 in v for (p, ty), v in exp.items() if ty == 6)
            if B.root.state == story.COMPLETE:
                done = True
                break
        if se.SE_GetQuitFlag() != (1 if done else 0):
            raise Violation("quit", "quit flag %d, storyboard %s" % (se.SE_GetQuitFlag(), "stopped" if done else "running"))
        S.close()
        rep = sum(e.n > 1 for e in B.els if e.typ == "event")
        cl = []
        for n, v in (("skip", B.skipped), ("conflict", B.conflicts), ("repeat", rep), ("stopped", done), ("group-repeat", any(e.n > 1 for e in B.els if e.typ == "maneuverGroup")),
                     ("act-complete", any(e.state == 3 for e in B.els if e.typ == "act"))):
            if v:
                cl.append(n)
        return dict(nontrivial=started >= 3 and bool(cl), checks=k + 1, classes=cl, stats=dict(started=started))


CHECK = S01
