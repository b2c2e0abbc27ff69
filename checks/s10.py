"""S10: repeatability. The same scenario with the same steps gives the same simulation, whatever ran before in the process and whatever is only asked on the way."""
import ctypes as C, json, os, select, signal, time
import pbt, capi, kitchen, sim
from pbt import Violation, Discard


def in_child(fn, env, timeout=15):
    """run fn in a forked child, deliver its JSON result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = dict(ok=fn())
            except (Violation, Discard) as e:
                out = dict(err=str(e), d=isinstance(e, Discard))
            data = json.dumps(out).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
        finally:
            os._exit(0)
    os.close(w)
    buf, end = [], time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return None
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf.append(d)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not buf:
        return dict(err="the process ended (status %s)" % st)
    return json.loads(b"".join(buf))


class S10(pbt.Check):
    id = "S10"
    targets = ["esminiLib"]
    quick_cases, quick_time = 2500, 35
    thorough_cases, thorough_time = 100000, 900
    case_timeout = 60
    rule = ("Random scenarios with everything (linked roads and junctions, vehicles, pedestrians, obstacles, trailers, controllers with random behaviour, 20 kinds of actions, events triggered by time, order, distance and speed) and random step sequences. The complete trace (all object states, "
            "storyboard and condition events, variables) of a run in a fresh process is compared bit by bit with a run in a process that simulated one or two other random scenarios before (with reports, sensors, options and callbacks of its own), and in which getters are called between the steps. "
            "Non-trivial: at least one action ran and some object moved.")

    def prepare(self):
        self.se = capi.se()

    def gen(self, rng):
        kw = dict(steps=(10, 50), junction=0.5, ntrunk=(1, 3))
        before = [kitchen.gen(rng, **kw) for _ in range(rng.randint(1, 2))]
        for b in before:
            b["broken"] = rng.choice([None, None, None, "stop", "entity", "cut", "road"])
        return dict(main=kitchen.gen(rng, **kw), before=before, seed=rng.randint(1, 9999), noise=rng.random() < 0.7, coll=rng.random() < 0.3, mess=rng.randrange(8))

    def simulate(self, case, env, tag, seed, noise, coll, mess=0):
        se = self.se
        b = kitchen.build(case)
        xosc = b.xosc
        br = case.get("broken")
        if br == "stop":  # refers to a storyboard element that does not exist
            xosc = xosc.replace("</Storyboard>", '<StopTrigger><ConditionGroup><Condition name="never" delay="0" conditionEdge="none"><ByValueCondition><StoryboardElementStateCondition storyboardElementType="event" storyboardElementRef="nosuch" state="endTransition"/></ByValueCondition></Condition></ConditionGroup></StopTrigger></Storyboard>') if "<StopTrigger" not in xosc else xosc
        elif br == "entity":
            i = xosc.rfind('entityRef="')
            xosc = xosc[:i] + 'entityRef="Nobody' + xosc[i + len('entityRef="'):] if i > 0 else xosc
        elif br == "cut":
            xosc = xosc[:len(xosc) * 2 // 3]
        elif br == "road":
            xosc = xosc.replace("net.xodr", "missing.xodr")
        se.SE_CollisionDetection(bool(coll))
        S = sim.Sim(se, env, xosc, b.xodr, elems=True, conds=True, seed=seed, name="sc" + tag, xodr_name="net.xodr")
        if S.rc != 0:
            S.close()
            return None
        out = []
        if mess & 1:
            se.SE_AddObjectSensor(0, 1.0, 0.0, 0.5, 0.0, 0.5, 60.0, 1.0, 20)
        for k, dt in enumerate([None] + case["steps"]):
            if dt is not None:
                S.step(dt)
            rec = [se.SE_GetSimulationTime(), se.SE_GetQuitFlag()]
            for i in range(se.SE_GetNumberOfObjects()):
                oid = se.SE_GetId(i)
                st = capi.SE_ScenarioObjectState()
                if se.SE_GetObjectState(oid, C.byref(st)) != 0:
                    continue
                d = st.dict()
                rec.append([(v.hex() if isinstance(v, float) else v) for v in d.values()])
            rec.append([[c[0], c[1], c[2]] for c in S.take()])
            rec.append([[c[0], c[1].hex()] for c in S.fired])
            S.fired = []
            v = C.c_int()
            se.SE_GetVariableInt(b"v1", C.byref(v))
            rec.append(v.value)
            out.append(rec)
            if noise:
                n = se.SE_GetNumberOfObjects()
                ri, pd, dd = capi.SE_RoadInfo(), capi.SE_PositionDiff(), C.c_double()
                for i in range(n):
                    oid = se.SE_GetId(i)
                    se.SE_GetRoadInfoAtDistance(oid, 20.0, C.byref(ri), 0, True)
                    for j in range(n):
                        se.SE_GetDistanceToObject(oid, se.SE_GetId(j), bool(k % 2), C.byref(pd))
                        se.SE_GetTimeToCollision(oid, se.SE_GetId(j), 3, 2, False, C.byref(dd))
                    se.SE_GetObjectName(oid)
                    se.SE_GetNumberOfRoutePoints(oid)
            if mess & 2 and dt is not None and k % 3 == 0:
                se.SE_ReportObjectSpeed(0, 3.0 + k)
            if se.SE_GetQuitFlag() != 0:
                break
        if not mess & 4:
            S.close()
        return out

    def run(self, case, env):
        for c in [case["main"]] + case["before"]:
            kitchen.build(c)
        if not isinstance(case["seed"], int) or case["seed"] < 1:
            raise Discard("seed")
        a = in_child(lambda: self.simulate(case["main"], env, "a", case["seed"], False, case["coll"]), env)
        if a is None:
            raise Violation("hang", "the scenario does not end")
        if a.get("err"):
            raise Violation("crash", "the scenario does not run: %s" % a["err"])

        def second():
            for i, c in enumerate(case["before"]):
                self.simulate(c, env, "b%d" % i, 1000 + i, False, not case["coll"], case["mess"])
            return self.simulate(case["main"], env, "a", case["seed"], case["noise"], case["coll"])
        b = in_child(second, env, 30)
        if b is None:
            raise Violation("hang", "the second run does not end")
        if b.get("err"):
            solo = [in_child(lambda c=c, i=i: self.simulate(c, env, "b%d" % i, 1000 + i, False, not case["coll"], case["mess"]), env) for i, c in enumerate(case["before"])]
            if any(s is None or s.get("err") for s in solo):
                raise Discard("an earlier scenario does not run")
            raise Violation("second", "the scenario runs alone, but not after another one in the same process: %s" % b["err"])
        a, b = a["ok"], b["ok"]
        if (a is None) != (b is None):
            raise Violation("init", "the scenario is %s in a fresh process and %s after others" % ("rejected" if a is None else "accepted", "rejected" if b is None else "accepted"))
        if a is None:
            raise Discard("rejected")
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                for i, (p, q) in enumerate(zip(x, y)):
                    if p != q:
                        if isinstance(p, list) and len(p) > 5 and isinstance(q, list):
                            names = [f[0] for f in capi.SE_ScenarioObjectState._fields_]
                            df = [(names[j], float.fromhex(u) if isinstance(u, str) else u, float.fromhex(v) if isinstance(v, str) else v) for j, (u, v) in enumerate(zip(p, q)) if u != v and j < len(names)]
                            raise Violation("differs", "step %d: object %s differs from a fresh run: %s" % (k, p[0], df[:5]))
                        raise Violation("differs", "step %d: %s in a fresh run, %s here" % (k, p, q))
                raise Violation("differs", "step %d: different number of objects" % k)
        if len(a) != len(b):
            raise Violation("differs", "%d steps in a fresh run, %d here" % (len(a), len(b)))
        acts = sum(1 for r in a for e in r[-3] if e[1] == 7 and e[2] == 2)
        return dict(nontrivial=acts > 0 and a[0][2:-3] != a[-1][2:-3], steps=len(a), actions=acts)


CHECK = S10
