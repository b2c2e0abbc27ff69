"""S02: trigger logic. Events start exactly when their start trigger (OR of AND groups of conditions with edge, delay and rule) becomes true."""
import math
import pbt, capi, osc, sim
from pbt import Violation, Discard

EPS = 1e-6
ROAD = osc.straight_road()


def rule(a, b, r, fl):
    if fl:
        if r in ("equalTo", "notEqualTo"):
            e = abs(a - b) < EPS
            return e if r == "equalTo" else not e
        return {"greaterThan": a > b + EPS, "greaterOrEqual": a >= b - EPS, "lessThan": a < b - EPS, "lessOrEqual": a <= b + EPS}[r]
    return {"greaterThan": a > b, "greaterOrEqual": a >= b, "lessThan": a < b, "lessOrEqual": a <= b, "equalTo": a == b, "notEqualTo": a != b}[r]


class Cond:
    """one condition: edge detection on consecutive checks, then delay"""

    def __init__(self, c):
        self.c, self.prev = c, None
        self.rearm()

    def rearm(self):
        self.hist, self.next = [], 0        # [time, value] at changes

    def fired(self):
        self.prev = None                    # no edge on the first check after the trigger fired

    def check(self, t, values):
        c = self.c
        if c["k"] == "time":
            raw = rule(t, c["value"], c["rule"], True)
        elif c["k"] == "state":
            raw = values["#" + c["ref"]](c["state"])
        else:
            typ, val = values[c["ref"]]
            raw = rule(val, c["value"], c["rule"], typ == "double")
        e = c["edge"]
        if e == "none":
            v = raw
        elif self.prev is None:
            v = False
        else:
            v = {"rising": raw and not self.prev, "falling": self.prev and not raw, "risingOrFalling": raw != self.prev}[e]
        self.prev = raw
        if len(self.hist) == 1 and t < self.hist[0][0] + EPS:
            self.hist[0][1] = v             # time zero is checked twice, the last check counts
        elif not self.hist or self.hist[-1][1] != v:
            self.hist.append([t, v])
        tau = t - c["delay"]
        res, new = False, False
        while self.next < len(self.hist) and tau > self.hist[self.next][0] - EPS:
            res, new = res or self.hist[self.next][1], True
            self.next += 1
        if not new and self.next > 0:
            res = self.hist[self.next - 1][1]
        return res


class Trigger:
    def __init__(self, groups):
        self.groups = [[Cond(c) for c in g] for g in groups]

    def all(self):
        return [c for g in self.groups for c in g]

    def check(self, t, values):
        vals = [[c.check(t, values) for c in g] for g in self.groups]
        res = any(g and all(g) for g in vals)
        if res:
            for c in self.all():
                c.fired()
        return res

    def rearm(self):
        for c in self.all():
            c.rearm()


TYPES = {"int": "integer", "double": "double", "string": "string", "bool": "boolean"}


def rnd_value(rng, t):
    if t == "int":
        return rng.randint(-2, 2)
    if t == "double":
        return rng.choice([-1.5, 0.0, 0.5, 0.500002, 2.25])
    if t == "string":
        return rng.choice(["a", "b", "ab", "B"])
    return rng.random() < 0.5


def gen_cond(rng, vs, name, tmax):
    c = dict(name=name, edge=rng.choice(osc.EDGES), delay=rng.choice([0, 0, 0, rng.choice([0.05, 0.1, 0.25, 0.3, 0.5]), round(rng.uniform(0, 0.8), 3)]), rule=rng.choice(osc.RULES))
    if rng.random() < 0.15:
        c.update(k="time", value=round(rng.uniform(0, tmax), 2))
    else:
        n = rng.choice(sorted(vs))
        c.update(k="param" if n[0] == "p" else "var", ref=n, value=rnd_value(rng, vs[n]))
        if vs[n] in ("bool", "string") and rng.random() < 0.6:
            c["rule"] = "equalTo"
    return c


class S02(pbt.Check):
    id = "S02"
    targets = ["esminiLib"]
    quick_cases, quick_time = 6000, 40
    thorough_cases, thorough_time = 300000, 900
    rule = ("Random start triggers (1-3 groups of 1-3 conditions on variables, parameters and time; all rules, value types, edges and delays) on 1-4 "
            "repeating events, driven by a random history of variable/parameter updates and time steps of varying length; the steps at which each event "
            "starts are compared with a reference evaluator. Non-trivial: at least two event starts, and one of the conditions has an edge or a delay.")

    def prepare(self):
        self.se = capi.se()

    def gen(self, rng):
        vs = {}
        for i in range(rng.randint(1, 4)):
            vs["%s%d" % (rng.choice("vvp"), i)] = rng.choice(["int", "double", "string", "bool", "bool"])
        nsteps = rng.randint(15, 40)
        dts = rng.choice([[0.1], [0.05], [0.1, 0.05, 0.2], [0.01, 0.37, 0.1]])
        tmax = nsteps * dts[0]
        evs = []
        for i in range(rng.randint(1, 4)):
            evs.append(dict(groups=[[gen_cond(rng, vs, "c%d_%d_%d" % (i, g, j), tmax) for j in range(rng.choice([1, 1, 2, 2, 3]))] for g in range(rng.choice([1, 1, 2, 3]))]))
        steps = []
        for i in range(nsteps):
            s = dict(dt=rng.choice(dts), set={})
            for n in sorted(vs):
                if rng.random() < 0.35:
                    s["set"][n] = rnd_value(rng, vs[n])
            steps.append(s)
        return dict(vars=vs, init={n: rnd_value(rng, t) for n, t in vs.items()}, events=evs, steps=steps)

    def run(self, case, env):
        vs, init = case["vars"], case["init"]
        try:
            for e in case["events"]:
                if not e["groups"]:
                    raise Discard("no group")
                for g in e["groups"]:
                    if not g:
                        raise Discard("empty group")
                    for c in g:
                        if c["k"] != "time" and (type(c["value"]) is not type(init[c["ref"]])):
                            raise Discard("type")
                        if c["delay"] < 0:
                            raise Discard("delay")
            for s in case["steps"]:
                if s["dt"] <= 0 or any(type(v) is not type(init[n]) for n, v in s["set"].items()):
                    raise Discard("type")
        except (KeyError, TypeError):
            raise Discard("invalid")
        decl = lambda p: [["%s" % n, TYPES[t], init[n]] for n, t in sorted(vs.items()) if n[0] == p]
        events = [dict(name="e%d" % i, prio="parallel", max=100000, start=e["groups"], actions=[dict(k="setvar", name="a%d" % i, ref="out", value=i)]) for i, e in enumerate(case["events"])]
        # the act stays alive by an event that never starts
        events.append(dict(name="keep", prio="parallel", max=1, start=[[dict(k="time", name="never", value=1e9, rule="greaterThan")]], actions=[dict(k="user", name="ua")]))
        x = osc.scenario(dict(params=decl("p"), vars=decl("v") + [["out", "integer", -1]], entities=[osc.vehicle("Ego")], stories=[osc.simple_story(events, ["Ego"])]))
        S = sim.Sim(self.se, env, x, ROAD, elems=True, conds=False)
        if S.rc != 0:
            raise Violation("init", "the scenario was rejected")
        trig = [Trigger(e["groups"]) for e in case["events"]]
        values = {n: [vs[n], init[n]] for n in vs}
        t, fires, first = 0.0, 0, True
        se = self.se
        for k in range(len(case["steps"]) + 1):
            if k > 0:
                st = case["steps"][k - 1]
                for n, v in st["set"].items():
                    values[n][1] = v
                    b, p = n.encode(), n[0] == "p"
                    f = {"int": (se.SE_SetVariableInt, se.SE_SetParameterInt), "double": (se.SE_SetVariableDouble, se.SE_SetParameterDouble),
                         "string": (se.SE_SetVariableString, se.SE_SetParameterString), "bool": (se.SE_SetVariableBool, se.SE_SetParameterBool)}[vs[n]][p]
                    if f(b, v.encode() if isinstance(v, str) else v) != 0:
                        raise Violation("set", "setting %s failed" % n)
                S.step(st["dt"])
            exp = []
            for i, tr in enumerate(trig):
                if tr.check(t, values):
                    exp.append("e%d" % i)
                    tr.rearm()
            got = [c[0] for c in S.take() if c[1] == 6 and c[2] == 2]
            if got != exp:
                raise Violation("start", "step %d, time %.3f: events %s started, expected %s" % (k, t, got, exp))
            fires += len(exp)
            if k > 0:
                t += case["steps"][k - 1]["dt"]
        S.close()
        allc = [c for e in case["events"] for g in e["groups"] for c in g]
        cl = sorted({"edge:" + c["edge"] for c in allc} | {"delay" for c in allc if c["delay"]} | {"kind:" + c["k"] for c in allc})
        return dict(nontrivial=fires >= 2 and any(c["edge"] != "none" or c["delay"] for c in allc), checks=len(case["steps"]) + 1, classes=cl, stats=dict(fires=fires))


CHECK = S02
