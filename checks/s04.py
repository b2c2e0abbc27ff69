"""S04: speed actions. Speed follows the requested transition from the current to the target speed within the performance limits, and stays there."""
import math
import pbt, capi, osc, sim
from pbt import Violation, Discard

EPS = 1e-6
ROAD = osc.straight_road(1200)
PEAK = dict(linear=1.0, sinusoidal=math.pi / 2, cubic=1.5)


def shape_val(shape, x):
    if shape == "linear":
        return x
    if shape == "sinusoidal":
        return (1 - math.cos(math.pi * x)) / 2
    return x * x * (3 - 2 * x)


def lim(v, m):
    return max(-m, min(m, v))


class S04(pbt.Check):
    id = "S04"
    targets = ["esminiLib"]
    quick_cases, quick_time = 8000, 40
    thorough_cases, thorough_time = 400000, 900
    rule = ("Random sequences of speed actions (absolute, relative delta/factor, continuous; step/linear/sinusoidal/cubic; by time, distance or rate) on a vehicle with random performance limits, triggered, "
            "interrupted and repeated at random times, random time steps; the speed after every step is compared with the closed form transition, and completion with its duration. "
            "Non-trivial: at least two actions executed and at least one ran to its end over several steps.")

    def prepare(self):
        self.se = capi.se()

    def gen(self, rng):
        acts = []
        for i in range(rng.randint(1, 4)):
            shape = rng.choice(["linear", "sinusoidal", "cubic", "linear", "step"])
            dim = rng.choice(["time", "time", "rate", "distance"])
            a = dict(shape=shape, dim=dim, v=dict(time=round(rng.uniform(0.05, 3), 2), rate=round(rng.uniform(0.5, 12), 2), distance=round(rng.uniform(1, 60), 1))[dim])
            r = rng.random()
            if r < 0.65:
                a["target"] = rng.choice([0.0, round(rng.uniform(0, 40), 1), round(rng.uniform(0, 40), 1), round(rng.uniform(-10, 0), 1)])
            else:
                a["vt"] = rng.choice(["delta", "factor"])
                a["target"] = round(rng.uniform(-5, 5), 1) if a["vt"] == "delta" else rng.choice([0.0, 0.5, 1.0, 1.3])
                a["cont"] = rng.random() < 0.3
                a["ref"] = rng.choice(["Lead", "Lead", "Ego"])
            acts.append(a)
        t, steps = 0.0, []
        dts = rng.choice([[0.1], [0.05], [0.02, 0.1, 0.3], [0.1, 0.013]])
        n = rng.randint(25, 90)
        last = None
        for k in range(n):
            s = dict(dt=rng.choice(dts))
            if rng.random() < 0.12 or k == 0:
                s["go"] = rng.randrange(len(acts))
            elif rng.random() < 0.06:
                s["lead"] = round(rng.uniform(0, 30), 1)
            steps.append(s)
        return dict(acts=acts, steps=steps, v0=rng.choice([0.0, round(rng.uniform(0, 30), 1), -3.0]), lead=round(rng.uniform(0, 30), 1),
                    perf=[rng.choice([70.0, 30.0, 15.0]), rng.choice([10.0, 4.0, 200.0]), rng.choice([10.0, 6.0, 200.0])], hlane=rng.choice([-1, 1]))

    def run(self, case, env):
        maxs, macc, mdec = case["perf"]
        if min(case["perf"]) < 0.5 or abs(case["v0"]) > maxs or case["hlane"] not in (-1, 1):
            raise Discard("perf")
        try:
            events = []
            for i, a in enumerate(case["acts"]):
                if a["v"] <= 0.01 or a["shape"] not in ("linear", "sinusoidal", "cubic", "step") or a["dim"] not in ("time", "rate", "distance"):
                    raise Discard("v")
                d = dict(k="speed", name="a%d" % i, v=a["target"], dyn=dict(shape=a["shape"], dim=a["dim"], v=a["v"]), ref=a.get("ref"), vt=a.get("vt"), cont=a.get("cont"))
                events.append(dict(name="e%d" % i, prio="parallel", max=1000, start=[[dict(k="var", name="c%d" % i, ref="go", value=i, rule="equalTo", edge="none")]], actions=[d]))
            if any(s["dt"] <= 1e-4 for s in case["steps"]):
                raise Discard("dt")
        except (KeyError, TypeError):
            raise Discard("invalid")
        events.append(dict(name="keep", prio="parallel", max=1, start=[[dict(k="time", name="never", value=1e9, rule="greaterThan")]], actions=[dict(k="user", name="ua")]))
        ini = lambda v, s: [dict(k="teleport", pos=dict(k="lane", road="1", lane=case["hlane"], s=s)), dict(k="speed", v=v, dyn=dict(shape="step"))]
        x = osc.scenario(dict(vars=[["go", "integer", -1]], entities=[osc.vehicle("Ego", maxspeed=maxs, maxacc=macc, maxdec=mdec), osc.vehicle("Lead", maxspeed=100.0)],
                              init=dict(Ego=ini(case["v0"], 600.0), Lead=ini(case["lead"], 540.0 if case["hlane"] > 0 else 660.0)), stories=[osc.simple_story(events, ["Ego"])]))
        S = sim.Sim(self.se, env, x, ROAD, elems=True)
        if S.rc != 0:
            raise Violation("init", "the scenario was rejected")
        se = self.se
        ego, lead = S.id("Ego"), S.id("Lead")
        v, t = S.state(ego).speed, 0.0
        if abs(v - case["v0"]) > 1e-9:
            raise Violation("init", "speed %g after init, expected %g" % (v, case["v0"]))
        S.take()
        s_prev, lead_v = S.state(ego).s, case["lead"]
        cur, ran, ended, multi = None, 0, 0, 0
        for k, st in enumerate(case["steps"]):
            dt = st["dt"]
            go = st.get("go")
            if go is not None and not (isinstance(go, int) and 0 <= go < len(case["acts"])):
                raise Discard("go")
            se.SE_SetVariableInt(b"go", -1 if go is None else go)
            if st.get("lead") is not None:
                lead_v = st["lead"]
                if not 0 <= lead_v <= 60:
                    raise Discard("lead")
                se.SE_ReportObjectSpeed(lead, lead_v)
                if cur and case["acts"][cur["i"]].get("ref") == "Lead":
                    cur["loose"] = True
            S.step(dt)
            ch = S.take()
            starts = [c[0] for c in ch if c[1] == 7 and c[2] == 2]
            ends = [c[0] for c in ch if c[1] == 7 and c[2] == 3]
            now = S.state(ego).speed
            where = "step %d, time %.3f" % (k, t)
            if go is not None and not (cur and cur["i"] == go):
                a = case["acts"][go]
                if starts != ["a%d" % go]:
                    raise Violation("start", "%s: action %d should start, started: %s" % (where, go, starts))
                if cur:
                    if ends[:1] != ["a%d" % cur["i"]]:
                        raise Violation("conflict", "%s: action %d was not ended by action %d" % (where, cur["i"], go))
                    ends = ends[1:]
                ref = lead_v if a.get("ref") == "Lead" else v
                tgt = a["target"] if not a.get("ref") else (ref + a["target"] if a["vt"] == "delta" else ref * a["target"])
                tl = lim(tgt, maxs)
                cur = dict(i=go, v0=v, v1=tl, el=0.0, n=0, loose=bool(a.get("ref") == "Ego" or (a["dim"] == "distance" and tl != tgt)))
                dv = tl - v
                if a["shape"] == "step":
                    cur["T"] = None
                else:
                    pk = PEAK[a["shape"]]
                    if a["dim"] == "rate":
                        T = pk * abs(dv) / a["v"]
                        rate = a["v"]
                    elif a["dim"] == "time":
                        T = a["v"]
                        rate = pk * abs(dv) / T
                    else:
                        if abs(tgt - v) < EPS:
                            T, rate = 0.0, 0.0
                        elif v * tgt < 0 and min(abs(v), abs(tgt)) > EPS:
                            d0 = a["v"] * v * v / (v * v + tgt * tgt)
                            T = 2 * d0 / abs(v) + 2 * (a["v"] - d0) / abs(tgt)
                            rate = pk * abs(dv) / T
                        else:
                            T = 2 * a["v"] / abs(v + tgt)
                            rate = pk * abs(dv) / T
                    m = macc if dv > 0 else mdec
                    cur["T"] = T * max(1.0, rate / m)
                ran += 1
            elif starts:
                raise Violation("start", "%s: unexpected start of %s" % (where, starts))
            # speed in this step
            if abs(now) > maxs + 1e-9:
                raise Violation("maxspeed", "%s: speed %g above maximum %g" % (where, now, maxs))
            if cur is None:
                if abs(now - v) > 2e-6:
                    raise Violation("hold", "%s: speed changed from %g to %g without any action" % (where, v, now))
            else:
                a = case["acts"][cur["i"]]
                cur["el"] += dt
                cur["n"] += 1
                rel = a.get("ref")
                if a["shape"] != "step" or cur["n"] > 1:
                    acc = (now - v) / dt
                    if acc > macc + 1e-4 or acc < -mdec - 1e-4:
                        raise Violation("limit", "%s: acceleration %g outside [-%g, %g]" % (where, acc, mdec, macc))
                if not cur["loose"]:
                    T, sp = cur["T"], (a["shape"], cur["v0"], cur["v1"])
                    if T is None or T < EPS or cur["el"] > T - EPS:
                        exp, done, near = cur["v1"], True, T is not None and abs(cur["el"] - T) < 1e-4
                    else:
                        exp, done, near = cur["v0"] + (cur["v1"] - cur["v0"]) * shape_val(a["shape"], cur["el"] / T), False, abs(cur["el"] - T) < 1e-4
                    if abs(exp - now) > 1e-5 * max(1, abs(exp)) and not near:
                        raise Violation("speed", "%s: action %d (%s): speed %.6f after %.3f s, expected %.6f (from %g to %g over %s s)" % (where, cur["i"], a, now, cur["el"], exp, cur["v0"], cur["v1"], T))
                    isend = ends == ["a%d" % cur["i"]]
                    if rel and a.get("cont"):
                        if isend:
                            raise Violation("end", "%s: continuous action %d ended" % (where, cur["i"]))
                    elif isend != done and not near:
                        raise Violation("end", "%s: action %d (%s) %s after %.3f s, duration %s" % (where, cur["i"], a, "ended" if isend else "still running", cur["el"], T))
                elif rel and a.get("cont") and ends:
                    raise Violation("end", "%s: continuous action %d ended" % (where, cur["i"]))
                if ends:
                    if not cur["loose"] and abs(now - cur["v1"]) > 1e-5:
                        raise Violation("target", "%s: action %d ended at speed %.6f, target %.6f" % (where, cur["i"], now, cur["v1"]))
                    if cur["loose"] and a.get("ref") == "Lead":
                        tgt = lim(lead_v + a["target"] if a["vt"] == "delta" else lead_v * a["target"], maxs)
                        if abs(now - tgt) > 1e-5:
                            raise Violation("target", "%s: action %d ended at speed %.6f, target %.6f" % (where, cur["i"], now, tgt))
                    ended += 1
                    multi += cur["n"] > 2
                    cur = None
            s_now = S.state(ego).s
            d = (s_now - s_prev) * (1 if case["hlane"] < 0 else -1)
            if abs(d - now * dt) > 1e-4 and 5 < s_now < 1195:
                raise Violation("move", "%s: moved %.6f m at speed %.6f in %.3f s" % (where, d, now, dt))
            if not 5 < s_now < 1195:
                break
            s_prev = s_now
            v = now
            t += dt
        S.close()
        return dict(nontrivial=ran >= 2 and multi >= 1, checks=len(case["steps"]), classes=sorted({"%s/%s" % (a["shape"], a["dim"]) for a in case["acts"]} | {"ref:" + a["ref"] for a in case["acts"] if a.get("ref")}),
                    stats=dict(ran=ran, ended=ended))


CHECK = S04
