"""S05: lateral actions. Lane changes and lane offsets reach the target lateral position along the requested transition."""
import math
import pbt, capi, osc, sim
from pbt import Violation, Discard
from s04 import shape_val, PEAK

EPS = 1e-6


def road(k, left, right, width, off):
    def ln(i):
        return '<lane id="%d" type="driving" level="false"><width sOffset="0" a="%g" b="0" c="0" d="0"/></lane>' % (i, width)
    geo = '<geometry s="0" x="0" y="0" hdg="0" length="900"><line/></geometry>' if not k else '<geometry s="0" x="0" y="0" hdg="0" length="900"><arc curvature="%r"/></geometry>' % k
    return ('<OpenDRIVE><header revMajor="1" revMinor="5"/><road name="" length="900" id="1" junction="-1"><planView>%s</planView>'
            '<lanes><laneOffset s="0" a="%r" b="0" c="0" d="0"/><laneSection s="0"><left>%s</left><center><lane id="0" type="none" level="false"/></center><right>%s</right></laneSection></lanes></road></OpenDRIVE>'
            % (geo, off, "".join(ln(i) for i in range(left, 0, -1)), "".join(ln(-i) for i in range(1, right + 1))))


def slope(shape, x):
    x = min(max(x, 0.0), 1.0)
    return dict(linear=1.0, sinusoidal=math.pi / 2 * math.sin(math.pi * x), cubic=6 * x * (1 - x))[shape]


class S05(pbt.Check):
    id = "S05"
    targets = ["esminiLib"]
    quick_cases, quick_time = 6000, 40
    thorough_cases, thorough_time = 400000, 900
    rule = ("Random sequences of lane change (absolute/relative target, offset; step/linear/sinusoidal/cubic; time/distance/rate) and lane offset actions (absolute/relative; all shapes; lateral acceleration limit) on straight and "
            "curved multi-lane roads, both driving directions, interrupted and repeated at random; lateral position, lane and offset after every step are compared with the closed form transition. "
            "Non-trivial: at least two actions executed and at least one completed after three or more steps.")

    def prepare(self):
        self.se = capi.se()

    def gen(self, rng):
        L, R = rng.choice([1, 2, 3, 3, 5]), rng.choice([1, 2, 3, 3, 5])
        lanes = list(range(1, L + 1)) + list(range(-R, 0))
        k = rng.choice([0.0, 0.0, round(rng.uniform(-0.004, 0.004), 4)])
        acts = []
        for i in range(rng.randint(1, 4)):
            if rng.random() < 0.65:
                dim = rng.choice(["time", "rate", "distance"])
                a = dict(k="lanechange", shape=rng.choice(["linear", "sinusoidal", "cubic", "step"]), dim=dim, v=dict(time=round(rng.uniform(0.8, 5), 2), rate=round(rng.uniform(0.5, 4), 2), distance=round(rng.uniform(5, 60), 1))[dim],
                         off=rng.choice([0.0, 0.0, round(rng.uniform(-1, 1), 2)]))
                if rng.random() < 0.5:
                    a["lane"] = rng.choice(lanes)
                else:
                    a["ref"], a["lane"] = rng.choice(["Ego", "Other"]), rng.choice([-2, -1, 0, 1, 1, 2, rng.randint(-5, 5)])
            else:
                a = dict(k="laneoffset", shape=rng.choice(["linear", "sinusoidal", "cubic", "step"]), off=round(rng.uniform(-1.5, 1.5), 2), acc=round(rng.uniform(0.3, 4), 2))
                if rng.random() < 0.3:
                    a["ref"] = "Other"
                elif rng.random() < 0.25:
                    a["off"] = round(rng.uniform(-4, 4), 2)
            acts.append(a)
        dts = rng.choice([[0.1], [0.05], [0.02, 0.1, 0.2]])
        steps = []
        for j in range(rng.randint(25, 90)):
            s = dict(dt=rng.choice(dts))
            if j == 0 or rng.random() < 0.07:
                s["go"] = rng.randrange(len(acts))
            steps.append(s)
        return dict(L=L, R=R, w=rng.choice([3.5, 3.0, 4.0]), coff=rng.choice([0.0, 0.0, 0.7, -1.3]), k=k, acts=acts, steps=steps, v=round(rng.uniform(3, 30), 1), lane=rng.choice(lanes), other=rng.choice(lanes),
                    ooff=rng.choice([0.0, 0.5, -0.8]), off=rng.choice([0.0, 0.0, 0.4]), back=rng.random() < 0.15)

    def run(self, case, env):
        L, R, w, lo, k, v = case["L"], case["R"], case["w"], case["coff"], case["k"], case["v"]
        if not (1 <= L <= 6 and 1 <= R <= 6 and 2.5 <= w <= 5 and abs(k) <= 0.005 and 1 <= v <= 40 and abs(lo) < 3):
            raise Discard("road")

        def exists(l):
            return l != 0 and -R <= l <= L

        def centre(l):
            return lo + (abs(l) - 0.5) * w * (1 if l > 0 else -1)

        def lane_at(t):
            n = int(math.floor(abs(t - lo) / w)) + 1
            l = n if t > lo else -n
            d = abs(t - lo) / w % 1.0
            return l, min(d, 1 - d) * w

        if not (exists(case["lane"]) and exists(case["other"]) and abs(case["off"]) < 1.2 and abs(case["ooff"]) < 1.2):
            raise Discard("lane")
        try:
            events = []
            for i, a in enumerate(case["acts"]):
                if a["shape"] not in ("linear", "sinusoidal", "cubic", "step"):
                    raise Discard("shape")
                if a["k"] == "lanechange":
                    if a["v"] < 0.1 or (a["dim"] == "time" and a["v"] < 0.3) or abs(a["off"]) > 1.3 or (not a.get("ref") and not exists(a["lane"])) or (a["dim"] == "distance" and k):
                        if a["dim"] == "distance" and k:
                            a = dict(a, dim="time", v=a["v"] / 10.0)
                            case["acts"][i] = a
                            if a["v"] < 0.3:
                                raise Discard("v")
                        else:
                            raise Discard("v")
                    d = dict(k="lanechange", name="a%d" % i, lane=a["lane"], ref=a.get("ref"), off=a["off"], dyn=dict(shape=a["shape"], dim=a["dim"], v=a["v"]))
                else:
                    if a["acc"] < 0.1 or abs(a["off"]) > 5:
                        raise Discard("acc")
                    d = dict(k="laneoffset", name="a%d" % i, off=a["off"], ref=a.get("ref"), shape=a["shape"], maxacc=a["acc"])
                events.append(dict(name="e%d" % i, prio="parallel", max=1000, start=[[dict(k="var", name="c%d" % i, ref="go", value=i, rule="equalTo", edge="none")]], actions=[d]))
            if any(s["dt"] <= 1e-3 or s["dt"] > 0.5 for s in case["steps"]):
                raise Discard("dt")
        except (KeyError, TypeError):
            raise Discard("invalid")
        events.append(dict(name="keep", prio="parallel", max=1, start=[[dict(k="time", name="never", value=1e9, rule="greaterThan")]], actions=[dict(k="user", name="ua")]))
        ini = lambda v, s, l, o: [dict(k="teleport", pos=dict(k="lane", road="1", lane=l, s=s, off=o)), dict(k="speed", v=v, dyn=dict(shape="step"))]
        fwd = case["lane"] < 0
        vel = -v if case["back"] else v
        x = osc.scenario(dict(vars=[["go", "integer", -1]], entities=[osc.vehicle("Ego"), osc.vehicle("Other")],
                              init=dict(Ego=ini(vel, 450.0, case["lane"], case["off"]), Other=ini(0.0, 430.0, case["other"], case["ooff"])), stories=[osc.simple_story(events, ["Ego"])]))
        S = sim.Sim(self.se, env, x, road(k, L, R, w, lo), elems=True)
        if S.rc != 0:
            raise Violation("init", "the scenario was rejected")
        se = self.se
        ego = S.id("Ego")
        S.take()
        o = S.state(ego)
        t, s, lane = o.t, o.s, case["lane"]
        if abs(t - centre(lane) - case["off"]) > 1e-4:
            raise Violation("init", "t %g after init" % t)
        tn = centre(case["lane"]) + case["off"]     # nominal
        cur, ran, ended, multi, tm = None, 0, 0, 0, 0.0
        last = None
        for n, st in enumerate(case["steps"]):
            dt, go = st["dt"], st.get("go")
            if go is not None and not (isinstance(go, int) and 0 <= go < len(case["acts"])):
                raise Discard("go")
            start = go is not None and not (cur and cur["i"] == go)
            if start:
                a = case["acts"][go]
                if a["k"] == "lanechange":
                    if a.get("ref"):
                        rl = lane if a["ref"] == "Ego" else case["other"]
                        f = (fwd if a["ref"] == "Ego" else case["other"] < 0)
                        d = a["lane"] if f else -a["lane"]
                        tl = rl
                        for _ in range(abs(d)):
                            tl += 1 if d > 0 else -1
                            if tl == 0:
                                tl += 1 if d > 0 else -1
                    else:
                        tl = a["lane"]
                    if not exists(tl):
                        break                # out of the road: not specified
                    t1 = centre(tl) + a["off"]
                    if a["shape"] == "step":
                        T = 0.0
                    else:
                        T = PEAK[a["shape"]] * abs(t1 - t) / a["v"] if a["dim"] == "rate" else a["v"]
                        if a["dim"] != "distance" and T > 1e-3 and PEAK[a["shape"]] * abs(t1 - t) / T > 0.9 * v:
                            break            # faster than the vehicle: not specified
                    cur = dict(i=go, t0=t, t1=t1, T=T, x=0.0, n=0, lag=False, lane=tl)
                else:
                    if a.get("ref"):
                        t1 = centre(case["other"]) + case["ooff"] + a["off"] * (1 if case["other"] < 0 else -1)
                    else:
                        t1 = centre(lane) + a["off"]
                    if not (lo - R * w + 0.1 < t1 < lo + L * w - 0.1):
                        break
                    b = abs(t1 - t)
                    T = dict(step=0.0, linear=math.sqrt(6 * b / a["acc"]), cubic=math.sqrt(6 * b / a["acc"]), sinusoidal=math.pi * math.sqrt(b / (2 * a["acc"])))[a["shape"]]
                    if T > 1e-3 and PEAK[a["shape"]] * b / T > 0.9 * v:
                        break
                    cur = dict(i=go, t0=t, t1=t1, T=T, x=0.0, n=0, lag=True, lane=None)
                ran += 1
                last = go
            se.SE_SetVariableInt(b"go", -1 if go is None else go)
            S.step(dt)
            ch = S.take()
            starts = [c[0] for c in ch if c[1] == 7 and c[2] == 2]
            ends = [c[0] for c in ch if c[1] == 7 and c[2] == 3]
            o = S.state(ego)
            where = "step %d, time %.3f" % (n, tm)
            if starts != (["a%d" % go] if start else []):
                raise Violation("start", "%s: actions %s started" % (where, starts))
            if start:
                ends = ends[-1:] if ends[-1:] == ["a%d" % go] else []
            if not (20 < o.s < 880):
                break
            ds = (o.s - s) * (1 if fwd else -1) * (-1 if case["back"] else 1)
            if ds < -1e-3:
                raise Violation("long", "%s: moved %.4f m against its driving direction" % (where, ds))
            dl = ds * (1 - k * o.t)
            if cur is None:
                if abs(o.t - tn) > 2e-5:
                    raise Violation("hold", "%s: lateral position changed from %.5f to %.5f without any action" % (where, tn, o.t))
                if abs(dl - v * dt) > 0.003 * v * dt + 2e-4:
                    raise Violation("long", "%s: moved %.5f m along the lane in a step of %.5f m" % (where, dl, v * dt))
            else:
                a = case["acts"][cur["i"]]
                cur["n"] += 1
                if a["k"] == "lanechange" and a["dim"] == "distance" and a["shape"] != "step":
                    cur["x"] += ds
                elif not cur["lag"]:
                    cur["x"] += dt
                fin = cur["x"] > cur["T"] - EPS
                near = abs(cur["x"] - cur["T"]) < (2e-3 if a.get("dim") == "distance" else 1e-5)
                frac = 1.0 if fin else shape_val(a["shape"], cur["x"] / cur["T"])
                exp = cur["t0"] + (cur["t1"] - cur["t0"]) * frac
                tol = 2e-5 if a.get("dim") != "distance" else 1e-4
                if abs(o.t - exp) > tol and not near:
                    raise Violation("lateral", "%s: action %d (%s): t = %.5f, expected %.5f (from %.4f to %.4f over %.4f, at %.4f)" % (where, cur["i"], a, o.t, exp, cur["t0"], cur["t1"], cur["T"], cur["x"]))
                done = ends == ["a%d" % cur["i"]]
                if done != fin and not near and abs(o.t - cur["t1"]) > 1e-3:
                    raise Violation("end", "%s: action %d (%s) %s at %.4f of %.4f" % (where, cur["i"], a, "ended" if done else "still running", cur["x"], cur["T"]))
                if fin and not near and not done:
                    raise Violation("end", "%s: action %d (%s) still running at %.4f of %.4f" % (where, cur["i"], a, cur["x"], cur["T"]))
                if a["k"] == "lanechange" and not done and not near and a["shape"] != "step" and cur["T"] > 1e-3:
                    # travelled v * dt along the path, nose in the direction of motion
                    x1 = cur["x"]
                    x0 = (x1 - ds) if a.get("dim") == "distance" else (x1 - dt)
                    sl = [abs((cur["t1"] - cur["t0"]) * slope(a["shape"], q / cur["T"]) / cur["T"]) for q in (x0, (x0 + x1) / 2, x1)]
                    lat = [q * (ds if a.get("dim") == "distance" else dt) for q in sl]
                    step = v * dt
                    if max(lat) < 0.9 * step:
                        lo_, hi_ = math.sqrt(step ** 2 - max(lat) ** 2), math.sqrt(step ** 2 - min(lat) ** 2)
                        if not lo_ - 0.003 * step - 2e-4 < dl < hi_ + 0.003 * step + 2e-4:
                            raise Violation("long", "%s: action %d (%s): moved %.5f m along and %.5f m across the lane in a step of %.5f m" % (where, cur["i"], a, dl, o.t - t, step))
                        sg = 1 if cur["t1"] > cur["t0"] else -1
                        dirl = 1 if fwd else -1
                        mot = sg * dirl * (-1 if case["back"] else 1)   # to the left relative the nose, for forward motion
                        hr = math.remainder(o.h - k * o.s - (0 if fwd else math.pi), 2 * math.pi)
                        ha = sorted([mot * math.asin(min(lat) / step), mot * math.asin(max(lat) / step)])
                        if not ha[0] - 0.01 < hr < ha[1] + 0.01:
                            raise Violation("heading", "%s: action %d (%s): heading %.4f relative the driving direction, motion %.4f..%.4f" % (where, cur["i"], a, hr, ha[0], ha[1]))
                if dl > v * dt * 1.003 + 2e-4:
                    raise Violation("long", "%s: moved %.5f m along the lane in a step of %.5f m" % (where, dl, v * dt))
                if done:
                    if abs(o.t - cur["t1"]) > 1e-3:
                        raise Violation("target", "%s: action %d ended at t = %.5f, target %.5f" % (where, cur["i"], o.t, cur["t1"]))
                    hr = o.h - k * o.s - (0 if fwd else math.pi)
                    if abs(math.sin(hr / 2)) > 1e-3:
                        raise Violation("heading", "%s: heading %.5f relative the driving direction after the action" % (where, hr))
                    tn = cur["t1"]
                    ended += 1
                    multi += cur["n"] > 2
                    cur = None
                elif cur["lag"]:
                    cur["x"] += dt
            l, margin = lane_at(o.t)
            if margin > 2e-3 and exists(l) and o.laneId != l and not (last is not None and case["acts"][last]["k"] == "laneoffset"):
                raise Violation("lane", "%s: lane %d reported at t = %.4f, expected %d" % (where, o.laneId, o.t, l))
            if abs(centre(o.laneId) + o.laneOffset - o.t) > 1e-3:
                raise Violation("offset", "%s: lane %d, offset %.4f do not match t = %.4f" % (where, o.laneId, o.laneOffset, o.t))
            t, s, lane = o.t, o.s, o.laneId
            tm += dt
        S.close()
        return dict(nontrivial=ran >= 2 and multi >= 1, checks=n + 1, classes=sorted({a["k"] + "/" + a["shape"] + "/" + a.get("dim", "acc") for a in case["acts"]} | ({"left"} if not fwd else set()) | ({"curved"} if k else set())),
                    stats=dict(ran=ran, ended=ended, multi=multi))


CHECK = S05
