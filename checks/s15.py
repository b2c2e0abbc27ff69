"""S15: trajectories. An object following a trajectory is where the shape, the timing and the following mode say, in every step."""
import copy
import math
import pbt, capi, osc, sim
from pbt import Violation, Discard
from s05 import road

TAU = 2 * math.pi


def wrap(a):
    return (a + math.pi) % TAU - math.pi


def clothoid(x, y, h, k, kp, s):
    """end point of a clothoid by fine numeric integration (Gauss-Legendre per metre)"""
    n = max(1, int(math.ceil(abs(s))))
    d = s / n
    g = [(-0.8611363115940526, 0.3478548451374538), (-0.3399810435848563, 0.6521451548625461), (0.3399810435848563, 0.6521451548625461), (0.8611363115940526, 0.3478548451374538)]
    for i in range(n):
        for u, w in g:
            q = (i + 0.5 + u / 2) * d
            a = h + k * q + kp * q * q / 2
            x += w / 2 * d * math.cos(a)
            y += w / 2 * d * math.sin(a)
    return x, y, h + k * s + kp * s * s / 2


class Near(Exception):
    pass


class Poly:
    tol, htol = 1e-4, 1e-4

    def __init__(self, pts, mode, v0):
        # pts: (x, y, time, h or None)
        self.p, self.mode = pts, mode
        n = len(pts)
        self.s = [0.0]
        for a, b in zip(pts, pts[1:]):
            self.s.append(self.s[-1] + math.hypot(b[0] - a[0], b[1] - a[1]))
        self.L = self.s[-1]
        ht, cur = [], None
        for i in range(n):
            if i + 1 < n and self.s[i + 1] - self.s[i] > 1e-6:
                cur = math.atan2(pts[i + 1][1] - pts[i][1], pts[i + 1][0] - pts[i][0])
            ht.append(cur)
        first = [x for x in ht if x is not None]
        self.ht = [first[0] if x is None else x for x in ht]
        self.h = [self.ht[i] if pts[i][3] is None else pts[i][3] for i in range(n)]
        self.explicit = pts[0][3] is not None
        self.t0, self.t1 = pts[0][2], pts[-1][2]
        self.v, self.a = [0.0] * n, [0.0] * n
        if mode == "follow":
            v = v0
            for i in range(n - 1):
                ds, dt = self.s[i + 1] - self.s[i], pts[i + 1][2] - pts[i][2]
                self.v[i] = v
                if dt <= 0:
                    continue
                if ds <= 1e-6:
                    self.v[i] = v = 0.0          # standing still
                    continue
                a = 2 * (ds - v * dt) / dt ** 2
                if v + a * dt < 0:
                    a = -v * v / (2 * ds)
                    self.a[i], v = a, 0.0
                else:
                    self.a[i], v = a, v + a * dt
        else:
            for i in range(n - 1):
                dt = pts[i + 1][2] - pts[i][2]
                self.v[i] = (self.s[i + 1] - self.s[i]) / dt if dt > 0 else 0.0

    def time_at(self, s):
        if s <= 0:
            return self.t0
        i = self.seg(s)
        w = (s - self.s[i]) / (self.s[i + 1] - self.s[i])
        return self.p[i][2] + w * (self.p[i + 1][2] - self.p[i][2])

    def seg(self, s):
        for i in range(len(self.p) - 1):
            if s <= self.s[i + 1] + 1e-9 and self.s[i + 1] - self.s[i] > 1e-6:
                return i
        return max(i for i in range(len(self.p) - 1) if self.s[i + 1] - self.s[i] > 1e-6)

    def s_at(self, t):
        if t <= self.t0:
            return 0.0
        if t >= self.t1:
            return self.L
        i = max(j for j in range(len(self.p) - 1) if self.p[j][2] <= t)
        d = t - self.p[i][2]
        if self.a[i] < 0:
            d = min(d, -self.v[i] / self.a[i])
        return min(self.s[i] + self.v[i] * d + self.a[i] * d * d / 2, self.s[i + 1])

    def pose(self, s):
        n = len(self.p)
        if s >= self.L - 1e-7:
            return self.p[-1][0], self.p[-1][1], self.h[-1]
        i = self.seg(s)
        l = self.s[i + 1] - self.s[i]
        u = s - self.s[i]
        a = u / l
        x, y = (self.p[i][j] + a * (self.p[i + 1][j] - self.p[i][j]) for j in (0, 1))
        h = self.h[i]
        if self.mode == "follow":
            h += a * wrap(self.h[i + 1] - self.h[i])
        else:
            r = min(2.0, l / 2)
            if u < r:
                if i > 0:
                    h = self.h[i - 1] + (r + u) / (2 * r) * wrap(self.h[i] - self.h[i - 1])
            elif u > l - r:
                w = (r + l - u) / (2 * r) if i < n - 2 else (l - u) / r
                h += (1 - w) * wrap(self.h[i + 1] - self.h[i])
        return x, y, h

    def hclear(self, s):
        # the heading is only compared away from points where it may jump
        return all(abs(s - x) > 1e-3 for x in self.s)


class Cloth:
    tol, htol, explicit = 2e-3, 1e-3, False

    def __init__(self, segs, t1, tol):
        # segs: (x, y, h, k, kp, length, time)
        self.kinks = []
        self.g, self.t1, self.t0, self.tol = segs, t1, segs[0][6], tol
        self.s = [0.0]
        for g in segs:
            self.s.append(self.s[-1] + g[5])
        self.L = self.s[-1]
        self.tt = [g[6] for g in segs] + [t1]

    def time_at(self, s):
        i = max(j for j in range(len(self.g)) if self.s[j] <= s + 1e-9)
        return self.tt[i] + (s - self.s[i]) / self.g[i][5] * (self.tt[i + 1] - self.tt[i])

    def s_at(self, t):
        if t <= self.t0:
            return 0.0
        if t >= self.t1:
            return self.L
        i = max(j for j in range(len(self.g)) if self.tt[j] <= t)
        return self.s[i] + (t - self.tt[i]) / (self.tt[i + 1] - self.tt[i]) * self.g[i][5]

    def pose(self, s):
        i = max(j for j in range(len(self.g)) if self.s[j] <= s + 1e-9)
        g = self.g[i]
        return clothoid(g[0], g[1], g[2], g[3], g[4], min(s - self.s[i], g[5]))

    def hclear(self, s):
        return s < self.L - 2.0 and all(abs(s - x) > 1.01 for x in self.s[1:-1])


class Nurbs:
    explicit = False

    def __init__(self, cps, order, knots):
        self.c, self.k, self.kn = cps, order, knots
        n = 4000
        self.q, self.s = [], [0.0]
        for i in range(n + 1):
            self.q.append(self.ev(min(knots[-1] * i / n, knots[-1] - 1e-6)))
            if i:
                self.s.append(self.s[-1] + math.hypot(self.q[-1][0] - self.q[-2][0], self.q[-1][1] - self.q[-2][1]))
        self.L = self.s[-1]
        self.t0, self.t1 = 0.0, 0.0

    def ev(self, t):
        # de Boor in homogeneous coordinates
        p, U = self.k - 1, self.kn
        j = max(i for i in range(p, len(self.c)) if U[i] <= t + 1e-12)
        d = [[self.c[i][0] * self.c[i][2], self.c[i][1] * self.c[i][2], self.c[i][2]] for i in range(j - p, j + 1)]
        for r in range(1, p + 1):
            for m in range(p, r - 1, -1):
                i = j - p + m
                a = (t - U[i]) / (U[i + p - r + 1] - U[i])
                d[m] = [(1 - a) * u + a * v for u, v in zip(d[m - 1], d[m])]
        return d[p][0] / d[p][2], d[p][1] / d[p][2]

    def nearest(self, x, y, s):
        """(arc length, distance) of the closest curve point near s"""
        best = None
        for j in range(len(self.q) - 1):
            if abs(self.s[j] - s) > 5.0:
                continue
            a, b = self.q[j], self.q[j + 1]
            dx, dy = b[0] - a[0], b[1] - a[1]
            l = math.hypot(dx, dy)
            u = max(0.0, min(1.0, ((x - a[0]) * dx + (y - a[1]) * dy) / (l * l))) if l > 1e-12 else 0.0
            d = math.hypot(a[0] + u * dx - x, a[1] + u * dy - y)
            if best is None or d < best[1]:
                best = (self.s[j] + u * l, d, math.atan2(dy, dx))
        return best or (0.0, 1e9, 0.0)


class S15(pbt.Check):
    id = "S15"
    targets = ["esminiLib"]
    quick_cases, quick_time = 6000, 40
    thorough_cases, thorough_time = 400000, 900
    rule = ("Random trajectories (polylines through world, lane and relative positions, with and without headings, stand-still phases, travelled forwards and in reverse; clothoids; clothoid splines; NURBS), with no, relative or absolute timing, "
            "scale, time offset, initial distance offset and both following modes, assigned to one or two actors, in Init or in events, interrupted and repeated at random, with speed changes meanwhile. Position, heading, speed and the "
            "completion of the action are compared in every step with an independent evaluation of the curve. Non-trivial: a trajectory was followed for five steps or more and one was completed.")

    def prepare(self):
        self.se = capi.se()

    # ------------------------------------------------------------ generation
    def gen_poly(self, rng):
        r = lambda a, b: round(rng.uniform(a, b), 2)
        n = rng.randint(2, 6)
        h, x, y, t = r(-3.1, 3.1), r(100, 900), r(-20, 20), rng.choice([0.0, 0.0, r(0, 4)])
        lane = rng.random() < 0.25
        if lane:
            h, x, y = 0.0, r(100, 500), r(-6, 6)
        pts, exp = [], rng.random() < 0.3 and not lane
        for i in range(n):
            kind = "world" if not lane else rng.choice(["lane", "lane", "road", "relroad", "rellane"])
            if not lane and not exp and rng.random() < 0.15:
                kind = "relobj"
            pts.append(dict(k=kind, x=round(x, 3), y=round(y, 3), t=round(t, 2), dh=r(-0.3, 0.3), p=(rng.random() < 0.2)))
            d = rng.choice([r(2, 12), r(5, 40), r(30, 90)])
            if lane:
                x, y = x + d, max(-6.5, min(6.5, y + r(-2, 2)))
            else:
                h += r(-1.1, 1.1)
                x, y = x + d * math.cos(h), y + d * math.sin(h)
            t += d / rng.choice([r(3, 15), r(2, 30)]) + 0.2
            if rng.random() < 0.12:
                pts.append(dict(pts[-1], t=round(pts[-1]["t"] + r(1.5, 4), 2)))
                t += 4.0
        return dict(shape="poly", pts=pts, exp=exp and not lane, rev=exp and not lane and rng.random() < 0.35)

    def gen(self, rng):
        r = lambda a, b: round(rng.uniform(a, b), 2)
        trs = []
        for i in range(rng.randint(1, 3)):
            u = rng.random()
            if u < 0.6:
                g = self.gen_poly(rng)
            elif u < 0.75:
                t0 = rng.choice([0.0, 0.0, r(0, 4)])
                g = dict(shape="clothoid", x=r(100, 800), y=r(-20, 20), h=r(-3, 3), k=r(-0.03, 0.03), kp=round(rng.uniform(-0.0008, 0.0008), 5), L=rng.choice([r(10, 60), float(rng.randint(10, 60))]), t0=t0, t1=round(t0 + r(2, 12), 2))
            elif u < 0.9:
                t = rng.choice([0.0, 0.0, r(0, 3)])
                segs = []
                for j in range(rng.randint(1, 4)):
                    k0 = rng.choice([None, r(-0.03, 0.03)])
                    segs.append(dict(k0=k0, k1=rng.choice([None, r(-0.03, 0.03)]), L=rng.choice([r(3, 40), float(rng.randint(2, 40))]), t=round(t, 2), dh=rng.choice([0.0, 0.0, r(-0.3, 0.3)])))
                    t += r(0.8, 6)
                g = dict(shape="spline", x=r(100, 800), y=r(-20, 20), h=r(-3, 3), segs=segs, t1=round(t, 2), start=rng.random() < 0.7)
            else:
                n = rng.randint(3, 6)
                g = dict(shape="nurbs", order=rng.choice([2, 3, 3, 4]), pts=[], rel=rng.random() < 0.3)
                x, y, h = r(100, 800), r(-20, 20), r(-3, 3)
                for j in range(n):
                    g["pts"].append([round(x, 2), round(y, 2), rng.choice([1.0, 1.0, r(0.4, 2)])])
                    h += r(-0.9, 0.9)
                    d = r(8, 30)
                    x, y = x + d * math.cos(h), y + d * math.sin(h)
            g["mode"] = rng.choice(["follow", "position"])
            g["dom"] = "none" if g["shape"] == "nurbs" else rng.choice(["none", "none", "relative", "absolute", "relative"])
            g["scale"], g["off"] = rng.choice([1.0, 1.0, r(0.4, 2.5)]), rng.choice([0.0, 0.0, r(-2, 3)])
            g["d0"] = rng.choice([0.0, 0.0, 0.0, r(0, 30)])
            g["two"] = rng.random() < 0.35
            trs.append(g)
        dts = rng.choice([[0.1], [0.05], [0.02, 0.1, 0.2], [0.3]])
        steps = []
        for j in range(rng.randint(20, 120)):
            s = dict(dt=rng.choice(dts))
            if (j == 0 and rng.random() < 0.5) or rng.random() < 0.05:
                s["go"] = rng.randrange(len(trs))
            elif rng.random() < 0.03:
                s["v"] = rng.randrange(3)
            steps.append(s)
        return dict(trs=trs, steps=steps, v=[r(2, 30), r(2, 30)], vs=[r(1, 40) for _ in range(3)], back=rng.random() < 0.15, vr=rng.choice([0.0, r(0, 9)]), ref=[r(100, 500), rng.choice([-2, -1, 1, 2]), r(-1, 1), r(-0.4, 0.4)],
                    init=rng.choice([None, None, rng.randrange(len(trs))]), filt=rng.random() < 0.5)

    # ------------------------------------------------------------ documents
    def lane(self, y):
        lane = int(math.floor(abs(y) / 3.5)) + 1
        lane = lane if y > 0 else -lane
        return lane, y - (abs(lane) - 0.5) * 3.5 * (1 if lane > 0 else -1)

    def corners(self, P, mode):
        for a, b in zip(P, P[1:]):
            if 1e-9 < math.hypot(b[0] - a[0], b[1] - a[1]) < 0.5:
                raise Discard("close")
        if all(math.hypot(b[0] - P[0][0], b[1] - P[0][1]) < 2.0 for b in P):
            raise Discard("short")
        c = Poly(P, mode, 0.0)
        for a, b in zip(c.ht, c.ht[1:]):
            if abs(wrap(b - a)) > 1.2:
                raise Discard("corner")
        return c.ht

    def shape_xml(self, g, case):
        """Shape XML and a function (object speed, object pose) -> curve model"""
        q = case["ref"]
        ry = (abs(q[1]) - 0.5) * 3.5 * (1 if q[1] > 0 else -1) + q[2]
        rh = (math.pi if q[1] > 0 else 0.0) + q[3]
        ok = lambda v, a, b: isinstance(v, (int, float)) and a <= v <= b
        if g["shape"] == "poly":
            P, xml = [], ""
            if len(g["pts"]) < 2:
                raise Discard("pts")
            for i, p in enumerate(g["pts"]):
                if not (ok(p["x"], -1500, 2500) and ok(p["y"], -600, 600) and ok(p["t"], 0, 200)):
                    raise Discard("pt")
                P.append([p["x"], p["y"], p["t"], None])
                if i and p["t"] - P[-2][2] < (1.3 if P[-1][:2] == P[-2][:2] else 0.15):
                    raise Discard("time")
            hh = self.corners(P, g["mode"])
            rel = []
            for i, p in enumerate(g["pts"]):
                same = i and P[i][:2] == P[i - 1][:2]
                if g["exp"]:
                    P[i][3] = P[i - 1][3] if same else round(hh[i] + p["dh"] + (math.pi if g["rev"] else 0.0), 4)
                x, y = p["x"], p["y"]
                lane, off = self.lane(y)
                k = p["k"]
                if same and k != g["pts"][i - 1]["k"]:
                    raise Discard("same")
                if k == "world":
                    d = dict(k="world", x=x, y=y, h=P[i][3])
                elif k in ("lane", "road", "relroad", "rellane"):
                    if abs(y) > 6.9 or min(abs(y) % 3.5, 3.5 - abs(y) % 3.5) < 0.01 or not 1 < x < 2900 or g["exp"]:
                        raise Discard("lane")
                    order = [-2, -1, 1, 2]
                    d = dict(lane=dict(k="lane", road="1", lane=lane, s=x, off=off), road=dict(k="road", road="1", s=x, t=y), relroad=dict(k="relroad", ref="Ref", ds=x - q[0], dt=y - ry),
                             rellane=dict(k="rellane", ref="Ref", dlane=order.index(lane) - order.index(q[1]), ds=x - q[0], off=off))[k]
                    rel.append((i, k, d))
                else:
                    dx, dy = x - q[0], y - ry
                    d = dict(k="relobj", ref="Ref", dx=math.cos(rh) * dx + math.sin(rh) * dy, dy=-math.sin(rh) * dx + math.cos(rh) * dy)
                    if g["exp"]:
                        raise Discard("relobj")
                    rel.append((i, k, d))
                xml += osc.tag("Vertex", dict(time=p["t"]), osc.position(d))

            def mkp(v, pose, ref):
                Q = [list(p) for p in P]
                for i, k, d in rel:
                    if k == "relobj":
                        Q[i][:2] = ref.x + math.cos(ref.h) * d["dx"] - math.sin(ref.h) * d["dy"], ref.y + math.sin(ref.h) * d["dx"] + math.cos(ref.h) * d["dy"]
                    elif k == "relroad":
                        Q[i][:2] = ref.x + d["ds"], ref.y + d["dt"]
                    elif k == "rellane":
                        Q[i][0] = ref.x + d["ds"]
                    if not (1 < Q[i][0] < 2900 or k == "relobj") or (k == "relroad" and abs(Q[i][1]) > 6.9):
                        raise Discard("off road")
                self.corners(Q, g["mode"])
                return Poly([tuple(p) for p in Q], g["mode"], v)
            return osc.tag("Polyline", None, xml), mkp
        if g["shape"] == "clothoid":
            if not (ok(g["L"], 3, 100) and ok(abs(g["k"]), 0, 0.05) and ok(abs(g["kp"]), 0, 0.002) and ok(g["t0"], 0, 50) and g["t1"] - g["t0"] > 0.5):
                raise Discard("clothoid")
            xml = osc.tag("Clothoid", dict(curvature=g["k"], curvaturePrime=g["kp"], length=g["L"], startTime=g["t0"], stopTime=g["t1"]), osc.position(dict(k="world", x=g["x"], y=g["y"], h=g["h"])))
            return xml, lambda v, pose, ref: Cloth([(g["x"], g["y"], g["h"], g["k"], g["kp"], g["L"], g["t0"])], g["t1"], 2e-3)
        if g["shape"] == "spline":
            xml, ks, prev = "", [], 0.0
            for i, s in enumerate(g["segs"]):
                if not (ok(s["L"], 1.0, 60) and all(v is None or abs(v) <= 0.05 for v in (s["k0"], s["k1"])) and abs(s["dh"]) <= 0.4):
                    raise Discard("seg")
                nt = g["segs"][i + 1]["t"] if i + 1 < len(g["segs"]) else g["t1"]
                if nt - s["t"] < 0.4 or s["t"] < 0:
                    raise Discard("t")
                k0 = prev if s["k0"] is None else s["k0"]
                k1 = k0 if s["k1"] is None else s["k1"]
                prev = k1
                ks.append((k0, (k1 - k0) / s["L"]))
                xml += osc.tag("Segment", dict(curvatureStart=s["k0"], curvatureEnd=s["k1"], length=s["L"], hOffset=s["dh"], timeStart=s["t"]),
                               osc.position(dict(k="world", x=g["x"], y=g["y"], h=g["h"])).replace("Position>", "PositionStart>", 1).replace("</Position>", "</PositionStart>") if i == 0 and g["start"] else "")
            if not g["segs"]:
                raise Discard("segs")

            def mk(v, pose, ref):
                x, y, h = (g["x"], g["y"], g["h"]) if g["start"] else pose
                L = []
                for s, (k, kp) in zip(g["segs"], ks):
                    h += s["dh"]
                    L.append((x, y, h, k, kp, s["L"], s["t"]))
                    x, y, h = clothoid(x, y, h, k, kp, s["L"])
                c = Cloth(L, g["t1"], 0.03)
                c.htol = 5e-3
                c.kinks = [c.s[i] for i in range(1, len(L)) if g["segs"][i]["dh"]]
                return c
            return osc.tag("ClothoidSpline", dict(timeEnd=g["t1"]), xml), mk
        n, o = len(g["pts"]), g["order"]
        if n < o or o < 2 or any(not (0.3 <= p[2] <= 3) for p in g["pts"]):
            raise Discard("nurbs")
        hd = [math.atan2(b[1] - a[1], b[0] - a[0]) for a, b in zip(g["pts"], g["pts"][1:])]
        if any(math.hypot(b[1] - a[1], b[0] - a[0]) < 5 for a, b in zip(g["pts"], g["pts"][1:])) or any(abs(wrap(b - a)) > 1.0 for a, b in zip(hd, hd[1:])):
            raise Discard("nurbs")
        kn = [0.0] * o + [float(j) for j in range(1, n - o + 1)] + [float(n - o + 1)] * o
        xml = osc.tag("Nurbs", dict(order=o), *([osc.tag("ControlPoint", dict(weight=p[2]), osc.position(dict(k="relworld", ref="Ref", dx=p[0] - q[0], dy=p[1] - ry) if g.get("rel") else dict(k="world", x=p[0], y=p[1]))) for p in g["pts"]] + [osc.tag("Knot", dict(value=v)) for v in kn]))
        m = []

        def mkn(v, pose, ref):
            if not m:
                m.append(Nurbs(g["pts"], o, kn))
            c = copy.copy(m[0])
            if g.get("rel"):
                c.q = [(a + ref.x - q[0], b + ref.y - ry) for a, b in c.q]
            return c
        return xml, mkn

    def action_xml(self, i, g, sh):
        t = osc.tag("None") if g["dom"] == "none" else osc.tag("Timing", dict(domainAbsoluteRelative=g["dom"], scale=g["scale"], offset=g["off"]))
        return osc.tag("RoutingAction", None, osc.tag("FollowTrajectoryAction", dict(initialDistanceOffset=g["d0"] or None), osc.tag("TrajectoryRef", None, osc.tag("Trajectory", dict(name="tr%d" % i, closed=False), osc.tag("Shape", None, sh))),
                       osc.tag("TimeReference", None, t), osc.tag("TrajectoryFollowingMode", dict(followingMode=g["mode"]))))

    # ------------------------------------------------------------ run
    def run(self, case, env):
        try:
            trs, mk, xs = case["trs"], [], []
            q = case["ref"]
            if q[1] not in (-2, -1, 1, 2) or abs(q[2]) > 1.2 or not trs or not 0 <= case["vr"] <= 10 or len(case["v"]) != 2 or len(case["vs"]) != 3 or not all(0.5 <= v <= 45 for v in case["v"] + case["vs"]):
                raise Discard("ref")
            for i, g in enumerate(trs):
                if not (0.3 <= g["scale"] <= 3 and abs(g["off"]) <= 4 and 0 <= g["d0"] <= 40) or g["mode"] not in ("follow", "position") or g["dom"] not in ("none", "relative", "absolute"):
                    raise Discard("par")
                x, f = self.shape_xml(g, case)
                class O:
                    pass
                R = O()
                R.x, R.y, R.h = q[0], (abs(q[1]) - 0.5) * 3.5 * (1 if q[1] > 0 else -1) + q[2], (math.pi if q[1] > 0 else 0.0) + q[3]
                c = f(1.0, (0, 0, 0), R)
                if g["d0"] > c.L - 0.5 or (g["dom"] != "none" and g["d0"] and (g["shape"] != "poly" or g["mode"] == "follow")):
                    g = trs[i] = dict(g, d0=0.0)
                if g["shape"] == "nurbs" and g["dom"] != "none":
                    raise Discard("nurbs")
                xs.append(self.action_xml(i, g, x))
                mk.append(f)
            if any(s["dt"] <= 1e-3 or s["dt"] > 0.5 for s in case["steps"]) or len(case["v"]) != 2:
                raise Discard("dt")
        except (KeyError, TypeError, IndexError):
            raise Discard("invalid")
        groups = [[], []]
        for i, v in enumerate(case["vs"]):
            groups[0].append(dict(name="v%d" % i, prio="parallel", max=1000, start=[[dict(k="var", name="cv%d" % i, ref="go", value=100 + i, rule="equalTo", edge="none")]],
                                  actions=[dict(k="speed", name="sp%d" % i, v=-v if case["back"] else v, dyn=dict(shape="step"))]))
        for i, g in enumerate(trs):
            groups[1 if g["two"] else 0].append(dict(name="e%d" % i, prio="parallel", max=1000, start=[[dict(k="var", name="c%d" % i, ref="go", value=i, rule="equalTo", edge="none")]], actions=[dict(k="raw", name="a%d" % i, xml=xs[i])]))
        groups[0].append(dict(name="keep", prio="parallel", max=1, start=[[dict(k="time", name="never", value=1e9, rule="greaterThan")]], actions=[dict(k="user", name="ua")]))
        sg = -1.0 if case["back"] else 1.0
        ini = lambda v, s, l, o, h=0.0: [dict(k="teleport", pos=dict(k="lane", road="1", lane=l, s=s, off=o, o=dict(type="relative", h=h))), dict(k="speed", v=v, dyn=dict(shape="step"))]
        init = dict(Ref=ini(case["vr"], q[0], q[1], q[2], q[3]), Ego=ini(sg * case["v"][0], 450.0, -1, 0.0), Other=ini(case["v"][1], 400.0, -2, 0.0))
        if case["init"] is not None:
            if not (isinstance(case["init"], int) and 0 <= case["init"] < len(trs)):
                raise Discard("init")
            init["Ego"].append(dict(k="raw", xml=xs[case["init"]]))
        mgs = [osc.simple_story(groups[0], ["Ego"], "st0"), osc.simple_story(groups[1], ["Ego", "Other"], "st1")] if groups[1] else [osc.simple_story(groups[0], ["Ego"], "st0")]
        x = osc.scenario(dict(vars=[["go", "integer", -1]], entities=[osc.vehicle("Ego"), osc.vehicle("Other"), osc.vehicle("Ref")], init=init, stories=mgs))
        rd = road(0.0, 2, 2, 3.5, 0.0).replace('length="900"', 'length="3000"')
        S = sim.Sim(self.se, env, x, rd, elems=True, opts=[] if case["filt"] else [("traj_filter", "0.0")])
        if S.rc != 0:
            raise Violation("init", "the scenario was rejected")
        se, T = self.se, 0.0
        ids = {n: S.id(n) for n in ("Ego", "Other", "Ref")}
        st = {n: S.state(i) for n, i in ids.items()}
        cur = dict(Ego=None, Other=None)
        S.take()
        self.stat = [0, 0]
        self.strict = bool(case.get("strict"))
        if case["init"] is not None:
            g = trs[case["init"]]
            if not self.modelled(g, sg * case["v"][0]) or (g["shape"] == "spline" and not g["start"] and case["back"]):
                raise Discard("init")
            c = cur["Ego"] = self.start(case["init"], g, mk, sg * case["v"][0], (450.0, -1.75, 0.0), -1, st["Ref"])
            self.advance(c, g, 0.0, 0.0, sg * case["v"][0])
            self.verify(c, st["Ego"], st["Ego"], "after init", 0.0)
            if c["end"]:
                cur["Ego"] = None
        for n, s in enumerate(case["steps"]):
            dt, go, vi = s["dt"], s.get("go"), s.get("v")
            if go is not None and not (isinstance(go, int) and 0 <= go < len(trs)) or vi is not None and not (isinstance(vi, int) and 0 <= vi < 3):
                raise Discard("go")
            timed = any(c and trs[c["i"]]["dom"] != "none" for c in cur.values())
            if go is not None:
                vi = None
            if vi is not None and timed:
                vi = None
            se.SE_SetVariableInt(b"go", 100 + vi if vi is not None else -1 if go is None else go)
            evrun = go is not None and any(c and c["i"] == go and c["ev"] for c in cur.values())
            nstart = 0
            if go is not None and not evrun:
                for who in ("Ego", "Other") if trs[go]["two"] else ("Ego",):
                    o = st[who]
                    if not self.modelled(trs[go], o.speed):
                        return self.info(case, n)
                    if trs[go]["shape"] == "spline" and not trs[go]["start"] and (abs(o.y) > 7 or case["back"]):
                        return self.info(case, n)
                    try:
                        cur[who] = self.start(go, trs[go], mk, o.speed, (o.x, o.y, o.h), n, st["Ref"])
                    except Discard:
                        return self.info(case, n)
                    nstart += 1
            S.step(dt)
            ch = S.take()
            starts = [e[0] for e in ch if e[1] == 7 and e[2] == 2 and e[0].startswith("a")]
            ends = [e[0] for e in ch if e[1] == 7 and e[2] == 3 and e[0].startswith("a")]
            if starts != ["a%d" % go] * nstart if nstart else starts:
                raise Violation("start", "step %d: actions %s started, expected %d" % (n, starts, nstart))
            nend = {}
            for who in ("Ego", "Other"):
                o = S.state(ids[who])
                c = cur[who]
                if c:
                    g = trs[c["i"]]
                    v = o.speed if g["dom"] == "none" else st[who].speed
                    if g["dom"] == "none" and who == "Ego" and vi is not None:
                        e = case["vs"][vi] * sg
                        if abs(e - o.speed) > 1e-9:
                            raise Violation("speed", "step %d: speed %g while following a trajectory without timing, set to %g" % (n, o.speed, e))
                    elif g["dom"] == "none" and abs(o.speed - st[who].speed) > 1e-9:
                        raise Violation("speed", "step %d: the speed changed from %g to %g on a trajectory without timing" % (n, st[who].speed, o.speed))
                    try:
                        self.advance(c, g, T, dt, v)
                    except Near:
                        return self.info(case, n)
                    self.verify(c, st[who], o, "%s %s %s, step %d (time %.3f), %s on trajectory %d" % (g["shape"], g["dom"], g["mode"], n, T + dt, who, c["i"]), dt)
                    if c["end"]:
                        cur[who] = None
                        if c["ev"]:
                            nend["a%d" % c["i"]] = nend.get("a%d" % c["i"], 0) + 1
                        self.stat[1] += 1
                st[who] = o
            st["Ref"] = S.state(ids["Ref"])
            got = {e: ends.count(e) for e in ends}
            # actions replaced by a new one end as well
            for e, k in nend.items():
                if got.get(e, 0) < k:
                    raise Violation("end", "step %d: action %s ended %d times, expected %d" % (n, e, got.get(e, 0), k))
            if not nstart:
                for e, k in got.items():
                    if nend.get(e, 0) != k:
                        raise Violation("end", "step %d: action %s ended %d times, expected %d" % (n, e, k, nend.get(e, 0)))
            T += dt
        S.close()
        return self.info(case, n)

    def modelled(self, g, v):
        """starting from standstill, or reversing into a timed trajectory, is left open"""
        if abs(v) < 0.3 or (g["dom"] != "none" and v < 0 and g["mode"] == "follow"):
            return False
        return not (g["dom"] == "none" and g["shape"] == "poly" and g["exp"] and (v < 0) != g["rev"])

    def info(self, case, n):
        return dict(nontrivial=self.stat[0] >= 5 and self.stat[1] > 0, checks=n + 1, classes=sorted({"%s/%s/%s" % (g["shape"], g["dom"], g["mode"]) for g in case["trs"]} | {"two" for g in case["trs"] if g["two"]} | ({"init"} if case["init"] is not None else set())),
                    stats=dict(trs=len(case["trs"]), steps=len(case["steps"]), followed=self.stat[0], ended=self.stat[1]))

    def start(self, i, g, mk, v, pose, n, ref):
        c = mk[i](v, pose, ref)
        if g["d0"] > c.L - 0.5:
            raise Discard("offset beyond the end")
        m = dict(i=i, c=c, s=g["d0"], n=0, ev=n >= 0, end=False, rest=0.0, v=None, old=g["d0"], back=(g["dom"] == "none" and v < 0 and not c.explicit))
        m["dir"] = -1.0 if v < 0 else 1.0
        m["time"] = c.time_at(g["d0"]) if g["dom"] == "relative" else 0.0
        m["strict"] = self.strict
        m["rev"] = bool(g.get("exp") and g.get("rev"))
        return m

    def advance(self, c, g, T, dt, v):
        m = c["c"]
        c["old"] = c["s"]
        c["n"] += 1
        if g["dom"] == "none":
            ds = v * dt * c["dir"]
            s = c["s"] + ds
            if isinstance(m, Nurbs) and abs(s - m.L) < 0.4 + 0.01 * m.L:
                raise Near()              # the length of the curve is approximate
            if dt > 0 and (abs(s - m.L) < 1e-5 or ds < 0 and abs(s) < 1e-5):
                raise Discard("tie")
            c["end"] = dt > 0 and (s > m.L or s < 0)
            c["s"], c["rest"] = max(0.0, min(s, m.L)), s - m.L if s > m.L else s if s < 0 else 0.0
            return
        if g["dom"] == "relative":
            c["time"] += g["scale"] * dt
        else:
            c["time"] = (T + dt) * g["scale"]
        t = c["time"] + g["off"]
        if abs(t - m.t1) < 1e-5:
            raise Discard("tie")
        c["s"] = m.s_at(t)
        c["end"] = t > m.t1
        c["rest"] = 0.0
        if c["end"]:
            c["over"] = t - m.t1

    def verify(self, c, prev, o, where, dt):
        m = c["c"]
        self.stat[0] = max(self.stat[0], c["n"])
        s = c["s"]
        if isinstance(m, Nurbs):
            if c["end"]:
                e = m.q[-1 if s > 1 else 0]
                if c["rest"] < 0:
                    if math.hypot(o.x - e[0], o.y - e[1]) > abs(c["rest"]) + 0.3 + 0.01 * m.L:
                        raise Violation("nurbs", "%s: passed the start of the curve (%g, %g) backwards and ended at (%g, %g)" % (where, e[0], e[1], o.x, o.y))
                    return
                if abs(math.hypot(o.x - e[0], o.y - e[1]) - abs(c["rest"])) > 0.3 + 0.01 * m.L:
                    raise Violation("nurbs", "%s: ended at (%g, %g), the curve ends at (%g, %g) with %g m to go" % (where, o.x, o.y, e[0], e[1], c["rest"]))
                return
            s1, d, h = m.nearest(o.x, o.y, s)
            if d > 0.02 or abs(s1 - s) > 0.3 + 0.01 * s:
                raise Violation("nurbs", "%s: at (%g, %g), %g m off the curve, arc length %g, expected %g" % (where, o.x, o.y, d, s1, s))
            return
        x, y, h = m.pose(s)
        sgn = -1.0 if c["back"] or c["rev"] else 1.0
        timed = "over" in c or c["rest"] == 0.0
        if c["end"]:
            if c["rest"] < 0:
                # passed the start backwards: stopping there or going on in the same direction are both fine
                if math.hypot(o.x - x, o.y - y) > abs(c["rest"]) + m.tol + 1e-3:
                    raise Violation("pos", "%s: at (%.4f, %.4f), passed the start (%.4f, %.4f) backwards with %g m to go" % (where, o.x, o.y, x, y, c["rest"]))
                return
            d = c["rest"] if "over" not in c else c["over"] * abs(prev.speed)
            if "over" in c:
                # the speed is kept when the end is passed
                if c["n"] > 1 and abs(o.speed - prev.speed) > 1e-4 * max(1, abs(prev.speed)):
                    raise Violation("endspeed", "%s: speed %g at the end of the trajectory, %g before" % (where, o.speed, prev.speed))
                if c["n"] <= 1:
                    return
            hd = h + (math.pi if c["rev"] else 0.0)
            x, y = x + d * math.cos(hd), y + d * math.sin(hd)
            if c["rev"] and "over" not in c and not c.get("strict") and math.hypot(o.x - x, o.y - y) > m.tol + 1e-3:
                x, y = x - 2 * d * math.cos(hd), y - 2 * d * math.sin(hd)   # listed in known_findings.json
        tol = m.tol + (1e-3 if c["end"] else 0)
        if isinstance(m, Cloth) and any(abs(s - k) < 2.0 for k in m.kinks):
            tol += 0.3                # corners between segments are cut at the sampling distance
        if math.hypot(o.x - x, o.y - y) > tol:
            raise Violation("pos", "%s: at (%.4f, %.4f), expected (%.4f, %.4f) at %.4f of %.4f m%s" % (where, o.x, o.y, x, y, s, m.L, ", ended" if c["end"] else ""))
        if not c["end"] and m.hclear(s):
            e = h + (math.pi if c["back"] else 0.0)
            if abs(wrap(o.h - e)) > m.htol:
                raise Violation("heading", "%s: heading %.5f, expected %.5f" % (where, o.h % TAU, e % TAU))
        if self.timing(c) and not c["end"] and dt > 1e-6 and c["n"] > 1:
            v = (s - c["old"]) / dt * sgn
            if abs(o.speed - v) > 1e-3 + 1e-4 * abs(v):
                raise Violation("vel", "%s: speed %.5f, travelled %.5f m in %g s" % (where, o.speed, s - c["old"], dt))

    def timing(self, c):
        return c["time"] != 0.0


CHECK = S15
