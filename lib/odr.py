"""OpenDRIVE road networks: JSON model, generators, XML writer and an independent reference evaluator.

road = {id, name?, rule?, junction?, start:[x,y,h], geoms:[...], elev:[[s,a,b,c,d]], sup:[...], off:[...],
        secs:[{len, lanes:[{id,type,w:[[so,a,b,c,d]],hgt:[[so,inner,outer]],pred,succ,...}]}], types:[[s,type,max,unit]],
        pred/succ: {type:'road'|'junction', id, cp:'start'|'end'}, signals:[...]}
geom = {t:'line',l} | {t:'arc',l,k} | {t:'spiral',l,k0,k1} | {t:'poly3',l,a..} | {t:'pp3',...}
Section s values come from the cumulated lens (scaled to the road's length by 'frac').
"""
import math
from functools import lru_cache

LANE_TYPES = {"none": 1, "driving": 2, "stop": 4, "shoulder": 8, "biking": 16, "sidewalk": 32, "border": 64, "restricted": 128,
              "parking": 256, "bidirectional": 512, "median": 1024, "special1": 2048, "special2": 4096, "special3": 8192,
              "roadWorks": 16384, "tram": 32768, "rail": 65536, "entry": 1 << 17, "exit": 1 << 18, "offRamp": 1 << 19,
              "onRamp": 1 << 20, "curb": 1 << 21, "connectingRamp": 1 << 22, "mwyEntry": 1 << 17, "mwyExit": 1 << 18}
ANY_DRIVING = sum(LANE_TYPES[t] for t in ("driving", "entry", "exit", "offRamp", "onRamp", "bidirectional", "connectingRamp"))
ANY_ROAD = ANY_DRIVING | sum(LANE_TYPES[t] for t in ("restricted", "stop", "shoulder", "parking"))
ROAD_TYPES = ["unknown", "rural", "motorway", "town", "lowSpeed", "pedestrian", "bicycle", "townArterial", "townCollector",
              "townExpressway", "townLocal", "townPlayStreet", "townPrivate"]

_GL_X, _GL_W = None, None


def _gl():
    global _GL_X, _GL_W
    if _GL_X is None:
        import numpy as np
        x, w = np.polynomial.legendre.leggauss(12)
        _GL_X, _GL_W = list(map(float, x)), list(map(float, w))
    return _GL_X, _GL_W


_gl()


def integrate(f, a, b, n):
    """composite Gauss-Legendre"""
    xs, ws = _gl()
    tot, h = 0.0, (b - a) / n
    for i in range(n):
        m = a + (i + 0.5) * h
        for x, w in zip(xs, ws):
            tot += w * f(m + 0.5 * h * x)
    return tot * 0.5 * h


def poly(c, x):
    return ((c[3] * x + c[2]) * x + c[1]) * x + c[0]


def dpoly(c, x):
    return (3 * c[3] * x + 2 * c[2]) * x + c[1]


def ddpoly(c, x):
    return 6 * c[3] * x + 2 * c[2]


class Geom:
    """Local evaluation at distance ds from the start: (u, v, heading, curvature)"""

    def __init__(self, g):
        self.g, self.t = g, g["t"]
        if self.t == "pp3":
            # normalized polynomials U(p), V(p), p in [0,1]
            self.U, self.V = g["U"], g["V"]
            self.N = 64
            acc = [0.0]
            sp = lambda p: math.hypot(dpoly(self.U, p), dpoly(self.V, p))
            for i in range(self.N):
                acc.append(acc[-1] + integrate(sp, i / self.N, (i + 1) / self.N, 1))
            self.acc, self.l = acc, acc[-1]
        elif self.t == "poly3":
            self.P = g["P"]
            self.umax = g["u"]
            self.N = 64
            sp = lambda u: math.hypot(1.0, dpoly(self.P, u))
            acc = [0.0]
            for i in range(self.N):
                acc.append(acc[-1] + integrate(sp, i * self.umax / self.N, (i + 1) * self.umax / self.N, 1))
            self.acc, self.l = acc, acc[-1]
        else:
            self.l = g["l"]

    def _param(self, ds, speed, pmax):
        """invert arc length"""
        ds = min(max(ds, 0.0), self.l)
        lo, hi = 0, self.N
        while hi - lo > 1:
            m = (lo + hi) // 2
            if self.acc[m] <= ds:
                lo = m
            else:
                hi = m
        p0 = lo * pmax / self.N
        p = p0 + (ds - self.acc[lo]) / max(speed(p0), 1e-9)
        for _ in range(20):
            f = self.acc[lo] + integrate(speed, p0, p, 1) - ds
            step = f / max(speed(p), 1e-9)
            p -= step
            if abs(step) < 1e-14:
                break
        return p

    def local(self, ds):
        t, g = self.t, self.g
        if t == "line":
            return ds, 0.0, 0.0, 0.0
        if t == "arc":
            k = g["k"]
            if abs(k) < 1e-15:
                return ds, 0.0, 0.0, k
            return math.sin(k * ds) / k, (1 - math.cos(k * ds)) / k, k * ds, k
        if t == "spiral":
            k0, kd = g["k0"], (g["k1"] - g["k0"]) / self.l
            th = lambda s: k0 * s + 0.5 * kd * s * s
            n = max(2, int(abs(th(ds)) * 2 + (abs(k0) + abs(kd) * ds) * ds) + 2)
            return (integrate(lambda s: math.cos(th(s)), 0, ds, n), integrate(lambda s: math.sin(th(s)), 0, ds, n), th(ds), k0 + kd * ds)
        if t == "pp3":
            U, V = self.U, self.V
            sp = lambda p: math.hypot(dpoly(U, p), dpoly(V, p))
            p = self._param(ds, sp, 1.0)
            du, dv = dpoly(U, p), dpoly(V, p)
            k = (du * ddpoly(V, p) - dv * ddpoly(U, p)) / (du * du + dv * dv) ** 1.5
            return poly(U, p), poly(V, p), math.atan2(dv, du), k
        if t == "poly3":
            P = self.P
            sp = lambda u: math.hypot(1.0, dpoly(P, u))
            u = self._param(ds, sp, self.umax)
            d = dpoly(P, u)
            return u, poly(P, u), math.atan(d), ddpoly(P, u) / (1 + d * d) ** 1.5
        raise ValueError(t)

    def xml(self):
        g = self.g
        if self.t == "line":
            return "<line/>"
        if self.t == "arc":
            return '<arc curvature="%r"/>' % g["k"]
        if self.t == "spiral":
            return '<spiral curvStart="%r" curvEnd="%r"/>' % (g["k0"], g["k1"])
        if self.t == "poly3":
            return '<poly3 a="%r" b="%r" c="%r" d="%r"/>' % tuple(self.P)
        U, V = list(self.U), list(self.V)
        attr = ' pRange="normalized"' if g.get("range") == "normalized" else ""
        if g.get("range") == "arcLength":
            attr = ' pRange="arcLength"'
            U = [c / self.l ** i for i, c in enumerate(U)]
            V = [c / self.l ** i for i, c in enumerate(V)]
        return '<paramPoly3 aU="%r" bU="%r" cU="%r" dU="%r" aV="%r" bV="%r" cV="%r" dV="%r"%s/>' % (*U, *V, attr)


def piecewise(recs, s):
    """Value and derivative of a piecewise cubic [[s0,a,b,c,d],...] (0 before the first / with no record)"""
    cur = None
    for r in recs or []:
        if s >= r[0]:
            cur = r
    if cur is None:
        return 0.0, 0.0
    return poly(cur[1:], s - cur[0]), dpoly(cur[1:], s - cur[0])


class Road:
    def __init__(self, r):
        self.r = r
        self.id = str(r["id"])
        self.geoms = [Geom(g) for g in r["geoms"]]
        self.length = sum(g.l for g in self.geoms)
        x, y, h = r.get("start") or [0.0, 0.0, 0.0]
        self.poses, s = [], 0.0
        for g in self.geoms:
            self.poses.append((s, x, y, h))
            u, v, dh, _ = g.local(g.l)
            x, y, h = x + u * math.cos(h) - v * math.sin(h), y + u * math.sin(h) + v * math.cos(h), h + dh
            s += g.l
        self.end = (x, y, h)
        # lane sections: 's' fractions of the length
        self.secs = []
        for sec in r["secs"]:
            self.secs.append((sec["f"] * self.length, sec))
        self.rule = r.get("rule")
        self.elev = [[e[0] * self.length] + e[1:] for e in r.get("elev") or []]
        self.sup = [[e[0] * self.length] + e[1:] for e in r.get("sup") or []]
        self.off = [[e[0] * self.length] + e[1:] for e in r.get("off") or []]
        self.types = [[e[0] * self.length] + e[1:] for e in r.get("types") or []]
        if r.get("cont"):           # continuous profiles: value and slope taken over from the previous record
            for recs in (self.elev, self.sup, self.off):
                for p, q in zip(recs, recs[1:]):
                    q[1], q[2] = poly(p[1:], q[0] - p[0]), dpoly(p[1:], q[0] - p[0])

    def lht(self):
        return self.rule in ("LHT", "lht")

    # -- reference line
    def geom_idx(self, s):
        i = 0
        for j, (gs, *_r) in enumerate(self.poses):
            if s >= gs:
                i = j
        return i

    def refline(self, s):
        i = self.geom_idx(s)
        gs, x, y, h = self.poses[i]
        u, v, dh, k = self.geoms[i].local(min(max(s - gs, 0.0), self.geoms[i].l))
        return x + u * math.cos(h) - v * math.sin(h), y + u * math.sin(h) + v * math.cos(h), h + dh, k

    def breaks(self):
        """all s values where some record starts, plus the ends"""
        out = [0.0, self.length] + [p[0] for p in self.poses] + [e[0] for e in self.elev + self.sup + self.off + self.types]
        for s0, sec in self.secs:
            out.append(s0)
            for ln in sec["lanes"]:
                for w in ln.get("w") or []:
                    out.append(s0 + w[0])
                for w in ln.get("hgt") or []:
                    out.append(s0 + w[0])
        return out

    # -- lanes
    def sec_idx(self, s):
        i = 0
        for j, (s0, _) in enumerate(self.secs):
            if s >= s0:
                i = j
        return i

    def lane(self, s, lid, si=None):
        s0, sec = self.secs[self.sec_idx(s) if si is None else si]
        for ln in sec["lanes"]:
            if ln["id"] == lid:
                return s0, ln
        return s0, None

    def lane_ids(self, s):
        return sorted((ln["id"] for ln in self.secs[self.sec_idx(s)][1]["lanes"]), reverse=True)

    def width(self, s, lid, si=None):
        """width and its derivative"""
        if lid == 0:
            return 0.0, 0.0
        s0, ln = self.lane(s, lid, si)
        if ln is None:
            return 0.0, 0.0
        return piecewise(ln["w"], s - s0)

    def center_t(self, s, lid, si=None):
        """lateral position of the lane center and its derivative"""
        o, do = piecewise(self.off, s)
        if lid == 0:
            return o, do
        sg = 1 if lid > 0 else -1
        w, dw = self.width(s, lid, si)
        t, dt = 0.5 * w, 0.5 * dw
        for k in range(1, abs(lid)):
            w, dw = self.width(s, sg * k, si)
            t, dt = t + w, dt + dw
        return o + sg * t, do + sg * dt

    def height(self, s, lid, offset, si=None):
        s0, ln = self.lane(s, lid, si)
        if ln is None or not ln.get("hgt"):
            return 0.0
        H, ds = ln["hgt"], s - s0
        i = 0
        for j, h in enumerate(H):
            if ds >= h[0]:
                i = j
        inner, outer = H[i][1], H[i][2]
        if i + 1 < len(H) and ds >= H[i][0]:
            f = (ds - H[i][0]) / (H[i + 1][0] - H[i][0])
            inner += f * (H[i + 1][1] - inner)
            outer += f * (H[i + 1][2] - outer)
        w, _ = self.width(s, lid, si)
        sg = 1 if lid > 0 else -1
        f = min(max((offset * sg + 0.5 * w) / w, 0.0), 1.0) if w > 1e-9 else 0.0
        return inner + f * (outer - inner)

    def pose(self, s, t, zlane=0.0):
        """world position of a point at (s, t) and the road's orientation there"""
        x, y, h, k = self.refline(s)
        z, dz = piecewise(self.elev, s)
        roll, droll = piecewise(self.sup, s)
        pitch = -math.atan(dz)
        R = rotmat(h, pitch, roll)
        v = [R[i][1] * t + R[i][2] * zlane for i in range(3)]
        return dict(x=x + v[0], y=y + v[1], z=z + v[2], h=h, p=pitch, r=roll, k=k, droll=droll, dz=dz)

    def xml(self):
        r = self.r
        o = ['<road name="%s" length="%r" id="%s" junction="%s"%s>' % (r.get("name") or "", self.length, self.id, r.get("junction", "-1") if r.get("junction") is not None else "-1",
                                                                   (' rule="%s"' % self.rule) if self.rule else "")]
        o.append("<link>")
        for tag, key in (("predecessor", "pred"), ("successor", "succ")):
            ln = r.get(key)
            if ln:
                cp = ' contactPoint="%s"' % ln["cp"] if ln.get("cp") else ""
                o.append('<%s elementType="%s" elementId="%s"%s/>' % (tag, ln["type"], ln["id"], cp))
        o.append("</link>")
        for s, typ, mx, unit in self.types:
            o.append('<type s="%r" type="%s">' % (s, typ))
            if mx is not None:
                o.append('<speed max="%r"%s/>' % (mx, ' unit="%s"' % unit if unit else ""))
            o.append("</type>")
        o.append("<planView>")
        for (s, x, y, h), g in zip(self.poses, self.geoms):
            o.append('<geometry s="%r" x="%r" y="%r" hdg="%r" length="%r">%s</geometry>' % (s, x, y, h, g.l, g.xml()))
        o.append("</planView>")
        if self.elev:
            o.append("<elevationProfile>" + "".join('<elevation s="%r" a="%r" b="%r" c="%r" d="%r"/>' % tuple(e) for e in self.elev) + "</elevationProfile>")
        if self.sup:
            o.append("<lateralProfile>" + "".join('<superelevation s="%r" a="%r" b="%r" c="%r" d="%r"/>' % tuple(e) for e in self.sup) + "</lateralProfile>")
        o.append("<lanes>")
        o += ['<laneOffset s="%r" a="%r" b="%r" c="%r" d="%r"/>' % tuple(e) for e in self.off]
        for s0, sec in self.secs:
            o.append('<laneSection s="%r">' % s0)
            for side, pick in (("left", lambda i: i > 0), ("center", lambda i: i == 0), ("right", lambda i: i < 0)):
                lanes = sorted((l for l in sec["lanes"] if pick(l["id"])), key=lambda l: -l["id"])
                if side == "center" and not lanes:
                    lanes = [dict(id=0, type="none")]
                if not lanes:
                    continue
                o.append("<%s>" % side)
                for l in lanes:
                    o.append('<lane id="%d" type="%s" level="false">' % (l["id"], l.get("type") or "none"))
                    lk = ""
                    if l.get("pred") is not None:
                        lk += '<predecessor id="%d"/>' % l["pred"]
                    if l.get("succ") is not None:
                        lk += '<successor id="%d"/>' % l["succ"]
                    o.append("<link>%s</link>" % lk if l["id"] != 0 or lk else "")
                    for w in l.get("w") or []:
                        o.append('<width sOffset="%r" a="%r" b="%r" c="%r" d="%r"/>' % tuple(w))
                    for rm in l.get("rm") or []:
                        o.append('<roadMark sOffset="%r" type="%s" weight="standard" color="standard" width="0.12" laneChange="%s"/>' % tuple(rm))
                    for hh in l.get("hgt") or []:
                        o.append('<height sOffset="%r" inner="%r" outer="%r"/>' % tuple(hh))
                    o.append("</lane>")
                o.append("</%s>" % side)
            o.append("</laneSection>")
        o.append("</lanes>")
        if r.get("objects_xml"):
            o.append(r["objects_xml"])
        if r.get("signals"):
            o.append("<signals>")
            for sg in r["signals"]:
                o.append('<signal s="%r" t="%r" id="%s" name="%s" dynamic="%s" orientation="%s" zOffset="%r" country="%s" type="%s" subtype="%s" value="%r" height="%r" width="%r" hOffset="%r" pitch="0" roll="0"%s>' % (
                    sg["f"] * self.length, sg["t"], sg["id"], sg["name"], "yes" if sg.get("dyn") else "no", sg["ori"], sg["z"], sg.get("country", "se"), sg.get("type", "1"),
                    sg.get("sub", "1"), sg.get("val", 0.0), sg["height"], sg["width"], sg.get("ho", 0.0), (' length="%r"' % sg["length"]) if sg.get("length") is not None else ""))
                for v in sg.get("valid") or []:
                    o.append('<validity fromLane="%d" toLane="%d"/>' % tuple(v))
                o.append("</signal>")
            o.append("</signals>")
        o.append("</road>")
        return "\n".join(x for x in o if x)


class Network:
    def __init__(self, net):
        self.net = net
        self.roads = [Road(r) for r in net["roads"]]
        self.by_id = {r.id: r for r in self.roads}

    def xml(self):
        o = ['<?xml version="1.0" standalone="yes"?>', "<OpenDRIVE>",
             '<header revMajor="1" revMinor="6" name="" version="1.00" date="x" north="0" south="0" east="0" west="0">']
        if self.net.get("geo"):
            o.append("<geoReference><![CDATA[%s]]></geoReference>" % self.net["geo"])
        if self.net.get("offset"):
            o.append('<offset x="%r" y="%r" z="%r" hdg="%r"/>' % tuple(self.net["offset"]))
        o.append("</header>")
        for r in self.roads:
            o.append(r.xml())
        for c in self.net.get("controllers") or []:
            o.append('<controller name="%s" id="%s">%s</controller>' % (c["name"], c["id"], "".join('<control signalId="%s" type=""/>' % s for s in c["signals"])))
        for j in self.net.get("junctions") or []:
            o.append('<junction name="" id="%s">' % j["id"])
            for i, c in enumerate(j["conns"]):
                o.append('<connection id="%d" incomingRoad="%s" connectingRoad="%s" contactPoint="%s">' % (i, c["inc"], c["con"], c["cp"]))
                o += ['<laneLink from="%d" to="%d"/>' % tuple(l) for l in c["links"]]
                o.append("</connection>")
            o.append("</junction>")
        o.append("</OpenDRIVE>")
        return "\n".join(o)

    def valid(self):
        """well-formedness, used to keep shrunk cases inside the domain"""
        for r in self.roads:
            if r.length < 0.2 or not r.secs or r.secs[0][0] != 0.0 or not r.id or r.id == "None":
                return False
            if any(b[0] <= a[0] for a, b in zip(r.secs, r.secs[1:])) or r.secs[-1][0] >= r.length:
                return False
            for recs in (r.elev, r.sup, r.off, r.types):
                if recs and (recs[0][0] != 0.0 or any(b[0] <= a[0] for a, b in zip(recs, recs[1:])) or recs[-1][0] >= r.length):
                    return False
            for g in r.geoms:
                if g.l < 0.05:
                    return False
            for s0, sec in r.secs:
                ids = [l["id"] for l in sec["lanes"]]
                pos, neg = [i for i in ids if i > 0], [-i for i in ids if i < 0]
                if sorted(pos) != list(range(1, len(pos) + 1)) or sorted(neg) != list(range(1, len(neg) + 1)) or not pos + neg:
                    return False
                for l in sec["lanes"]:
                    if l["id"] != 0 and (not l.get("w") or l["w"][0][0] != 0.0 or any(b[0] <= a[0] for a, b in zip(l["w"], l["w"][1:])) or not l.get("type")):
                        return False
                    h = l.get("hgt") or []
                    if any(b[0] <= a[0] for a, b in zip(h, h[1:])) or (h and h[0][0] != 0.0):
                        return False
        return len({r.id for r in self.roads}) == len(self.roads) and bool(self.roads)

    def world(self, x, y, z, h):
        """apply the header offset to a pose given in file coordinates"""
        off = self.net.get("offset")
        if not off:
            return x, y, z, h
        ox, oy, oz, oh = off
        x, y = x + ox, y + oy
        return x * math.cos(oh) - y * math.sin(oh), x * math.sin(oh) + y * math.cos(oh), z + oz, h + oh


def rotmat(h, p, r):
    ch, sh, cp, sp, cr, sr = math.cos(h), math.sin(h), math.cos(p), math.sin(p), math.cos(r), math.sin(r)
    return [[ch * cp, ch * sp * sr - sh * cr, ch * sp * cr + sh * sr],
            [sh * cp, sh * sp * sr + ch * cr, sh * sp * cr - ch * sr],
            [-sp, cp * sr, cp * cr]]


def matmul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def euler(M):
    return math.atan2(M[1][0], M[0][0]), math.atan2(-M[2][0], math.hypot(M[2][1], M[2][2])), math.atan2(M[2][1], M[2][2])


def adiff(a, b):
    """smallest angle a - b"""
    d = math.fmod(a - b, 2 * math.pi)
    if d > math.pi:
        d -= 2 * math.pi
    if d < -math.pi:
        d += 2 * math.pi
    return d


# ------------------------------------------------------------------ generators

def r3(x, n=3):
    return round(x, n)


def gen_geom(rng, kinds, maxlen=120.0, kmax=0.03, turn=1.2):
    t = rng.choice(kinds)
    l = r3(rng.choice([rng.uniform(5, 30), rng.uniform(20, maxlen), rng.uniform(0.5, 5)]), 2)
    km = min(kmax, turn / l)
    if t == "line":
        return dict(t="line", l=l)
    if t == "arc":
        k = rng.uniform(-km, km)
        return dict(t="arc", l=l, k=float("%.5g" % k) or 0.001)
    if t == "spiral":
        k0 = rng.choice([0.0, rng.uniform(-km, km)])
        k1 = rng.choice([0.0, rng.uniform(-km, km)]) if k0 else rng.uniform(-km, km)
        return dict(t="spiral", l=l, k0=float("%.5g" % k0), k1=float("%.5g" % k1))
    l = max(l, 5.0)
    if t == "poly3":
        c = rng.uniform(-1, 1) * 0.5 * min(0.004, 0.3 / l)
        d = rng.uniform(-1, 1) * 0.3 * min(0.004, 0.3 / l) / l
        return dict(t="poly3", u=l, P=[0.0, 0.0, float("%.4g" % c), float("%.4g" % d)])
    # cubic from end pose (hermite): start heading 0, end point (ex, ey), end heading eh
    eh = rng.uniform(-0.6, 0.6) * min(1.0, km * l)
    ex, ey = l * rng.uniform(0.9, 1.0), l * math.tan(eh * rng.uniform(0.3, 0.7))
    m0 = l * rng.uniform(0.85, 1.15)
    m1 = l * rng.uniform(0.85, 1.15)
    d0, d1 = (m0, 0.0), (m1 * math.cos(eh), m1 * math.sin(eh))
    U = [0.0, d0[0], 3 * ex - 2 * d0[0] - d1[0], -2 * ex + d0[0] + d1[0]]
    V = [0.0, d0[1], 3 * ey - 2 * d0[1] - d1[1], -2 * ey + d0[1] + d1[1]]
    return dict(t="pp3", U=[r3(c, 6) for c in U], V=[r3(c, 6) for c in V], range=rng.choice(["normalized", "arcLength", None]))


def approx_len(g):
    return g.get("l") or g.get("u") or math.hypot(sum(g["U"]), sum(g["V"]))


def gen_profile(rng, n, amp, slope, length, first=True):
    """piecewise cubics over fractions of the length; small slopes"""
    fr = sorted(set([0.0] + [r3(rng.uniform(0.05, 0.95), 2) for _ in range(n - 1)]))
    out = []
    for f in fr:
        seg = max(length, 1.0)
        out.append([f, r3(rng.uniform(-amp, amp), 3), r3(rng.uniform(-slope, slope), 4),
                    float("%.3g" % (rng.uniform(-slope, slope) / seg)), float("%.3g" % (rng.uniform(-slope, slope) / seg / seg))])
    return out


def gen_widths(rng, seclen, zero_ok=False):
    n = rng.choice([1, 1, 1, 2, 3])
    so = sorted(set([0.0] + [r3(rng.uniform(0.05, 0.95) * seclen, 2) for _ in range(n - 1)]))
    out = []
    for i, s in enumerate(so):
        span = (so[i + 1] if i + 1 < len(so) else seclen) - s
        a = rng.uniform(2.0, 4.5)
        if rng.random() < 0.5 or span < 1:
            out.append([s, r3(a, 3), 0.0, 0.0, 0.0])
        else:
            e = rng.uniform(2.0, 4.5)
            b, c = (e - a) / span * rng.uniform(0, 1), 0.0
            # finish with a cubic through (span, e)
            rest = e - a - b * span
            c = rest / span ** 2 * rng.uniform(0, 1)
            d = (e - a - b * span - c * span * span) / span ** 3
            out.append([s, r3(a, 3), float("%.5g" % b), float("%.5g" % c), float("%.5g" % d)])
    return out


TYPE_POOL = ["driving"] * 8 + ["shoulder", "border", "biking", "sidewalk", "parking", "entry", "exit", "onRamp", "offRamp", "bidirectional",
                               "median", "stop", "restricted", "none", "special1", "tram", "rail", "roadWorks", "curb", "connectingRamp"]


def gen_lanes(rng, seclen, nl, nr, types=TYPE_POOL, heights=0.2, allow_same=0.4):
    lanes = []
    for lid in list(range(nl, 0, -1)) + list(range(-1, -nr - 1, -1)):
        ln = dict(id=lid, type=rng.choice(types), w=gen_widths(rng, seclen))
        if rng.random() < heights:
            n = rng.choice([1, 2, 3])
            so = sorted(set([0.0] + [r3(rng.uniform(0.15, 0.95) * seclen, 2) for _ in range(n - 1)]))
            ln["hgt"] = [[s, r3(rng.uniform(-0.2, 0.3), 3), r3(rng.uniform(-0.2, 0.3), 3)] for s in so]
        lanes.append(ln)
    return lanes


def gen_road(rng, rid="0", kinds=("line", "arc", "spiral", "pp3", "poly3"), maxgeoms=5, elev=0.6, sup=0.4, off=0.4, secs=3, start=None, maxlen=120.0,
             types=TYPE_POOL, heights=0.2, rule=0.4, ttypes=0.5, turn=1.2):
    n = rng.randint(1, maxgeoms)
    geoms = [gen_geom(rng, kinds, maxlen, turn=turn / n) for _ in range(n)]
    L = sum(approx_len(g) for g in geoms)
    road = dict(id=rid, geoms=geoms)
    road["start"] = start if start is not None else [r3(rng.uniform(-500, 500), 2), r3(rng.uniform(-500, 500), 2), r3(rng.uniform(-math.pi, math.pi), 3)]
    if rng.random() < elev:
        road["elev"] = gen_profile(rng, rng.randint(1, 3), 20, 0.08, L)
    if rng.random() < sup:
        road["sup"] = gen_profile(rng, rng.randint(1, 3), 0.12, 0.0015, L)
    if rng.random() < off:
        road["off"] = gen_profile(rng, rng.randint(1, 3), 4, 0.03, L)
    fr = sorted(set([0.0] + [r3(rng.uniform(0.05, 0.95), 3) for _ in range(rng.randint(0, secs - 1))]))
    road["secs"] = []
    for i, f in enumerate(fr):
        seclen = ((fr[i + 1] if i + 1 < len(fr) else 1.0) - f) * L
        nl, nr = rng.choice([(0, 1), (1, 1), (2, 2), (1, 2), (3, 1), (0, 3), (2, 0), (4, 4), (0, 2)])
        road["secs"].append(dict(f=f, lanes=gen_lanes(rng, seclen, nl, nr, types, heights)))
    if rng.random() < rule:
        road["rule"] = rng.choice(["LHT", "RHT"])
    if rng.random() < ttypes:
        fr = sorted(set([0.0] + [r3(rng.uniform(0.05, 0.95), 2) for _ in range(rng.randint(0, 2))]))
        road["types"] = [[f, rng.choice(ROAD_TYPES), rng.choice([None, r3(rng.uniform(5, 130), 1)]), rng.choice(["km/h", "mph", "m/s"])] for f in fr]
    return road
