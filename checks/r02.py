"""R02: world coordinates -> road coordinates. A point on a road is reported on that road, at its s, t and lane."""
import math
import pbt, odr, capi
from ctypes import byref
from pbt import Violation, Discard

Z_ABS, Z_REL, H_ABS, H_REL, P_ABS, P_REL, R_ABS, R_REL = 3, 7, 3 << 4, 7 << 4, 3 << 8, 7 << 8, 3 << 12, 7 << 12


def edges(road, s):
    """leftmost and rightmost t of the lanes (all types but none)"""
    ids = road.lane_ids(s)
    o = odr.piecewise(road.off, s)[0]
    return (o + sum(road.width(s, i)[0] for i in ids if i > 0), o - sum(road.width(s, i)[0] for i in ids if i < 0))


def clearance(N, road, x, y):
    """distance from the point to the band of a road (lower bound, sampled)"""
    best = 1e9
    n = max(2, int(road.length / 2.0) + 1)
    for i in range(n + 1):
        s = min(road.length * i / n, road.length)
        rx, ry, _, _ = road.refline(s)
        best = min(best, math.hypot(rx - x, ry - y))
    return best - 1.5


class R02(pbt.Check):
    id = "R02"
    targets = ["esminiRMLib"]
    quick_cases, quick_time = 6000, 30
    thorough_cases, thorough_time = 400000, 900
    case_timeout = 20
    rule = ("Random OpenDRIVE networks (one road; several parallel roads; crossing roads on different levels) and a random history of 40 world "
            "placements through all world-placement calls and position modes on 1-2 position objects, points being generated from known road "
            "coordinates. Non-trivial: at least 8 placements compared.")
    assumptions = ["s and t are compared with tolerances covering esmini's documented sampling of the reference line (0.05 m laterally on curves)"]

    def prepare(self):
        self.rm = capi.rm()

    def gen(self, rng):
        layout = rng.choice(["one", "one", "par", "cross"])
        kinds = rng.choice([("line",), ("arc",), ("spiral",), ("line", "arc", "spiral"), ("line", "arc", "spiral", "pp3")])
        roads = []
        if layout == "one":
            roads = [odr.gen_road(rng, "1", kinds, heights=0.1)]
        elif layout == "par":
            n = rng.randint(2, 4)
            h = odr.r3(rng.uniform(-3.1, 3.1), 2)
            x, y = odr.r3(rng.uniform(-300, 300), 1), odr.r3(rng.uniform(-300, 300), 1)
            gap = rng.uniform(45, 110)
            for i in range(n):
                r = odr.gen_road(rng, str(7 * i + 3), kinds, heights=0.1, start=[odr.r3(x - i * gap * math.sin(h), 2), odr.r3(y + i * gap * math.cos(h), 2), h], turn=0.3)
                roads.append(r)
        else:
            h = odr.r3(rng.uniform(-3.1, 3.1), 2)
            dz = rng.choice([6.0, 8.0, -7.0])
            for i, (hh, z) in enumerate(((h, 0.0), (h + rng.uniform(0.8, 2.2), dz))):
                half = rng.uniform(60, 140)
                r = odr.gen_road(rng, str(i), ("line",), maxgeoms=1, elev=0, sup=0.0, heights=0.0, secs=2)
                r["geoms"] = [dict(t="line", l=odr.r3(2 * half, 2))]
                r["start"] = [odr.r3(-half * math.cos(hh), 3), odr.r3(-half * math.sin(hh), 3), hh]
                r["elev"], r["off"] = [[0.0, z, 0.0, 0.0, 0.0]], None
                r["secs"] = [dict(f=0.0, lanes=odr.gen_lanes(rng, 2 * half, 2, 2, heights=0.0))]
                roads.append(r)
        for r in roads:
            r["cont"] = True
        q = []
        for _ in range(40):
            q.append(dict(road=rng.randrange(len(roads)), lane=rng.randrange(8), f=odr.r3(rng.random() if layout != "cross" or rng.random() < 0.4 else rng.uniform(0.46, 0.54), 4),
                          u=odr.r3(rng.uniform(-0.42, 0.42), 3), step=rng.choice([None, None, odr.r3(rng.uniform(-4, 8), 2)]),
                          h=odr.r3(rng.uniform(-3.1, 3.1), 2), call=rng.choice(["pos", "xyh", "xyzh", "mode"]), dz=odr.r3(rng.choice([0.0, rng.uniform(-1, 1)]), 2),
                          zrel=rng.random() < 0.5, hrel=rng.random() < 0.3, p=odr.r3(rng.uniform(-0.3, 0.3), 2), r=odr.r3(rng.uniform(-0.3, 0.3), 2),
                          hd=rng.randrange(2), mask=rng.choice([None] * 6 + [odr.LANE_TYPES["driving"], odr.ANY_DRIVING, odr.LANE_TYPES["shoulder"] | odr.LANE_TYPES["border"], odr.ANY_ROAD])))
        return dict(net=dict(roads=roads), q=q, layout=layout)

    def run(self, case, env):
        try:
            N = odr.Network(case["net"])
            xml = N.xml()
        except (KeyError, TypeError, ZeroDivisionError, IndexError):
            raise Discard("invalid")
        if not N.valid():
            raise Discard("invalid")
        if any(not r.r.get("cont") for r in N.roads) or any(abs(g.g.get(k) or 0) > 0.06 for r in N.roads for g in r.geoms for k in ("k", "k0", "k1")) or any(abs(r.end[2] - r.poses[0][3]) > 2.5 for r in N.roads):
            raise Discard("too curved")
        for r in N.roads:
            for i in range(21):
                s = r.length * i / 20
                if abs(odr.piecewise(r.elev, s)[1]) > 0.25 or abs(odr.piecewise(r.sup, s)[0]) > 0.2 or abs(odr.piecewise(r.sup, s)[1]) > 0.01:
                    raise Discard("too steep")
        rm = self.rm
        rm.RM_SetLogFilePath(b"")
        if rm.RM_InitWithString(xml.encode()) != 0:
            raise Violation("init", "a valid road network was rejected")
        hs = [rm.RM_CreatePosition(), rm.RM_CreatePosition()]
        masks = [-1, -1]
        for h in hs:
            rm.RM_SetSnapLaneTypes(h, -1)
        lasts, lastz, held = [None, None], [0.0, 0.0], [0.0, 0.0]
        d = capi.RM_PositionData()
        info = capi.RM_RoadLaneInfo()
        done, es, et = 0, 0.0, 0.0
        for n, q in enumerate(case["q"] or []):
            k = q["hd"] % 2
            hd = hs[k]
            ri, s = q["road"] % len(N.roads), None
            if q.get("step") is not None and lasts[k]:
                ri, s = lasts[k][0], lasts[k][1] + q["step"]       # move a bit from the previous point
            road = N.roads[ri]
            if s is None:
                s = q["f"] * road.length
            if not 0.3 < s < road.length - 0.3 or any(abs(s - b) < 0.3 for b in road.breaks()):
                continue
            ids = [i for i in road.lane_ids(s) if i != 0]
            lid = ids[q["lane"] % len(ids)]
            w = road.width(s, lid)[0]
            if w < 1.0:
                continue
            t = road.center_t(s, lid)[0] + q["u"] * w
            ref = road.pose(s, t, road.height(s, lid, q["u"] * w))
            if abs(ref["k"] * t) > 0.5 or abs(odr.piecewise(road.off, s)[1]) > 0.15 or abs(t) > 30:
                continue
            if ref["r"] != 0 and (abs(ref["dz"]) > 1e-9):
                slack_st = 0.01 + abs(t) * abs(ref["dz"] * ref["r"]) * 1.5
            else:
                slack_st = 0.01
            x, y, z = ref["x"], ref["y"], ref["z"]
            # other roads must be clearly away, unless on another level
            ok = True
            for rj, other in enumerate(N.roads):
                if rj == ri:
                    continue
                c = clearance(N, other, x, y)
                if c < 62 and not (case["layout"] == "cross" and not (q["call"] == "xyh" or (q["call"] in ("xyzh", "mode") and q["zrel"]))):
                    wid = max(max(abs(e) for e in edges(other, other.length * f / 10.0)) for f in range(11))
                    zz = max(abs(z - odr.piecewise(other.elev, other.length * f / 10.0)[0]) for f in range(11)) + abs(z - lastz[k])
                    if c - wid < 5 + zz:
                        ok = False
            # the road itself must not pass close by elsewhere
            for i in range(int(road.length / 5) + 1):
                si = i * 5.0
                if abs(si - s) > 40:
                    rx, ry, _, _ = road.refline(si)
                    if math.hypot(rx - x, ry - y) < 45:
                        ok = False
                        break
            if not ok:
                continue
            if q.get("mask"):
                masks[k] = q["mask"]
                rm.RM_SetSnapLaneTypes(hd, q["mask"])
            h = q["h"]
            zset, exp_z = z, None
            tolz = 0.02 + 0.5 * abs(ref["dz"]) * 0.2
            if q["call"] == "pos":
                zset = z + q["dz"]
                rc = rm.RM_SetWorldPosition(hd, x, y, zset, h, q["p"], q["r"])
                exp_z, exp_h, tolz = zset, h, 1e-6
            elif q["call"] == "xyh":
                rc = rm.RM_SetWorldXYHPosition(hd, x, y, h)
                exp_z, exp_h = z, h
            elif q["call"] == "xyzh":
                # z is relative to the road in the default position mode
                rc = rm.RM_SetWorldXYZHPosition(hd, x, y, q["dz"], h)
                exp_z, exp_h = z + q["dz"], h
            else:
                if q["zrel"]:
                    m, zset, exp_z = Z_REL, q["dz"], z + q["dz"]
                else:
                    m, zset, exp_z, tolz = Z_ABS, z + q["dz"], z + q["dz"], 1e-6
                m |= H_REL if q["hrel"] else H_ABS
                m |= P_REL | R_REL
                rc = rm.RM_SetWorldPositionMode(hd, x, y, zset, h, 0.0, 0.0, m)
                exp_h = None if q["hrel"] else h
            if q["call"] == "pos":
                held[k] = abs(q["p"]) + abs(q["r"])     # pitch and roll are kept by xyzh
            elif q["call"] != "xyzh":
                held[k] = 0.0
            if rc < 0:
                raise Violation("rc", "placement %d failed with %d" % (n, rc))
            if rm.RM_GetPositionData(hd, byref(d)) != 0 or rm.RM_GetLaneInfo(hd, 0.0, byref(info), 2, True) < 0:
                raise Violation("rc", "reading back the position failed")
            if not capi.finite(d, info):
                raise Violation("nan", "placement %d: a reported value is not a number: %s %s" % (n, d.dict(), info.dict()))
            lasts[k], lastz[k] = (ri, s), d.z
            tag = "placement %d (%s) at (%.3f, %.3f, %.3f) = road %s s %.3f t %.3f lane %d" % (n, q["call"], x, y, z, road.id, s, t, lid)
            rid = rm.RM_GetRoadIdFromString(road.id.encode())
            if abs(d.x - x) > 1e-6 or abs(d.y - y) > 1e-6:
                raise Violation("xy", "%s: world position changed to (%.5f, %.5f)" % (tag, d.x, d.y))
            if d.roadId != rid:
                raise Violation("road", "%s: mapped to road %d" % (tag, d.roadId))
            g = road.geoms[road.geom_idx(s)].t
            es, et = max(es, abs(d.s - s)), max(et, abs(info.t - t))
            near = abs(min(abs(s - b) for b in [p[0] for p in road.poses] + [road.length]))
            stol, ttol = self.tols(road, s, t, ref, g, slack_st)
            if abs(d.s - s) > stol:
                raise Violation("s", "%s: s is %.4f" % (tag, d.s))
            if abs(info.t - t) > ttol:
                raise Violation("t", "%s: t is %.4f" % (tag, info.t))
            if exp_h is not None and abs(odr.adiff(d.h, exp_h)) > 1e-4 + 2 * (abs(ref["p"]) + abs(ref["r"]) + abs(ref["droll"] * t) + held[k]) ** 2:
                raise Violation("h", "%s: heading set to %.4f, read back %.4f" % (tag, exp_h, d.h))
            if q["call"] == "mode" and q["hrel"] and abs(odr.adiff(d.hRelative, h)) > 1e-4:
                raise Violation("hrel", "%s: relative heading set to %.4f, read back %.4f" % (tag, h, d.hRelative))
            if tolz > 1e-5:
                # the surface height is that of the lane the position snapped to
                z2 = road.pose(d.s, t, road.height(d.s, d.laneId, d.laneOffset))["z"]
                exp_z += z2 - z
                if d.laneId != lid:
                    tolz += 0.02
            if exp_z is not None and abs(d.z - exp_z) > tolz + stol * (abs(ref["dz"]) + abs(ref["droll"] * t)) + ttol * abs(ref["r"]):
                raise Violation("z", "%s: z is %.4f, expected %.4f" % (tag, d.z, exp_z))
            # lane: a lane of the wanted types
            if any(abs(s - b) < stol for b, _ in road.secs if b > 0):
                continue
            got, m = d.laneId, masks[k]
            alli = road.lane_ids(s)
            if got not in alli and got != 0:
                raise Violation("lane", "%s: lane %d does not exist there" % (tag, got))
            match = [i for i in alli if i != 0 and odr.LANE_TYPES[road.lane(s, i)[1]["type"]] & m and road.width(s, i)[0] > 0.01]
            if got != 0 or match:
                c = road.center_t(d.s, got)[0]
                if not any(min(s, d.s) - 1e-3 <= b <= max(s, d.s) + 1e-3 for b in road.breaks()) and abs(c + d.laneOffset - info.t) > 1e-4:
                    raise Violation("offset", "%s: lane %d offset %.4f does not give t %.4f" % (tag, got, d.laneOffset, info.t))
                if lid in match:
                    if got != lid and 0.5 * w - abs(q["u"] * w) > ttol + 1e-3:
                        raise Violation("lane", "%s: reported in lane %d" % (tag, got))
                elif match:
                    if got not in match:
                        raise Violation("lane", "%s: lane %d is not of the snap types %d" % (tag, got, m))
                    dist = {i: abs(road.center_t(s, i)[0] - t) for i in match}
                    if dist[got] > min(dist.values()) + 0.1 + ttol:
                        raise Violation("lane", "%s: snapped to lane %d, lane %d is closer" % (tag, got, min(dist, key=dist.get)))
            done += 1
        rm.RM_Close()
        return dict(nontrivial=done >= 8, checks=done, classes=[case["layout"]], stats=dict(max_s_err=es, max_t_err=et))

    @staticmethod
    def tols(road, s, t, ref, g, slack):
        # the lane offset's slope enters, since positions are projected on the center lane, and so do changes of curvature between sample points
        win = [min(max(s + d, 0.0), road.length) for d in range(-20, 21, 2)]
        offs = [odr.piecewise(road.off, x) for x in win]
        ks = [road.refline(x)[3] for x in win[5:-5]]
        far = abs(t) + max(abs(o[0]) for o in offs)
        return 0.3 + slack + far * (1.3 * max(abs(o[1]) for o in offs) + 4 * (max(ks) - min(ks))), 0.1 + slack



CHECK = R02
