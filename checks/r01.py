"""R01: road/lane coordinates -> world pose and road attributes equal the OpenDRIVE definition."""
import math
import pbt, odr, capi
from ctypes import byref
from pbt import Violation, Discard


def pick_s(road, q):
    """s of a query: a fraction of the road, or just beside a record boundary; never closer than 1 mm to one"""
    L = road.length
    if q.get("brk") is not None:
        b = sorted(set(road.breaks()))
        s = b[q["brk"] % len(b)] + q["d"]
    else:
        s = q["f"] * L
    s = min(max(s, 0.0), L)
    return s


def near_break(road, s, eps=1e-3):
    return any(abs(s - b) < eps for b in road.breaks() if 0 < b < road.length)


def gen_queries(rng, net, n):
    qs = []
    for _ in range(n):
        q = dict(road=rng.randrange(len(net["roads"])), lane=rng.randrange(12), op=rng.choice(["lane", "lane", "lane", "road"]),
                 off=odr.r3(rng.choice([0.0, rng.uniform(-1.5, 1.5)]), 3), t=odr.r3(rng.uniform(-9, 9), 3), align=rng.random() < 0.7)
        if rng.random() < 0.4:
            q.update(brk=rng.randrange(24), d=rng.choice([-0.01, 0.01, 0.3, -0.3, 2.0]))
        else:
            q.update(f=odr.r3(rng.choice([rng.random(), 0.0, 1.0, rng.random()]), 4))
        qs.append(q)
    return qs


class R01(pbt.Check):
    id = "R01"
    targets = ["esminiRMLib"]
    quick_cases, quick_time = 6000, 40
    thorough_cases, thorough_time = 400000, 900
    rule = ("Random OpenDRIVE networks (1-3 roads; line/arc/spiral/poly3/paramPoly3 chains, elevation, superelevation, lane offset, lane sections, "
            "width and height records, header offset) and a random history of 30 placements per position object, in lane or road coordinates, biased "
            "to record boundaries; each resulting pose is compared with an independent evaluator. Non-trivial: at least 10 placements compared on a "
            "network with a non-line geometry or a non-zero elevation/superelevation/lane offset/varying width.")
    assumptions = ["poly3 and paramPoly3 reference lines are compared with tolerances that allow esmini's documented numerical sampling"]

    def prepare(self):
        self.rm = capi.rm()

    def gen(self, rng):
        kinds = rng.choice([("line",), ("arc",), ("spiral",), ("pp3",), ("poly3",), ("line", "arc", "spiral"), ("line", "arc", "spiral", "pp3"),
                            ("line", "arc", "spiral", "pp3", "poly3")])
        net = dict(roads=[odr.gen_road(rng, str(i + 1), kinds) for i in range(rng.choice([1, 1, 2, 3]))])
        if rng.random() < 0.25:
            net["offset"] = [odr.r3(rng.uniform(-300, 300), 1), odr.r3(rng.uniform(-300, 300), 1), odr.r3(rng.uniform(-20, 20), 1) if all(r.get("elev") for r in net["roads"]) else 0.0,
                             odr.r3(rng.choice([0.0, rng.uniform(-3, 3)]), 2)]
        return dict(net=net, q=gen_queries(rng, net, 30), handles=rng.choice([1, 2]))

    def run(self, case, env):
        try:
            N = odr.Network(case["net"])
            xml = N.xml()
        except (KeyError, TypeError, ZeroDivisionError, IndexError):
            raise Discard("invalid")
        if not N.valid():
            raise Discard("invalid")
        rm = self.rm
        rm.RM_SetLogFilePath(b"")
        if rm.RM_InitWithString(xml.encode()) != 0:
            raise Violation("init", "a valid road network was rejected")
        if rm.RM_GetNumberOfRoads() != len(N.roads):
            raise Violation("roads", "number of roads %d, expected %d" % (rm.RM_GetNumberOfRoads(), len(N.roads)))
        hs = [rm.RM_CreatePosition() for _ in range(max(1, case.get("handles") or 1))]
        for h in hs:
            rm.RM_SetSnapLaneTypes(h, -1)
        d, info = capi.RM_PositionData(), capi.RM_RoadLaneInfo()
        done, err = 0, 0.0
        last = {}
        for n, q in enumerate(case["q"] or []):
            road = N.roads[q["road"] % len(N.roads)]
            rid = rm.RM_GetRoadIdFromString(road.id.encode())
            s = pick_s(road, q)
            if near_break(road, s):
                continue
            ids = road.lane_ids(s)
            if not ids:
                continue
            hd = hs[n % len(hs)]
            lid = ids[q["lane"] % len(ids)]
            poly3 = road.geoms[road.geom_idx(s)].t
            if q["op"] == "lane":
                off = q["off"]
                rc = rm.RM_SetLanePosition(hd, rid, lid, off, s, q["align"])
                t, dt = road.center_t(s, lid)
                t += off
            else:
                t, off = q["t"], None
                rc = rm.RM_SetRoadPosition(hd, rid, s, t, q["align"])
            if rc < 0:
                raise Violation("rc", "placement %d: road %s lane %s s %.3f returned %d" % (n, road.id, lid, s, rc))
            if rm.RM_GetPositionData(hd, byref(d)) != 0 or rm.RM_GetLaneInfo(hd, 0.0, byref(info), 2, True) < 0:
                raise Violation("rc", "reading back the position failed")
            if not capi.finite(d, info):
                raise Violation("nan", "placement %d: a reported value is not a number: %s %s" % (n, d.dict(), info.dict()))
            if d.roadId != rid or abs(d.s - s) > 1e-6:
                raise Violation("track", "placement %d: on road %s s %.4f, read back road %d s %.4f" % (n, road.id, s, d.roadId, d.s))
            if abs(info.t - t) > 1e-6:
                raise Violation("t", "placement %d: road %s lane %s s %.4f offset %s: t is %.6f, expected %.6f" % (n, road.id, lid, s, off, info.t, t))
            if q["op"] == "lane":
                if d.laneId != lid or abs(d.laneOffset - off) > 1e-6:
                    raise Violation("lane", "placement %d: lane %d offset %.4f, read back lane %d offset %.4f" % (n, lid, off, d.laneId, d.laneOffset))
            else:
                # any lane may be reported outside the lanes; inside, it must contain t
                lid, off = d.laneId, d.laneOffset
                if lid not in ids:
                    raise Violation("lane", "placement %d: reported lane %d does not exist" % (n, lid))
                c, dt = road.center_t(s, lid)
                if abs(c + off - t) > 1e-6:
                    raise Violation("lane", "placement %d: t %.4f reported as lane %d offset %.4f whose center is at %.4f" % (n, t, lid, off, c))
                for i in ids:
                    if i == 0:
                        continue
                    ci, w = road.center_t(s, i)[0], road.width(s, i)[0]
                    if w > 0.05 and abs(t - ci) < 0.5 * w - 1e-3 and i != lid:
                        raise Violation("lane", "placement %d: t %.4f is inside lane %d [%.3f..%.3f] but lane %d was reported" % (n, t, i, ci - w / 2, ci + w / 2, lid))
            zl = road.height(s, lid, off)
            w = road.pose(s, t, zl)
            x, y, z, h = N.world(w["x"], w["y"], w["z"], w["h"])
            # tolerance of position: exact geometries 1e-4; sampled geometries more
            tol, htol = 1e-4, 1e-5
            if poly3 == "pp3":
                tol, htol = 2e-2, 2e-3
            elif poly3 == "poly3":
                tol, htol = 0.35, 0.05
            elif poly3 == "spiral" or poly3 == "arc":
                g = road.geoms[road.geom_idx(s)].g
                if abs(g["k1"] - g["k0"] if poly3 == "spiral" else g["k"]) < 2e-6:      # treated as an arc or a line
                    tol, htol = 1e-2 * max(1.0, g["l"] / 100) ** 2, 3e-6 * max(100, g["l"])
            htol_pos = tol + abs(t) * htol
            e = math.sqrt((d.x - x) ** 2 + (d.y - y) ** 2)
            if e > htol_pos:
                raise Violation("xy", "placement %d: road %s lane %d s %.4f t %.4f: position (%.5f, %.5f), expected (%.5f, %.5f)" % (n, road.id, lid, s, t, d.x, d.y, x, y))
            if tol == 1e-4:
                err = max(err, e)
            if abs(d.z - z) > 1e-4 + (abs(zl) * 0.01 if False else 0):
                raise Violation("z", "placement %d: road %s lane %d s %.4f t %.4f: z %.5f, expected %.5f" % (n, road.id, lid, s, t, d.z, z))
            # lane info record
            if abs(odr.adiff(info.heading, h + (math.pi if self.rev(road, lid) else 0.0))) > htol + 1e-5 and abs(odr.adiff(info.heading, h)) > htol + 1e-5:
                raise Violation("road_h", "placement %d: road heading %.5f, expected %.5f" % (n, info.heading, h))
            if abs(abs(odr.adiff(info.pitch, 0)) - abs(w["p"])) > 1e-5 or abs(abs(odr.adiff(info.roll, 0)) - abs(w["r"])) > 1e-5:
                raise Violation("road_pr", "placement %d: road pitch/roll %.5f/%.5f, expected +-%.5f/%.5f" % (n, info.pitch, info.roll, w["p"], w["r"]))
            if poly3 in ("line", "arc", "spiral") and abs(1 - w["k"] * t) > 0.1 and abs(info.curvature - w["k"] / (1 - w["k"] * t)) > 2e-6 + 1e-4 * abs(w["k"]):
                raise Violation("curvature", "placement %d: curvature %.7f at t %.3f, expected %.7f" % (n, info.curvature, t, w["k"] / (1 - w["k"] * t)))
            lw = road.width(s, lid)[0]
            if lid != 0 and abs(info.width - lw) > 1e-6:
                raise Violation("width", "placement %d: lane %d width %.5f, expected %.5f" % (n, lid, info.width, lw))
            # orientation of an aligned object
            if q["align"] and q["op"] == "lane":
                hrel = math.pi if self.rev(road, lid) else 0.0
                hoff = math.atan(road.center_t(s, lid)[1])
                poff = math.cos(hrel) * math.atan(math.tan(w["droll"]) * -t)
                M = odr.matmul(odr.rotmat(h, w["p"], w["r"]), odr.rotmat(hrel + hoff, poff, 0.0))
                eh, ep, er = odr.euler(M)
                slack = 0.05 * abs(w["droll"] * t) + 1e-4 + htol
                if abs(odr.adiff(d.h, eh)) > slack or abs(odr.adiff(d.p, ep)) > slack or abs(odr.adiff(d.r, er)) > slack:
                    raise Violation("hpr", "placement %d: road %s lane %d s %.4f: h/p/r %.5f/%.5f/%.5f, expected %.5f/%.5f/%.5f" % (
                        n, road.id, lid, s, d.h, d.p, d.r, eh, ep, er))
            done += 1
        rm.RM_Close()
        rich = any(g["t"] != "line" for r in case["net"]["roads"] for g in r["geoms"]) or any(r.get("elev") or r.get("sup") or r.get("off") for r in case["net"]["roads"])
        return dict(nontrivial=done >= 10 and rich, checks=done, classes=sorted({g["t"] for r in case["net"]["roads"] for g in r["geoms"]}), stats=dict(max_xy_err_exact=err))

    @staticmethod
    def rev(road, lid):
        """driving direction against the reference line"""
        return (lid >= 0) if not road.lht() else (lid <= 0)


CHECK = R01
