"""R04: moving along the road network follows lanes, lane links and road links by the travelled distance."""
import math
import pbt, odr, capi, net
from ctypes import byref
from pbt import Violation, Discard


class R04(pbt.Check):
    id = "R04"
    targets = ["esminiRMLib"]
    quick_cases, quick_time = 6000, 30
    thorough_cases, thorough_time = 400000, 900
    case_timeout = 20
    rule = ("Random linked networks (chains of 1-4 roads of either orientation with several lane sections whose lane ids shift, optionally a "
            "junction with 2-3 branches, left/right hand traffic) and a random history of placements, moves in both directions and look-ahead "
            "queries on 1-2 position objects, against a model of the network in travel coordinates. Non-trivial: at least 5 steps compared, one of them across a road "
            "or section border.")
    assumptions = ["one move passes at most 7 road borders, and a lane that exists on both sides of a border is linked"]

    def prepare(self):
        self.rm = capi.rm()

    def gen(self, rng):
        spec = net.gen_linked(rng)
        q = []
        for i in range(30):
            q.append(dict(op="place" if i == 0 else rng.choice(["place", "move", "move", "move", "move", "look", "look", "probe"]),
                          path=rng.randrange(4), track=rng.randrange(12), f=odr.r3(rng.random(), 4), e=odr.r3(rng.choice([0.0, rng.uniform(-0.8, 0.8)]), 2),
                          rev=rng.random() < 0.35, dh=odr.r3(rng.choice([0.0, rng.uniform(-0.6, 0.6)]), 2),
                          d=odr.r3(rng.choice([rng.uniform(0, 2), rng.uniform(0, 30), rng.uniform(0, 30), rng.uniform(30, 150)]) * rng.choice([1, 1, 1, -1]), 3),
                          ang=rng.choice([0.0, 0.0, 0.6, 1.2, 5.0, 5.7, 3.1]), mode=rng.randrange(3), drv=False, hd=rng.randrange(2)))
        return dict(spec=spec, q=q)

    # ---- model
    def advance(self, M, st, du, ang):
        """move the model state by du in travel direction. Returns (state, ended) or None when outside the domain"""
        path = st["path"]
        L = M.path_len(path)
        sp = M.span(path, st["track"], st["u"])
        if sp is None:
            return None
        st = dict(st)
        u = st["u"] + du
        if M.branches:
            ucon = sum(M.lens[str(rs["id"])] for rs in M.trunk)
            con = path[len(M.trunk)]
            uout = ucon + M.lens[str(con["id"])]
            d = M.dir(st["track"], con["secs"][0]) if st["track"] in con["secs"][0]["R"] + con["secs"][0]["L"] else 0
            if st["u"] <= ucon < u:
                # entering the junction from the trunk
                if sp[1] < ucon - 1e-6 or d == 0:
                    return None
                if d < 0:
                    if any(c["inc"] == str(M.trunk[-1]["id"]) for c in M.conns) and all(self.both(M, p[len(M.trunk)]) for p in M.paths):
                        st["u"] = ucon - 1e-9
                        return st, True
                    return None
                cands = []
                for p in M.paths:
                    c = p[len(M.trunk)]
                    hh = sum((g.get("k") or 0.0) * g["l"] for g in c["geoms"])
                    cands.append((abs(odr.adiff(hh, ang)), p))
                cands.sort(key=lambda x: x[0])
                if len(cands) > 1 and cands[1][0] - cands[0][0] < 1e-3:
                    return None
                path = st["path"] = cands[0][1]
                L = M.path_len(path)
                sp = M.span(path, st["track"], st["u"])
            elif st["u"] >= uout > u:
                if sp[0] > uout + 1e-6 or d == 0:
                    return None
                if d > 0:
                    if self.both(M, con):
                        st["u"] = uout + 1e-9
                        return st, True
                    return None
        if u < -1e-9 or u > L + 1e-9:
            e = 0.0 if u < 0 else L
            if not sp[0] - 1e-9 <= e <= sp[1] + 1e-9:
                return None
            st["u"] = e
            return st, True
        if not sp[0] + 1e-6 < u < sp[1] - 1e-6:
            return None
        if min(abs(u - b) for b in M.breaks(path)) < 1e-5:
            return None
        st["u"] = u
        return st, False

    @staticmethod
    def both(M, con):
        """the connecting road has connections from both sides (otherwise the opposite ones are deduced from its links)"""
        return sum(c["con"] == str(con["id"]) for c in M.conns) == 2

    def expect(self, M, st, end=False):
        a = M.at(st["path"], st["track"], st["u"], st["e"])
        if a is None:
            raise Discard("track")
        road = M.N.by_id[a["road"]]
        a["t"] = road.center_t(min(max(a["s"], 1e-7), road.length - 1e-7), a["lane"])[0] + a["off"]
        x, y, h, k = road.refline(min(max(a["s"], 1e-9), road.length - 1e-9))
        a["x"], a["y"], a["hroad"], a["kroad"] = x - a["t"] * math.sin(h), y + a["t"] * math.cos(h), h, k
        a["htravel"] = h + (math.pi if a["flip"] else 0.0)
        a["k1"] = 1.0 - k * a["t"]
        return a

    def run(self, case, env):
        try:
            M = net.Linked(case["spec"])
            xml = M.xml()
            ok = M.valid()
        except (KeyError, TypeError, ZeroDivisionError, IndexError, ValueError, AttributeError):
            raise Discard("invalid")
        if not ok:
            raise Discard("invalid")
        rm = self.rm
        rm.RM_SetLogFilePath(b"")
        if rm.RM_InitWithString(xml.encode()) != 0:
            raise Violation("init", "a valid road network was rejected")
        hs = [rm.RM_CreatePosition(), rm.RM_CreatePosition()]
        for h in hs:
            rm.RM_SetSnapLaneTypes(h, -1)
        states = [None, None]
        done = crossed = 0
        classes = set()
        d, info, probe = capi.RM_PositionData(), capi.RM_RoadLaneInfo(), capi.RM_RoadProbeInfo()
        tracks = sorted(case["spec"]["w"])

        def compare(tag, a, road, lane, s, off, t, x, y, ftol):
            rid = rm.RM_GetRoadIdFromString(a["road"].encode())
            if road != rid:
                raise Violation("road", "%s: on road %d (s %.3f), expected road %s s %.3f" % (tag, road, s, a["road"], a["s"]))
            if abs(s - a["s"]) > ftol:
                raise Violation("s", "%s: s %.5f, expected %.5f on road %s" % (tag, s, a["s"], a["road"]))
            if lane != a["lane"]:
                raise Violation("lane", "%s: lane %d, expected %d on road %s s %.3f" % (tag, lane, a["lane"], a["road"], a["s"]))
            if abs(off - a["off"]) > 1e-6:
                raise Violation("offset", "%s: lane offset %.4f, expected %.4f" % (tag, off, a["off"]))
            if t is not None and abs(t - a["t"]) > 1e-5:
                raise Violation("t", "%s: t %.4f, expected %.4f" % (tag, t, a["t"]))
            if math.hypot(x - a["x"], y - a["y"]) > 1e-3 + ftol:
                raise Violation("xy", "%s: at (%.4f, %.4f), expected (%.4f, %.4f)" % (tag, x, y, a["x"], a["y"]))

        for n, q in enumerate(case["q"] or []):
            k = q["hd"] % 2
            st = states[k]
            hd = hs[k]
            if q["op"] == "place" or st is None:
                path = M.paths[q["path"] % len(M.paths)]
                u = q["f"] * M.path_len(path)
                if min(abs(u - b) for b in M.breaks(path)) < 1e-3:
                    continue
                cand = [t for t in tracks if M.at(path, t, u) is not None]
                if not cand:
                    raise Discard("no lane")
                st = dict(path=path, track=cand[q["track"] % len(cand)], u=u, e=q["e"], rev=q["rev"], dh=q["dh"])
                a = self.expect(M, st)
                rid = rm.RM_GetRoadIdFromString(a["road"].encode())
                hrel = (math.pi if (a["flip"] != q["rev"]) else 0.0) + q["dh"]
                rc = rm.RM_SetLanePosition(hd, rid, a["lane"], a["off"], a["s"], False)
                rm.RM_SetH(hd, a["hroad"] + hrel)
                if rc < 0:
                    raise Violation("rc", "step %d: placing failed with %d" % (n, rc))
                tag, ended = "step %d place" % n, False
            else:
                cur = self.expect(M, st)
                if cur["k1"] < 0.3:
                    continue
                back = -1.0 if st["rev"] else 1.0
                if q["op"] == "move":
                    du = back * q["d"] / cur["k1"]
                    r = self.advance(M, st, du, q["ang"])
                    if r is None:
                        states[k] = None
                        continue
                    old = st
                    st, ended = r
                    rc = rm.RM_PositionMoveForward(hd, q["d"], q["ang"])
                    tag = "step %d: move %.3f from road %s s %.3f lane %d" % (n, q["d"], cur["road"], cur["s"], cur["lane"])
                    if (rc < 0) != ended:
                        raise Violation("rc", "%s: returned %d but %s" % (tag, rc, "the end of the road network is reached" if ended else "the road continues"))
                    if any(min(old["u"], st["u"]) < b < max(old["u"], st["u"]) for b in M.breaks(st["path"])):
                        crossed += 1
                        classes.add("cross")
                    if ended:
                        classes.add("end")
                    if M.branches and st["path"] is not old["path"]:
                        classes.add("junction")
                else:
                    mode = 2 if q["op"] == "probe" and q["mode"] == 1 else q["mode"]
                    s2 = dict(st)
                    if mode == 0:
                        s2["e"] = 0.0
                    sgn = back
                    if q["drv"]:
                        sgn = float(cur["dir"])
                    f = 1.0
                    if mode == 0 or (mode == 2 and q["op"] == "look"):
                        a0 = self.expect(M, s2)
                        f = a0["k1"]
                    if f < 0.3:
                        continue
                    r = self.advance(M, s2, sgn * q["d"] / f, 0.0)
                    if r is None or (r[1] and mode == 1):
                        continue
                    s3, ended = r
                    if mode == 1 and any(min(s2["u"], s3["u"]) < b < max(s2["u"], s3["u"]) for b in M.breaks(s3["path"])):
                        continue          # which lane is followed at the road center is not specified
                    a = self.expect(M, s3)
                    tag = "step %d: %s %.3f mode %d drv %d from road %s s %.3f lane %d" % (n, q["op"], q["d"], mode, q["drv"], cur["road"], cur["s"], cur["lane"])
                    if q["op"] == "look":
                        rc = rm.RM_GetLaneInfo(hd, q["d"], byref(info), mode, q["drv"])
                        i2 = info
                    else:
                        rc = rm.RM_GetProbeInfo(hd, q["d"], byref(probe), mode, q["drv"])
                        i2 = probe.info
                    if (rc < 0) != ended:
                        raise Violation("rc", "%s: returned %d but %s" % (tag, rc, "the end of the road network is reached" if ended else "the road continues"))
                    if mode == 1:
                        rid = rm.RM_GetRoadIdFromString(a["road"].encode())
                        if i2.roadId != rid or abs(i2.s - a["s"]) > 1e-3 or abs(i2.t) > 1e-3:
                            raise Violation("look", "%s: road %d s %.4f t %.4f, expected road %s s %.4f t 0" % (tag, i2.roadId, i2.s, i2.t, a["road"], a["s"]))
                    else:
                        compare(tag, a, i2.roadId, i2.laneId, i2.s, i2.laneOffset, i2.t, i2.x, i2.y, 1e-3)
                        if abs(odr.adiff(i2.heading, a["hroad"])) > 1e-4:
                            raise Violation("look", "%s: road heading %.4f, expected %.4f" % (tag, i2.heading, a["hroad"]))
                        lk = a["kroad"] / a["k1"] if abs(a["k1"]) > 0.1 else None
                        if lk is not None and abs(i2.curvature - lk) > 1e-4 * max(1.0, abs(lk)) and not ended:
                            raise Violation("look", "%s: curvature %.5f, expected %.5f" % (tag, i2.curvature, lk))
                        road = M.N.by_id[a["road"]]
                        if abs(i2.width - road.width(min(max(a["s"], 1e-7), road.length - 1e-7), a["lane"])[0]) > 1e-5:
                            raise Violation("look", "%s: lane width %.4f" % (tag, i2.width))
                    if q["op"] == "probe":
                        rm.RM_GetPositionData(hd, byref(d))
                        dx, dy = i2.x - d.x, i2.y - d.y
                        lx, ly = dx * math.cos(d.h) + dy * math.sin(d.h), -dx * math.sin(d.h) + dy * math.cos(d.h)
                        if abs(lx - probe.rel.x) > 1e-5 or abs(ly - probe.rel.y) > 1e-5:
                            raise Violation("probe", "%s: relative position (%.4f, %.4f), expected (%.4f, %.4f)" % (tag, probe.rel.x, probe.rel.y, lx, ly))
                        if math.hypot(lx, ly) > 0.01 and abs(odr.adiff(probe.relative_h, math.atan2(ly, lx))) > 1e-5:
                            raise Violation("probe", "%s: relative angle %.4f, expected %.4f" % (tag, probe.relative_h, math.atan2(ly, lx)))
                    done += 1
                    classes.add(q["op"])
                    # a query must leave the position alone: fall through to the comparison with the unchanged state
                    ended = False
            states[k] = st
            a = self.expect(M, st)
            if rm.RM_GetPositionData(hd, byref(d)) != 0:
                raise Violation("rc", "reading back the position failed")
            if not capi.finite(d, info, probe):
                raise Violation("nan", "%s: a reported value is not a number" % tag)
            compare(tag, a, d.roadId, d.laneId, d.s, d.laneOffset, None, d.x, d.y, 1e-3)
            hexp = a["htravel"] + (math.pi if st["rev"] else 0.0) + st["dh"]
            if abs(odr.adiff(d.h, hexp)) > 1e-4:
                raise Violation("heading", "%s: heading %.4f, expected %.4f" % (tag, d.h, hexp))
            done += 1
            # continue from the reported s to avoid accumulated rounding
            if ended and q["op"] != "place":
                pass
        rm.RM_Close()
        return dict(nontrivial=done >= 5 and crossed >= 1, checks=done, classes=sorted(classes))


CHECK = R04
