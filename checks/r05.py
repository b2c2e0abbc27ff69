"""R05: the difference between two positions is the travel distance along the road network, the lateral and the lane difference."""
import math
import pbt, odr, capi, net
from ctypes import byref
from pbt import Violation, Discard


class R05(pbt.Check):
    id = "R05"
    targets = ["esminiRMLib"]
    quick_cases, quick_time = 8000, 25
    thorough_cases, thorough_time = 500000, 900
    case_timeout = 20
    rule = ("Random linked networks (chains of roads of either orientation, several lane sections with shifting lane ids, optionally a junction "
            "with branches) and 40 pairs of positions with both headings, against distances in travel coordinates; pairs on different branches must be "
            "reported unreachable. Non-trivial: at least 8 pairs compared, one of them across a road border.")
    assumptions = ["one lane link per lane; the lane of the first position is linked all the way to the second position"]

    def prepare(self):
        self.rm = capi.rm()

    def gen(self, rng):
        spec = net.gen_linked(rng, multisec=rng.choice([0.0, 0.7]))
        q = []
        for i in range(40):
            q.append(dict(pa=rng.randrange(4), pb=rng.randrange(4), ta=rng.randrange(12), tb=rng.randrange(12), fa=odr.r3(rng.random(), 4), fb=odr.r3(rng.random(), 4),
                          ea=odr.r3(rng.choice([0.0, rng.uniform(-0.8, 0.8)]), 2), eb=odr.r3(rng.choice([0.0, rng.uniform(-0.8, 0.8)]), 2),
                          ra=rng.random() < 0.4, rb=rng.random() < 0.4, dha=odr.r3(rng.choice([0.0, rng.uniform(-0.6, 0.6)]), 2)))
        return dict(spec=spec, q=q)

    def reach(self, M, A, B):
        """None: not decided by the model; True/False: reachable"""
        pa, pb = A["path"], B["path"]
        nt = len(M.trunk)
        ra, _ = M.locate(pa, A["u"])
        rb, _ = M.locate(pb, B["u"])
        if ra is rb:
            sp = M.span(pa, A["track"], A["u"])
            if sp is None or not sp[0] <= B["u"] <= sp[1]:
                return None
            return True
        inA, inB = ra not in pb, rb not in pa
        if inA and inB:
            return False           # on different branches
        path = pb if inB else pa
        sp = M.span(path, A["track"], A["u"])
        if sp is None:
            return None
        # the lane has to continue all the way through the road of B
        lo, hi = sp
        if not (lo <= B["u"] <= hi):
            return None
        if M.branches:
            ucon = sum(M.lens[str(rs["id"])] for rs in M.trunk)
            con = path[nt]
            uout = ucon + M.lens[str(con["id"])]
            d = M.dir(A["track"], con["secs"][0])
            if A["u"] < ucon < B["u"]:
                if d < 0:
                    return None
            if A["u"] > uout > B["u"]:
                if d > 0:
                    return None
        return True

    def run(self, case, env):
        try:
            M = net.Linked(case["spec"])
            xml = M.xml()
            ok = M.valid()
        except (KeyError, TypeError, ZeroDivisionError, IndexError, ValueError, AttributeError):
            raise Discard("invalid")
        if not ok:
            raise Discard("invalid")
        rm = self.rm
        rm.RM_SetLogFilePath(b"")
        if rm.RM_InitWithString(xml.encode()) != 0:
            raise Violation("init", "a valid road network was rejected")
        ha, hb = rm.RM_CreatePosition(), rm.RM_CreatePosition()
        for h in (ha, hb):
            rm.RM_SetSnapLaneTypes(h, -1)
        tracks = sorted(case["spec"]["w"])
        diff = capi.RM_PositionDiff()
        done, cross = 0, 0
        classes = set()
        for n, q in enumerate(case["q"] or []):
            P = []
            for hd, s in ((ha, "a"), (hb, "b")):
                path = M.paths[q["p" + s] % len(M.paths)]
                u = q["f" + s] * M.path_len(path)
                if min(abs(u - b) for b in M.breaks(path)) < 1e-3:
                    break
                cand = [t for t in tracks if M.at(path, t, u) is not None]
                if not cand:
                    raise Discard("no lane")
                p = dict(path=path, track=cand[q["t" + s] % len(cand)], u=u)
                a = M.at(path, p["track"], u, q["e" + s])
                road = M.N.by_id[a["road"]]
                p.update(a, t=road.center_t(a["s"], a["lane"])[0] + a["off"], rev=q["r" + s])
                rid = rm.RM_GetRoadIdFromString(a["road"].encode())
                if rm.RM_SetLanePosition(hd, rid, a["lane"], a["off"], a["s"], False) < 0:
                    raise Violation("rc", "placing failed")
                rm.RM_SetH(hd, road.refline(a["s"])[2] + (math.pi if a["flip"] != p["rev"] else 0.0) + (q["dha"] if s == "a" else 0.0))
                P.append(p)
            if len(P) < 2:
                continue
            A, B = P
            r = self.reach(M, A, B)
            if r is None:
                continue
            rc = rm.RM_SubtractAFromB(ha, hb, byref(diff))
            tag = "pair %d: from road %s s %.3f lane %d to road %s s %.3f lane %d (%s)" % (n, A["road"], A["s"], A["lane"], B["road"], B["s"], B["lane"], "reversed" if A["rev"] else "along")
            if not r:
                if rc == 0:
                    raise Violation("route", "%s: distance %.3f reported but there is no route" % (tag, diff.ds))
                classes.add("unreachable")
                done += 1
                continue
            if rc != 0:
                raise Violation("route", "%s: no route reported (%d)" % (tag, rc))
            if not capi.finite(diff):
                raise Violation("nan", "%s: a reported value is not a number" % tag)
            ds = (B["u"] - A["u"]) * (-1 if A["rev"] else 1)
            if abs(diff.ds - ds) > 1e-4:
                raise Violation("ds", "%s: ds %.4f, expected %.4f" % (tag, diff.ds, ds))
            same = A["flip"] == B["flip"]
            dt = B["t"] - (A["t"] if same else -A["t"])
            if abs(diff.dt - dt) > 1e-4:
                raise Violation("dt", "%s: dt %.4f, expected %.4f" % (tag, diff.dt, dt))
            la = M.at(B["path"] if A["path"] is not B["path"] and B["road"] not in [str(r["id"]) for r in A["path"]] else A["path"], A["track"], B["u"])["lane"]
            if A["road"] == B["road"]:
                la = A["lane"]
                if A["k"] != B["k"]:
                    la = None           # lane ids are compared as they are on the same road
            if la is not None:
                dl = B["lane"] - la
                if (B["lane"] > 0) != (la > 0):
                    dl = (abs(dl) - 1) * (1 if dl > 0 else -1)
                if diff.dLaneId != dl:
                    raise Violation("lane", "%s: lane difference %d, expected %d" % (tag, diff.dLaneId, dl))
            done += 1
            if A["road"] != B["road"]:
                cross += 1
                classes.add("roads%s" % ("-rev" if A["rev"] else ""))
            if A["k"] or B["k"]:
                classes.add("sections")
        rm.RM_Close()
        return dict(nontrivial=done >= 8 and cross > 0, checks=done, classes=sorted(classes))


CHECK = R05
