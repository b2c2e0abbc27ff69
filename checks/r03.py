"""R03: queries on the road network answer what the OpenDRIVE file says."""
import math
import pbt, odr, capi, osc, sim
from ctypes import byref, c_int, c_double
from pbt import Violation, Discard
from r01 import pick_s, near_break

UNIT = {"km/h": 1 / 3.6, "mph": 0.44704, "m/s": 1.0, None: 1.0}
UCODE = {"km/h": 1, "m/s": 2, "mph": 3, None: 2}
DRIVABLE = 1966594          # as documented for "any drivable"
IDS = ["7", "0", "12", "A1", "road x", "3", "4294967296", "-5", "001", "B", "2nd", "99", "1e3", "r.7", "5 "]


class R03(pbt.Check):
    id = "R03"
    targets = ["esminiRMLib", "esminiLib"]
    quick_cases, quick_time = 5000, 40
    thorough_cases, thorough_time = 300000, 900
    rule = ("Random networks (1-4 roads with numeric and other ids, lane sections with all lane types, road types with speeds in all units, signals with validity records, junction ids, geo reference), loaded by either library; every road is "
            "queried for ids, length, lanes by type mask and index, lane types and widths at random s, speed limit, road type and rule, signals and validity records, with valid and with out-of-range indices. "
            "Non-trivial: at least two roads or lane sections, and a signal or a speed record.")

    def prepare(self):
        self.rm = capi.rm()
        self.se = capi.se()

    def gen(self, rng):
        ids = rng.sample(IDS, 4) if rng.random() < 0.5 else ["1", "2", "3", "4"]
        if "7" in ids and "001" in ids:
            pass
        roads = []
        for i in range(rng.choice([1, 1, 2, 3, 4])):
            r = odr.gen_road(rng, ids[i], ("line", "arc", "spiral"), maxgeoms=3, ttypes=0.7)
            if r.get("types"):
                for t in r["types"]:
                    t[3] = rng.choice(["km/h", "mph", "m/s", None])
            sg = []
            for k in range(rng.choice([0, 0, 1, 2, 4])):
                sg.append(dict(f=odr.r3(rng.uniform(0.0, 0.999), 3), t=odr.r3(rng.uniform(-8, 8), 2), id=str(10 * i + k), name="sign %d %d" % (i, k), ori=rng.choice(["+", "-", "none"]), z=odr.r3(rng.uniform(0, 5), 2), dyn=rng.random() < 0.3,
                               height=odr.r3(rng.uniform(0.1, 2), 2), width=odr.r3(rng.uniform(0.1, 2), 2), length=rng.choice([None, odr.r3(rng.uniform(0.01, 1), 2)]), ho=odr.r3(rng.uniform(-3, 3), 2),
                               valid=[[rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(rng.choice([0, 0, 1, 2]))]))
            r["signals"] = sg
            roads.append(r)
        net = dict(roads=roads)
        if rng.random() < 0.5:
            net["geo"] = dict(proj=rng.choice(["tmerc", "utm", "merc"]), lat_0=odr.r3(rng.uniform(-80, 80), 6), lon_0=odr.r3(rng.uniform(-179, 179), 6), k=rng.choice([None, 0.9996]), x_0=odr.r3(rng.uniform(-1e5, 1e5), 2), y_0=odr.r3(rng.uniform(-1e5, 1e5), 2),
                              datum=rng.choice([None, "WGS84"]), zone=rng.choice([None, 32]), ellps=rng.choice([None, "GRS80"]), units=rng.choice([None, "m"]))
        if rng.random() < 0.3:
            net["junctions"] = [rng.choice(["9", "J1", "44"])]
        qs = []
        for _ in range(12):
            q = dict(road=rng.randrange(4), mask=rng.choice([-1, 2, DRIVABLE, odr.ANY_ROAD, 1, 8, 1 << rng.randrange(23), rng.randrange(1, 1 << 23)]))
            if rng.random() < 0.4:
                q.update(brk=rng.randrange(24), d=rng.choice([-0.01, 0.01, 0.3, 0.0]))
            else:
                q.update(f=odr.r3(rng.choice([rng.random(), 0.0, 1.0]), 4))
            qs.append(q)
        return dict(net=net, q=qs, lib=rng.choice(["rm", "rm", "se"]), mode=rng.choice(["file", "string"]))

    def run(self, case, env):
        try:
            n2 = {k: v for k, v in case["net"].items() if k not in ("geo", "junctions")}
            geo = case["net"].get("geo")
            if geo:
                n2["geo"] = " ".join("+%s=%s" % (k, v) for k, v in geo.items() if v is not None)
            n2["junctions"] = [dict(id=j, conns=[]) for j in case["net"].get("junctions") or []]
            N = odr.Network(n2)
            xml = N.xml()
            for r in N.roads:
                for g in r.r.get("signals") or []:
                    if not 0 <= g["f"] < 1 or g["ori"] not in ("+", "-", "none") or not isinstance(g["name"], str) or int(g["id"]) < 0:
                        raise Discard("signal")
                for t in r.types:
                    if t[3] not in UNIT:
                        raise Discard("unit")
        except (KeyError, TypeError, ZeroDivisionError, IndexError, ValueError, AttributeError):
            raise Discard("invalid")
        if not N.valid() or any(not isinstance(x.id, str) or x.id not in IDS + ["1", "2", "3", "4"] for x in N.roads):
            raise Discard("invalid")
        return self.run_rm(case, env, N, xml, geo) if case["lib"] == "rm" else self.run_se(case, env, N, xml)

    def signs(self, N, road, rid, L, pre, sign, valid):
        sg = road.r.get("signals") or []
        n = getattr(L, pre + "GetNumberOfRoadSigns")(rid)
        if n != len(sg):
            raise Violation("signs", "road %s has %d signals, %d reported" % (road.id, len(sg), n))
        got = {}
        for i in range(n):
            s = sign()
            for f in s._fields_:
                if f[1] in (c_int, c_double):
                    setattr(s, f[0], 77)
            s.roadId = 123456
            if getattr(L, pre + "GetRoadSign")(rid, i, byref(s)) != 0:
                raise Violation("signs", "signal %d of road %s can't be read" % (i, road.id))
            got[s.id] = (i, s.dict())
        if sorted(got) != sorted(int(g["id"]) for g in sg):
            raise Violation("signs", "road %s has signals %s, reported are %s" % (road.id, sorted(int(g["id"]) for g in sg), sorted(got)))
        for g in sg:
            i, d = got[int(g["id"])]
            s, t = g["f"] * road.length, g["t"]
            exp = dict(s=s, t=t, z_offset=g["z"], height=g["height"], width=g["width"], length=g["length"] or 0.0, orientation=-1 if g["ori"] == "-" else 1, roadId=rid, name=g["name"].encode())
            if not near_break(road, s):
                w = road.pose(s, t)
                exp["x"], exp["y"], _, h = N.world(w["x"], w["y"], w["z"], w["h"])
                if all(abs(road.center_t(s, l)[1]) < 1e-3 for l in road.lane_ids(s)):       # else the heading of some lane is given
                    exp["h"] = h
            for k, v in exp.items():
                bad = abs(odr.adiff(d[k], v)) > 0.1 if k == "h" else abs(d[k] - v) > (0.5 if k in "xy" and (road.elev or road.sup) else 0.1 if k in "xy" else 1e-4) if isinstance(v, float) else d[k] != v
                if bad:
                    raise Violation("sign", "road %s signal %s: %s is %s, expected %s" % (road.id, g["id"], k, d[k], v))
            nv = getattr(L, pre + "GetNumberOfRoadSignValidityRecords")(rid, i)
            if nv != len(g["valid"]):
                raise Violation("validity", "road %s signal %s has %d validity records, %d reported" % (road.id, g["id"], len(g["valid"]), nv))
            for j, (a, b) in enumerate(g["valid"]):
                v = valid()
                if getattr(L, pre + "GetRoadSignValidityRecord")(rid, i, j, byref(v)) != 0 or (v.fromLane, v.toLane) != (a, b):
                    raise Violation("validity", "road %s signal %s validity %d is [%d, %d], expected [%d, %d]" % (road.id, g["id"], j, v.fromLane, v.toLane, a, b))
            v = valid()
            if getattr(L, pre + "GetRoadSignValidityRecord")(rid, i, len(g["valid"]), byref(v)) == 0:
                raise Violation("range", "a validity record beyond the last one is delivered")
        for i in (len(sg), len(sg) + 3, 0xffffffff):
            if getattr(L, pre + "GetRoadSign")(rid, i, byref(sign())) == 0:
                raise Violation("range", "signal %d of %d is delivered" % (i, len(sg)))
            if getattr(L, pre + "GetNumberOfRoadSignValidityRecords")(rid, i) > 0 or getattr(L, pre + "GetRoadSignValidityRecord")(rid, i, 0, byref(valid())) == 0:
                raise Violation("range", "validity of signal %d of %d is delivered" % (i, len(sg)))
        return len(sg)

    def ids(self, N, L, pre):
        """road and junction id mapping; returns {road id string: id}"""
        out = {}
        for r in N.roads:
            rid = getattr(L, pre + "GetRoadIdFromString")(r.id.encode())
            if rid == capi.ID_UNDEFINED:
                raise Violation("id", "road %r is not found" % r.id)
            if getattr(L, pre + "GetRoadIdString")(rid).decode() != r.id:
                raise Violation("id", "road %r has id %d, whose string is %r" % (r.id, rid, getattr(L, pre + "GetRoadIdString")(rid)))
            if r.id.isdigit() and str(int(r.id)) == r.id and int(r.id) < 2 ** 31 and rid != int(r.id):
                raise Violation("id", "road %r has id %d" % (r.id, rid))
            out[r.id] = rid
        if len(set(out.values())) != len(out):
            raise Violation("id", "roads share an id: %s" % out)
        for s in (b"nosuch", b"", b"17"):
            if s.decode() not in out and getattr(L, pre + "GetRoadIdFromString")(s) != capi.ID_UNDEFINED:
                raise Violation("id", "road %r found" % s)
        for j in N.net["junctions"]:
            jid = getattr(L, pre + "GetJunctionIdFromString")(j["id"].encode())
            if jid == capi.ID_UNDEFINED or getattr(L, pre + "GetJunctionIdString")(jid).decode() != j["id"]:
                raise Violation("id", "junction %r has id %d" % (j["id"], jid))
        if getattr(L, pre + "GetJunctionIdFromString")(b"nosuch") != capi.ID_UNDEFINED or getattr(L, pre + "GetJunctionIdString")(777777) != b"":
            raise Violation("id", "a junction that does not exist is found")
        if getattr(L, pre + "GetRoadIdString")(777777) != b"":
            raise Violation("id", "a road that does not exist has an id string")
        unit = 0
        for r in N.roads:
            for t in r.types:
                if t[2] is not None and not unit:
                    unit = UCODE[t[3]]
        if getattr(L, pre + "GetSpeedUnit")() != unit:
            raise Violation("unit", "speed unit %d, expected %d" % (getattr(L, pre + "GetSpeedUnit")(), unit))
        return out

    def result(self, N, nsig, n):
        return dict(nontrivial=(len(N.roads) > 1 or any(len(r.secs) > 1 for r in N.roads)) and (nsig > 0 or any(t[2] is not None for r in N.roads for t in r.types)), checks=n, stats=dict(signals=nsig),
                    classes=["roads:%d" % len(N.roads)] + sorted({"unit:%s" % t[3] for r in N.roads for t in r.types}))

    def run_rm(self, case, env, N, xml, geo):
        rm = self.rm
        rm.RM_SetLogFilePath(b"")
        rc = rm.RM_InitWithString(xml.encode()) if case["mode"] == "string" else rm.RM_Init(env.write("net.xodr", xml).encode())
        if rc != 0:
            raise Violation("init", "a valid road network was rejected")
        if rm.RM_GetNumberOfRoads() != len(N.roads):
            raise Violation("roads", "%d roads, expected %d" % (rm.RM_GetNumberOfRoads(), len(N.roads)))
        rid = self.ids(N, rm, "RM_")
        for i, r in enumerate(N.roads):
            if rm.RM_GetIdOfRoadFromIndex(i) != rid[r.id]:
                raise Violation("index", "road %d is %d, expected %d" % (i, rm.RM_GetIdOfRoadFromIndex(i), rid[r.id]))
            if abs(rm.RM_GetRoadLength(rid[r.id]) - r.length) > 1e-6:
                raise Violation("length", "road %s: length %g, expected %g" % (r.id, rm.RM_GetRoadLength(rid[r.id]), r.length))
        for i in (len(N.roads), 0xffffffff):
            if rm.RM_GetIdOfRoadFromIndex(i) != capi.ID_UNDEFINED:
                raise Violation("range", "road with index %d exists" % i)
        if rm.RM_GetRoadNumberOfLanes(777777, 0.0, -1) != -1:
            raise Violation("range", "a road that does not exist has lanes")
        hd = rm.RM_CreatePosition()
        rm.RM_SetSnapLaneTypes(hd, -1)
        nsig = sum(self.signs(N, r, rid[r.id], rm, "RM_", capi.RM_RoadSign, capi.RM_RoadObjValidity) for r in N.roads)
        done = 0
        lane, w = c_int(), c_double()
        info, data = capi.RM_RoadLaneInfo(), capi.RM_PositionData()
        for q in case["q"]:
            r = N.roads[q["road"] % len(N.roads)]
            s = pick_s(r, q)
            if near_break(r, s) and (all(s != x[0] for x in r.types) or any(0 < abs(s - b) < 1e-3 for b in r.breaks()) or any(abs(s - b[0]) < 1e-3 for b in r.secs)):
                continue            # exactly at the start of a road type record, that record applies
            R = rid[r.id]
            si = r.sec_idx(s)
            lanes = {l["id"]: odr.LANE_TYPES[l.get("type") or "none"] for l in r.secs[si][1]["lanes"]}
            lanes.setdefault(0, 1)
            if lanes[0] == 2:
                lanes[0] = 1
            for mask in (q["mask"], -1):
                exp = sorted(k for k, v in lanes.items() if v & mask)
                n = rm.RM_GetRoadNumberOfLanes(R, s, mask)
                if n != len(exp):
                    raise Violation("lanes", "road %s s %.3f: %d lanes with mask %d, expected %s" % (r.id, s, n, mask, exp))
                got = []
                for i in range(n):
                    if rm.RM_GetLaneIdByIndex(R, i, s, mask, byref(lane)) != 0:
                        raise Violation("lanes", "road %s s %.3f mask %d: lane %d not found" % (r.id, s, mask, i))
                    got.append(lane.value)
                if sorted(got) != exp:
                    raise Violation("lanes", "road %s s %.3f mask %d: lanes %s, expected %s" % (r.id, s, mask, got, exp))
                if any(rm.RM_GetLaneIdByIndex(R, i, s, mask, byref(lane)) == 0 for i in (n, n + 5, -1)):
                    raise Violation("range", "a lane index out of range is accepted")
            drv = sorted(k for k, v in lanes.items() if v & odr.ANY_DRIVING)
            n = rm.RM_GetRoadNumberOfDrivableLanes(R, s)
            got = []
            for i in range(max(0, n)):
                rm.RM_GetDrivableLaneIdByIndex(R, i, s, byref(lane))
                got.append(lane.value)
            if sorted(got) != drv:
                raise Violation("drivable", "road %s s %.3f: drivable lanes %s, expected %s" % (r.id, s, got, drv))
            for lid, ty in lanes.items():
                if rm.RM_GetLaneTypeByRoadId(R, lid, s) != ty:
                    raise Violation("type", "road %s s %.3f lane %d: type %d, expected %d" % (r.id, s, lid, rm.RM_GetLaneTypeByRoadId(R, lid, s), ty))
                exp = r.width(s, lid)[0] if lid else 0.0
                if rm.RM_GetLaneWidthByRoadId(R, lid, s, byref(w)) != 0 or abs(w.value - exp) > 1e-6:
                    raise Violation("width", "road %s s %.3f lane %d: width %g, expected %g" % (r.id, s, lid, w.value, exp))
            lids = sorted(k for k in lanes if k)
            lid = lids[q["road"] % len(lids)]
            if rm.RM_SetLanePosition(hd, R, lid, 0.0, s, True) < 0 or rm.RM_GetLaneInfo(hd, 0.0, byref(info), 2, True) < 0:
                raise Violation("rc", "placement failed")
            for l2 in lids:
                if rm.RM_GetLaneType(hd, l2) != lanes[l2]:
                    raise Violation("type", "at road %s s %.3f: type of lane %d is %d, expected %d" % (r.id, s, l2, rm.RM_GetLaneType(hd, l2), lanes[l2]))
                if rm.RM_GetLaneWidth(hd, l2, byref(w)) != 0 or abs(w.value - r.width(s, l2)[0]) > 1e-6:
                    raise Violation("width", "at road %s s %.3f: width of lane %d is %g, expected %g" % (r.id, s, l2, w.value, r.width(s, l2)[0]))
            if rm.RM_GetInLaneType(hd) != lanes[lid] and r.width(s, lid)[0] > 0.05:
                raise Violation("type", "in the middle of lane %d, of type %d, of road %s at s %.3f: lane type %d" % (lid, lanes[lid], r.id, s, rm.RM_GetInLaneType(hd)))
            if info.lane_type != lanes[lid]:
                raise Violation("type", "lane info: type of lane %d is %d, expected %d" % (lid, info.lane_type, lanes[lid]))
            ty = [t for t in r.types if t[0] <= s] or r.types[:1]
            sl = rm.RM_GetSpeedLimit(hd)
            if ty and ty[-1][2] is not None:
                exp = ty[-1][2] * UNIT[ty[-1][3]]
                if abs(sl - exp) > 1e-6 or abs(info.speed_limit - exp) > 1e-6:
                    raise Violation("speed", "road %s s %.3f: speed limit %g, and %g in the lane info, expected %g (%s)" % (r.id, s, sl, info.speed_limit, exp, ty[-1]))
            elif not sl > 0:
                raise Violation("speed", "no speed limit: %g" % sl)
            rt = odr.ROAD_TYPES.index(ty[-1][1]) if ty else 0
            if info.road_type != rt:
                raise Violation("roadtype", "road %s s %.3f: road type %d, expected %d" % (r.id, s, info.road_type, rt))
            if info.road_rule != (1 if r.lht() else 0):
                raise Violation("rule", "road %s: rule %d" % (r.id, info.road_rule))
            done += 1
        # handles out of range: refused
        for bad in (-1, 1, 99):
            if rm.RM_GetPositionData(bad, byref(data)) == 0 or rm.RM_GetLaneInfo(bad, 0.0, byref(info), 2, True) == 0 or rm.RM_SetLanePosition(bad, rid[N.roads[0].id], -1, 0.0, 0.0, True) == 0 or rm.RM_PositionMoveForward(bad, 1.0, 0.0) == 0 \
                    or rm.RM_GetLaneWidth(bad, 1, byref(w)) == 0 or rm.RM_SubtractAFromB(bad, hd, byref(capi.RM_PositionDiff())) == 0 or rm.RM_SubtractAFromB(hd, bad, byref(capi.RM_PositionDiff())) == 0 \
                    or rm.RM_SetS(bad, 1.0) == 0 or rm.RM_SetH(bad, 1.0) == 0 or rm.RM_SetRoadId(bad, 1) == 0 or rm.RM_SetWorldXYHPosition(bad, 0.0, 0.0, 0.0) == 0 or rm.RM_SetWorldPosition(bad, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0) == 0 \
                    or rm.RM_SetRoadPosition(bad, 1, 0.0, 0.0, True) == 0 or rm.RM_CopyPosition(bad) >= 0 or rm.RM_SetSnapLaneTypes(bad, 1) == 0 or rm.RM_SetLockOnLane(bad, True) == 0 or rm.RM_GetSpeedLimit(bad) > 0 \
                    or rm.RM_GetProbeInfo(bad, 1.0, byref(capi.RM_RoadProbeInfo()), 0, True) == 0 or (bad >= 0 and rm.RM_DeletePosition(bad) == 0):
                raise Violation("handle", "position %d, which does not exist, is accepted" % bad)
            rm.RM_SetObjectPositionMode(bad, 1, 3)
            rm.RM_SetObjectPositionModeDefault(bad, 1)
        g = capi.RM_GeoReference()
        if rm.RM_GetOpenDriveGeoReference(byref(g)) != 0:
            raise Violation("geo", "no geo reference")
        if geo:
            for k in ("proj", "lat_0", "lon_0", "k", "x_0", "y_0", "datum", "zone", "ellps", "units"):
                v = geo.get(k)
                if v is None:
                    continue
                x = getattr(g, k + "_")
                if (x.decode() != v) if isinstance(v, str) else abs(x - v) > 1e-9 * max(1, abs(v)):
                    raise Violation("geo", "%s of the geo reference is %s, expected %s" % (k, x, v))
            if g.original_georef_str_.decode() != N.net["geo"]:
                raise Violation("geo", "geo reference %r, expected %r" % (g.original_georef_str_, N.net["geo"]))
        rm.RM_Close()
        return self.result(N, nsig, done)

    def run_se(self, case, env, N, xml):
        r0 = N.roads[0]
        lid = [i for i in r0.lane_ids(0.0) if i][0]
        x = osc.scenario(dict(vars=[], entities=[osc.vehicle("Ego")], init=dict(Ego=[dict(k="teleport", pos=dict(k="lane", road=r0.id, lane=lid, s=0.5 * min(1.0, r0.length)))]), stories=[]))
        S = sim.Sim(self.se, env, x, xml)
        if S.rc != 0:
            raise Violation("init", "the scenario was rejected")
        rid = self.ids(N, self.se, "SE_")
        nsig = sum(self.signs(N, r, rid[r.id], self.se, "SE_", capi.SE_RoadSign, capi.SE_RoadObjValidity) for r in N.roads)
        if S.state(S.id("Ego")).roadId != rid[r0.id]:
            raise Violation("id", "an object placed on road %r is on road %d" % (r0.id, S.state(S.id("Ego")).roadId))
        S.close()
        return self.result(N, nsig, nsig)


CHECK = R03
