"""Linked road networks: a trunk of roads in travel order, optionally a junction with branches.

spec = {trunk:[rs..], branches:[{conn:rs, roads:[rs..]}..], w:{track: width}, rule:'RHT'|'LHT', start:[x,y,h], jid}
rs   = {id, flip, geoms:[travel direction], secs:[{f, R:[tracks from the center], L:[...]}], types?}
A track is a lane that keeps its identity over sections and roads; its lane ids follow from its place in each section.
"""
import math
import odr


def rev_geom(g):
    g = dict(g)
    if g["t"] == "arc":
        g["k"] = -g["k"]
    elif g["t"] == "spiral":
        g["k0"], g["k1"] = -g["k1"], -g["k0"]
    return g


def lane_id(sec, track, flip):
    if track in sec["R"]:
        i = -(sec["R"].index(track) + 1)
    elif track in sec["L"]:
        i = sec["L"].index(track) + 1
    else:
        return None
    return -i if flip else i


class Linked:
    def __init__(self, spec):
        self.spec = spec
        self.lht = spec.get("rule") == "LHT"
        self.trunk = spec["trunk"]
        self.branches = spec.get("branches") or []
        self.jid = str(spec.get("jid") or "100")
        self.rs = {}
        roads, self.junctions = [], []
        x, y, h = spec.get("start") or [0.0, 0.0, 0.0]
        pose = self._chain(self.trunk, (x, y, h), roads)
        self.paths = []
        if not self.branches:
            self.paths = [list(self.trunk)]
        for b in self.branches:
            p = self._chain([b["conn"]], pose, roads)
            self._chain(b["roads"], p, roads)
            self.paths.append(list(self.trunk) + [b["conn"]] + list(b["roads"]))
        self._link()
        net = dict(roads=roads)
        if self.branches:
            net["junctions"] = [dict(id=self.jid, conns=self.conns)]
        self.net = net
        self.N = odr.Network(net)
        self.lens = {r.id: r.length for r in self.N.roads}

    def _chain(self, specs, pose, out):
        for rs in specs:
            if str(rs["id"]) in self.rs:
                raise KeyError("duplicate")
            self.rs[str(rs["id"])] = rs
            fwd = odr.Road(dict(id=rs["id"], geoms=rs["geoms"], start=list(pose), secs=[dict(f=0.0, lanes=[])]))
            secs = rs["secs"]
            road = dict(id=str(rs["id"]), rule=self.spec.get("rule"), types=rs.get("types"), elev=rs.get("elev"), secs=[])
            order = range(len(secs))
            if not rs["flip"]:
                road["geoms"], road["start"] = rs["geoms"], list(pose)
            else:
                ex, ey, eh = fwd.end
                road["geoms"], road["start"] = [rev_geom(g) for g in reversed(rs["geoms"])], [ex, ey, eh + math.pi]
                order = reversed(order)
            for k in order:
                if rs["flip"]:
                    f = 1.0 - secs[k + 1]["f"] if k + 1 < len(secs) else 0.0
                else:
                    f = secs[k]["f"]
                lanes = []
                for tr in list(secs[k]["R"]) + list(secs[k]["L"]):
                    lanes.append(dict(id=lane_id(secs[k], tr, rs["flip"]), type=self.spec.get("types", {}).get(str(tr), "driving"), w=[[0.0, self.spec["w"][str(tr)], 0.0, 0.0, 0.0]], track=tr, k=k))
                lanes.sort(key=lambda l: -l["id"])
                road["secs"].append(dict(f=f, lanes=lanes))
            if not road["rule"]:
                road.pop("rule")
            rs["_road"] = road
            out.append(road)
            pose = fwd.end
        return pose

    @staticmethod
    def cp_in(rs):
        """contact point met when travelling into the road"""
        return "end" if rs["flip"] else "start"

    @staticmethod
    def cp_out(rs):
        return "start" if rs["flip"] else "end"

    def _setlink(self, rs, forward, link):
        key = "succ" if forward != bool(rs["flip"]) else "pred"
        rs["_road"][key] = link

    def _link(self):
        def lanelinks(rs, k, nrs, nk):
            """link section k of road rs to section nk of road nrs (next in travel order)"""
            for tr in rs["secs"][k]["R"] + rs["secs"][k]["L"]:
                if tr in nrs["secs"][nk]["R"] + nrs["secs"][nk]["L"]:
                    a = self._lane(rs, k, tr)
                    b = self._lane(nrs, nk, tr)
                    a["pred" if rs["flip"] else "succ"] = b["id"]
                    b["succ" if nrs["flip"] else "pred"] = a["id"]

        def road_road(a, b):
            self._setlink(a, True, dict(type="road", id=str(b["id"]), cp=self.cp_in(b)))
            self._setlink(b, False, dict(type="road", id=str(a["id"]), cp=self.cp_out(a)))
            lanelinks(a, len(a["secs"]) - 1, b, 0)

        for rs in self.rs.values():
            for k in range(len(rs["secs"]) - 1):
                lanelinks(rs, k, rs, k + 1)
        for a, b in zip(self.trunk, self.trunk[1:]):
            road_road(a, b)
        self.conns = []
        if not self.branches:
            return
        last = self.trunk[-1]
        self._setlink(last, True, dict(type="junction", id=self.jid))
        for b in self.branches:
            con, first = b["conn"], b["roads"][0]
            con["_road"]["junction"] = self.jid
            for p, q in zip(b["roads"], b["roads"][1:]):
                road_road(p, q)
            # connecting road: lane links of its own lanes to both neighbours
            self._setlink(con, False, dict(type="road", id=str(last["id"]), cp=self.cp_out(last)))
            self._setlink(con, True, dict(type="road", id=str(first["id"]), cp=self.cp_in(first)))
            self._setlink(first, False, dict(type="junction", id=self.jid))
            for tr in con["secs"][0]["R"] + con["secs"][0]["L"]:
                i = lane_id(last["secs"][-1], tr, last["flip"])
                if i is not None:
                    self._lane(con, 0, tr)["succ" if con["flip"] else "pred"] = i
            for tr in con["secs"][-1]["R"] + con["secs"][-1]["L"]:
                i = lane_id(first["secs"][0], tr, first["flip"])
                if i is not None:
                    self._lane(con, len(con["secs"]) - 1, tr)["pred" if con["flip"] else "succ"] = i
            fl = [[lane_id(last["secs"][-1], tr, last["flip"]), lane_id(con["secs"][0], tr, con["flip"])] for tr in con["secs"][0]["R"] + con["secs"][0]["L"]
                  if self.dir(tr, con["secs"][0]) > 0 and lane_id(last["secs"][-1], tr, last["flip"]) is not None]
            bl = [[lane_id(first["secs"][0], tr, first["flip"]), lane_id(con["secs"][-1], tr, con["flip"])] for tr in con["secs"][-1]["R"] + con["secs"][-1]["L"]
                  if self.dir(tr, con["secs"][-1]) < 0 and lane_id(first["secs"][0], tr, first["flip"]) is not None]
            if fl:
                self.conns.append(dict(inc=str(last["id"]), con=str(con["id"]), cp=self.cp_in(con), links=fl))
            if bl:
                self.conns.append(dict(inc=str(first["id"]), con=str(con["id"]), cp=self.cp_out(con), links=bl))

    def _lane(self, rs, k, tr):
        for sec in rs["_road"]["secs"]:
            for l in sec["lanes"]:
                if l["track"] == tr and l["k"] == k:
                    return l
        raise KeyError(tr)

    def dir(self, tr, sec):
        """+1 when the track is driven in travel direction"""
        r = 1 if tr in sec["R"] else -1
        return -r if self.lht else r

    def xml(self):
        return self.N.xml()

    def valid(self):
        if not self.N.valid() or not self.trunk:
            return False
        for rs in self.rs.values():
            fs = [s["f"] for s in rs["secs"]]
            if fs[0] != 0.0 or any(b <= a for a, b in zip(fs, fs[1:])) or fs[-1] >= 1:
                return False
            for s in rs["secs"]:
                if len(set(s["R"] + s["L"])) != len(s["R"] + s["L"]) or not s["R"] + s["L"]:
                    return False
        for b in self.branches:
            if not b["roads"]:
                return False
        return all(w and w > 0.5 for w in self.spec["w"].values())

    # ---- positions along a path
    def path_len(self, path):
        return sum(self.lens[str(rs["id"])] for rs in path)

    def locate(self, path, u):
        """road spec, travel distance inside it"""
        for rs in path:
            L = self.lens[str(rs["id"])]
            if u <= L or rs is path[-1]:
                return rs, min(max(u, 0.0), L)
            u -= L

    def at(self, path, track, u, e=0.0):
        """(road id, s, lane id, lane offset, t-section k) of a track at travel distance u, or None"""
        rs, v = self.locate(path, u)
        L = self.lens[str(rs["id"])]
        k = 0
        for j, sec in enumerate(rs["secs"]):
            if v >= sec["f"] * L:
                k = j
        lid = lane_id(rs["secs"][k], track, rs["flip"])
        if lid is None:
            return None
        return dict(road=str(rs["id"]), s=L - v if rs["flip"] else v, lane=lid, off=-e if rs["flip"] else e, k=k, flip=rs["flip"], dir=self.dir(track, rs["secs"][k]))

    def breaks(self, path):
        out, u = [0.0], 0.0
        for rs in path:
            L = self.lens[str(rs["id"])]
            out += [u + s["f"] * L for s in rs["secs"]]
            u += L
        return out + [u]

    def span(self, path, track, u):
        """the interval of travel distance, containing u, over which the track is uninterrupted"""
        iv, a = [], 0.0
        for rs in path:
            L = self.lens[str(rs["id"])]
            for j, sec in enumerate(rs["secs"]):
                b0 = a + sec["f"] * L
                b1 = a + (rs["secs"][j + 1]["f"] * L if j + 1 < len(rs["secs"]) else L)
                iv.append((b0, b1, track in sec["R"] + sec["L"]))
            a += L
        lo = hi = None
        for i, (b0, b1, has) in enumerate(iv):
            if b0 <= u <= b1 and has:
                j = i
                while j > 0 and iv[j - 1][2]:
                    j -= 1
                k = i
                while k + 1 < len(iv) and iv[k + 1][2]:
                    k += 1
                return iv[j][0], iv[k][1]
        return None


def gen_linked(rng, kinds=("line", "arc", "spiral"), junction=0.5, ntrunk=(1, 4), straight=False, minlen=8.0, maxlen=80.0, maxgeoms=2, multisec=0.5, flips=0.5, kmax=0.02):
    nR, nL = rng.choice([(1, 1), (2, 2), (2, 1), (1, 2), (3, 2), (2, 0), (1, 0)])
    persistent = dict(R=["r%d" % i for i in range(nR)], L=["l%d" % i for i in range(nL)])
    w = {t: odr.r3(rng.uniform(2.5, 4.0), 2) for t in persistent["R"] + persistent["L"]}
    extra = [0]
    ids = list(range(1, 60))
    rng.shuffle(ids)

    def sec(f):
        R, L = list(persistent["R"]), list(persistent["L"])
        for side in (R, L):
            if rng.random() < 0.35:             # an extra lane, only in this section, shifts the ids when inner
                t = "x%d" % extra[0]
                extra[0] += 1
                w[t] = odr.r3(rng.uniform(2.5, 4.0), 2)
                if side or side is R:
                    side.insert(rng.randrange(len(side) + 1), t)
        return dict(f=f, R=R, L=L)

    def road(geoms=None, plain=False):
        if geoms is None:
            geoms = []
            for _ in range(rng.randint(1, maxgeoms)):
                g = odr.gen_geom(rng, ("line",) if straight else kinds, maxlen, kmax=kmax, turn=0.5)
                if g["l"] < minlen / 2:
                    g["l"] = odr.r3(g["l"] + minlen, 2)
                geoms.append(g)
        fr = [0.0]
        if not plain and rng.random() < multisec:
            fr += sorted(set(odr.r3(rng.uniform(0.1, 0.9), 2) for _ in range(rng.randint(1, 2))))
        return dict(id=str(ids.pop()), flip=rng.random() < flips, geoms=geoms, secs=[sec(f) for f in fr])

    spec = dict(trunk=[road() for _ in range(rng.randint(*ntrunk))], branches=[], w=w, rule=rng.choice([None, None, "RHT", "LHT"]),
                start=[odr.r3(rng.uniform(-300, 300), 2), odr.r3(rng.uniform(-300, 300), 2), odr.r3(rng.uniform(-3.1, 3.1), 3)], jid=str(rng.randint(100, 120)))
    if rng.random() < junction:
        angles = rng.sample([-1.2, -0.5, 0.0, 0.6, 1.2], rng.randint(2, 3))
        for a in sorted(angles):
            L = odr.r3(rng.uniform(18, 30), 2)
            g = [dict(t="line", l=L)] if a == 0.0 else [dict(t="arc", l=L, k=float("%.5g" % (a / L)))]
            con = road(g, plain=True)
            con["secs"] = [dict(f=0.0, R=list(persistent["R"]), L=list(persistent["L"]))]
            spec["branches"].append(dict(conn=con, roads=[road() for _ in range(rng.randint(1, 2))]))
    return spec
