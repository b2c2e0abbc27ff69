"""S11: recordings. The .dat file, and what dat2csv makes of it, is the simulation as it was; a file cut at any point yields the part before the cut."""
import ctypes as C, math, os, struct, subprocess
import pbt, capi, kitchen, sim
from pbt import Violation, Discard

KINDS = ["speed", "speed", "profile", "lanechange", "laneoffset", "teleport", "longdist", "traj", "visibility", "light", "delent", "addent", "delent", "addent", "activate", "setvar"]
COLS = ["time", "id", "name", "x", "y", "z", "h", "p", "r", "roadId", "laneId", "laneOffset", "t", "s", "speed", "wheel_angle", "wheel_rot"]
INTS = {2: "objectType", 3: "objectCategory", 4: "ctrl_type", 12: "visibilityMask", 14: "roadId", 15: "laneId", 1: "model_id"}
DBLS = {7: "speed", 8: "wheel_angle", 9: "wheel_rot", 16: "laneOffset", 17: "t", 18: "s"}
FIELDS = list(INTS.values()) + list(DBLS.values()) + list("xyzhpr") + ["centerOffsetX", "centerOffsetY", "centerOffsetZ", "length", "width", "height"]
TOL = 2.5e-6


def decode(data):
    """recording -> list of (time, {object: {field: value}}, [element state changes]), one entry for each recorded time stamp"""
    u = lambda o: struct.unpack_from("<I", data, o)[0]
    if len(data) < 12 or u(0) != 5:
        return None
    pos = 12 + u(8)
    out, objs, t, oid, changes = [], {}, None, None, []

    def flush():
        if t is not None:
            out.append((t, {k: dict(v) for k, v in objs.items()}, changes))
    while pos + 8 <= len(data):
        pid, size = u(pos), u(pos + 4)
        d = data[pos + 8:pos + 8 + size]
        pos += 8 + size
        f = lambda n: struct.unpack_from("<%dd" % n, d)
        i = lambda: struct.unpack_from("<i", d)[0]
        if pid == 5:
            flush()
            changes = []
            t = f(1)[0]
        elif pid == 0:
            oid = i()
            objs.setdefault(oid, {})
        elif pid == 13:
            objs[oid].update(zip("xyzhpr", f(6)))
        elif pid in INTS:
            objs[oid][INTS[pid]] = i()
        elif pid in DBLS:
            objs[oid][DBLS[pid]] = f(1)[0]
        elif pid == 10:
            objs[oid].update(zip(["centerOffsetX", "centerOffsetY", "centerOffsetZ", "length", "width", "height"], f(6)))
        elif pid == 6:
            objs[oid]["name"] = d[4:].decode()
        elif pid == 19:
            objs.pop(oid, None)
        elif pid == 27:
            changes += d[4:].decode().split("\n")
        elif pid == 31:
            ty, mode = struct.unpack_from("<ii", d)
            objs[oid]["light%d" % ty] = mode
    flush()
    return out


def near(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= TOL * max(1.0, abs(a)) or (abs(abs(a - b) - 2 * math.pi) < TOL)
    return a == b


def signed(v):
    return v - (1 << 32) if v >= 1 << 31 else v


class S11(pbt.Check):
    id = "S11"
    targets = ["esminiLib", "dat2csv"]
    quick_cases, quick_time = 2500, 40
    thorough_cases, thorough_time = 100000, 900
    rule = ("Random scenarios on linked roads (speed, lane, trajectory, light, visibility actions, entities deleted and added, moves reported through the API, objects that stand still for a while), recorded with random, also changing, "
            "time steps. The recording is decoded and converted with dat2csv, and both are compared with the states the API reported after each step; then the file is cut at random points and converted again. "
            "Non-trivial: at least 10 steps, at least one step in which some object did not change and one in which it did, and at least one cut.")

    def prepare(self):
        self.se = capi.se()

    def gen(self, rng):
        case = kitchen.gen(rng, kinds=KINDS, ctrl=0.2, ctrls=["ACCController", "SloppyDriverController"], steps=(8, 60), maxobj=4, events=(1, 6), ntrunk=(1, 3), dts=((0.1,), (0.1,), (0.05,), (0.02, 0.1), (0.1, 0.3, 0.013)))
        if rng.random() < 0.6:      # phases where nothing moves
            for e in case["ents"]:
                if rng.random() < 0.8:
                    e["v"], e["ctrl"] = 0.0, None
        if rng.random() < 0.4:      # blocks of the same time step
            n = len(case["steps"])
            case["steps"] = []
            while len(case["steps"]) < n:
                case["steps"] += [rng.choice([0.1, 0.05, 0.2, 0.01])] * rng.randint(1, 15)
        case["rep"] = [[rng.randrange(len(case["steps"])), rng.randrange(4), rng.choice(["speed", "pos"]), round(rng.uniform(0, 10), 2)] for _ in range(rng.choice([0, 0, 1, 3]))]
        case["cuts"] = [round(rng.random() ** rng.choice([1, 2]), 4) for _ in range(rng.randint(1, 4))]
        case["close"] = rng.random() < 0.8
        return case

    def convert(self, path):
        out = path + ".csv"
        try:
            r = subprocess.run([os.path.join(pbt.BUILD, "dat2csv"), "--file", path, "--extended", "--precision", "9", "--csv", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
        except subprocess.TimeoutExpired:
            return "hang", None
        if r.returncode < 0:
            return "crash", None
        rows = []
        if os.path.exists(out):
            for i, l in enumerate(open(out)):
                if i == 0:
                    continue
                c = [x.strip() for x in l.split(",")]
                if len(c) != len(COLS):
                    return "format: " + l[:100], None
                rows.append({k: (v if k == "name" else int(v) if k in ("id", "roadId", "laneId") else float(v)) for k, v in zip(COLS, c)})
            os.unlink(out)
        return None, rows

    def run(self, case, env):
        B = kitchen.build(case)
        se = self.se
        dat = env.path("rec.dat")
        try:
            rep = {}
            for k, o, kind, v in case["rep"]:
                rep.setdefault(int(k), []).append((int(o), str(kind), float(v)))
            cuts = [float(c) for c in case["cuts"]]
        except (TypeError, ValueError):
            raise Discard("invalid")
        S = sim.Sim(se, env, B.xosc, B.xodr, record="rec.dat", elems=True)
        if S.rc != 0:
            S.close()
            raise Discard("rejected")
        hist = []

        def snap():
            objs = {}
            for i in range(se.SE_GetNumberOfObjects()):
                oid = se.SE_GetId(i)
                st = capi.SE_ScenarioObjectState()
                if se.SE_GetObjectState(oid, C.byref(st)) != 0:
                    continue
                d = st.dict()
                d["roadId"] = signed(d["roadId"])
                d["name"] = se.SE_GetObjectName(oid).decode()
                for ty in range(14):
                    ls = capi.SE_LightState()
                    if d["objectType"] == 1 and se.SE_GetObjectLightState(oid, ty, C.byref(ls)) == 0:
                        d["light%d" % ty] = ls.light_mode
                objs[oid] = d
            hist.append((se.SE_GetSimulationTime(), objs, S.take()))
        snap()
        for k, dt in enumerate(case["steps"]):
            for o, kind, v in rep.get(k, []):
                oid = se.SE_GetId(o % max(1, se.SE_GetNumberOfObjects()))
                st = capi.SE_ScenarioObjectState()
                if se.SE_GetObjectState(oid, C.byref(st)) == 0:
                    if kind == "speed":
                        se.SE_ReportObjectSpeed(oid, v)
                    else:
                        se.SE_ReportObjectPosXYH(oid, st.x + v / 10, st.y + v / 20, st.h)
            S.step(dt)
            snap()
            if se.SE_GetQuitFlag() != 0:
                break
        if case["close"]:
            S.close()
        else:
            se.SE_Close()      # the writer ends the file; what a killed process leaves behind is covered by the cuts
        data = open(dat, "rb").read()
        # ---- the file
        dec = decode(data)
        if dec is None:
            raise Discard("unknown format version")
        j, still, moved = -1, 0, 0
        for k, (t, objs, changes) in enumerate(hist):
            new = []
            while j + 1 < len(dec) and dec[j + 1][0] <= t + 1e-9:
                j += 1
                new += dec[j][2]
            if j < 0:
                raise Violation("file", "nothing recorded at time %g" % t)
            rec = dec[j][1]
            if sorted(rec) != sorted(objs):
                raise Violation("objects", "step %d, time %g: objects %s in the recording, %s in the simulation" % (k, t, sorted(rec), sorted(objs)))
            for oid, d in objs.items():
                r = rec[oid]
                for f in FIELDS + ["name"] + [x for x in r if x.startswith("light")]:
                    if f == "model_id" and f not in r and d[f] == -1 or f == "roadId" and f not in r and d[f] == -1:
                        continue
                    if f not in r or (f in d and not near(r[f], d[f])):
                        raise Violation("file", "step %d, time %g: %s of object %d recorded as %s, was %s" % (k, t, f, oid, r.get(f), d.get(f)))
            want = sorted("%d;%d;%s;%s" % (c[1], c[2], c[0], c[3]) for c in changes)
            if sorted(new) != want and k > 0:
                raise Violation("elements", "step %d, time %g: element changes %s recorded, were %s" % (k, t, sorted(new)[:3], want[:3]))
            if k:
                same = [hist[k - 1][1].get(o, {}).get("x") == d["x"] for o, d in objs.items()]
                still += any(same)
                moved += not all(same)
        # ---- the csv
        err, rows = self.convert(dat)
        if err:
            raise Violation("csv", "dat2csv: %s" % err)
        self.compare(rows, hist, len(hist), "")
        # ---- cut files
        ncut = 0
        starts = self.starts(data)
        for c in cuts:
            n = int(c * len(data))
            if n < 12 or n >= len(data):
                continue
            p = env.path("cut.dat")
            with open(p, "wb") as f:
                f.write(data[:n])
            err, rows = self.convert(p)
            where = "file cut after %d of %d bytes: " % (n, len(data))
            # steps whose packets are complete: up to the last but one time stamp within the cut
            full = [t for t, e in starts if e <= n]
            if err == "hang":
                raise Violation("cut", where + "dat2csv does not end")
            if err == "crash":
                raise Violation("cut", where + "dat2csv crashes")
            if err:
                raise Violation("cut", where + err)
            ncut += 1
            tl = full[-2] if len(full) > 1 else -1.0
            sure = [h for h in hist if h[0] < tl + 1e-9]
            self.compare([r for r in rows if r["time"] < tl + 1e-6], sure, len(sure), where)
            if rows and rows[-1]["time"] > full[-1] + 1e-6:
                raise Violation("cut", where + "rows beyond the end: time %g" % rows[-1]["time"])
        return dict(nontrivial=len(hist) >= 10 and still > 0 and moved > 0 and ncut > 0, checks=len(hist), cuts=ncut, stats=dict(steps=len(hist), cuts=ncut, bytes=len(data)),
                    classes=["dt:%d" % min(3, len(set(case["steps"])))] + (["still"] if still else []) + (["deleted/added"] if len({tuple(h[1]) for h in hist}) > 1 else []))

    @staticmethod
    def starts(data):
        """(time, end offset) of all time stamp packets"""
        u = lambda o: struct.unpack_from("<I", data, o)[0]
        pos, out = 12 + u(8), []
        while pos + 8 <= len(data):
            size = u(pos + 4)
            if u(pos) == 5:
                out.append((struct.unpack_from("<d", data, pos + 8)[0], pos + 8 + size))
            pos += 8 + size
        return out

    def compare(self, rows, hist, n, where):
        exp = []
        for t, objs, _ in hist[:n]:
            for oid in sorted(objs):
                exp.append((t, oid, objs[oid]))
        for i, (r, (t, oid, d)) in enumerate(zip(rows, exp)):
            if abs(r["time"] - t) > 1e-5 or r["id"] != oid:
                raise Violation("rows", "%srow %d is object %d at time %g, expected object %d at time %g" % (where, i, r["id"], r["time"], oid, t))
            for f in COLS[2:]:
                if not near(r[f], d[f]):
                    raise Violation("csv", "%stime %g: %s of object %d is %s in the csv, was %s" % (where, t, f, oid, r[f], d[f]))
        if len(rows) != len(exp):
            raise Violation("rows", "%s%d rows, expected %d (%d time stamps); last rows %s" % (where, len(rows), len(exp), n, [(round(r["time"], 4), r["id"]) for r in rows[-3:]]))


CHECK = S11
