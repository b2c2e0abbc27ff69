"""Small property-based testing engine.

A check is a subclass of Check with gen(rng) -> case (a JSON document) and
run(case, env) -> info dict, or raise Violation.  Every case is executed in a
forked child, so that each case sees a fresh library, and a crash, an exit() or
a hang of the code under test is observed and not suffered.
"""
import copy, hashlib, json, math, os, random, select, shutil, signal, struct, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
REPO = "/repo"


class Violation(Exception):
    def __init__(self, kind, msg, **data):
        super().__init__(msg)
        self.kind, self.msg, self.data = kind, msg, data


class Discard(Exception):
    """The case is outside the property's domain (or invalid after shrinking)."""


class Env:
    def __init__(self, scratch):
        self.scratch = scratch

    def path(self, name):
        return os.path.join(self.scratch, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p


class Check:
    id = None
    targets = ["esminiRMLib"]
    level = "exploration"
    rule = ""
    assumptions = []
    quick_cases, quick_time = 4000, 40
    thorough_cases, thorough_time = 400000, 600
    case_timeout = 20
    crash_is_violation = True
    pinned = []          # fixed regression cases, always run first

    def prepare(self):
        pass

    def gen(self, rng):
        raise NotImplementedError

    def run(self, case, env):
        raise NotImplementedError

    def shrink_candidates(self, case):
        return json_shrinks(case)

    def describe(self, case):
        return case


# ---------------------------------------------------------------- building

def build(targets):
    """Bring the libraries up to date with /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    log = os.path.join(BUILD, "build.log")
    env = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CC", "CXX"):
        env.pop(k, None)
    import fcntl
    with open(os.path.join(VERIF, ".build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with open(log, "w") as f:
            for attempt in (0, 1):
                r = subprocess.run(["cmake", "-S", os.path.join(VERIF, "build_src"), "-B", BUILD, "-G", "Ninja", "-DR=" + REPO],
                                   stdout=f, stderr=subprocess.STDOUT, env=env).returncode
                if r == 0:
                    r = subprocess.run(["ninja", "-C", BUILD] + targets, stdout=f, stderr=subprocess.STDOUT, env=env).returncode
                if r == 0:
                    return
                if attempt == 0:
                    f.flush()
                    shutil.rmtree(os.path.join(BUILD, "CMakeFiles"), ignore_errors=True)
                    for n in ("CMakeCache.txt", "build.ninja", ".ninja_log", ".ninja_deps"):
                        try:
                            os.unlink(os.path.join(BUILD, n))
                        except OSError:
                            pass
    sys.stderr.write(open(log).read()[-6000:])
    print("ERROR: cannot build the libraries from /repo")
    sys.exit(2)


# ---------------------------------------------------------------- executing one case

def start_case(check, case, scratch, timeout):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setsid()
            os.chdir(scratch)
            fd = os.open(os.path.join(scratch, "stdout.txt"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
            try:
                info = check.run(case, Env(scratch)) or {}
                out = dict(status="ok", info=info)
            except Violation as v:
                out = dict(status="violation", kind=v.kind, msg=v.msg, data=v.data)
            except Discard as d:
                out = dict(status="discard", msg=str(d))
            except Exception:
                out = dict(status="error", msg=traceback.format_exc())
            data = json.dumps(out, default=str).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
        finally:
            os._exit(77)
    os.close(w)
    return pid, r, time.time() + timeout, timeout, scratch


def finish_case(check, h):
    pid, r, t_end, timeout, scratch = h
    buf, timed = [], False
    while True:
        left = t_end - time.time()
        if left <= 0:
            timed = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed = True
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf.append(d)
    os.close(r)
    if timed:
        for f in (os.killpg, os.kill):
            try:
                f(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
        return dict(status="hang", kind="hang", msg="no result within %gs" % timeout)
    _, st = os.waitpid(pid, 0)
    if buf:
        try:
            return json.loads(b"".join(buf))
        except ValueError:
            pass
    if os.WIFSIGNALED(st):
        why = "process killed by signal %d" % os.WTERMSIG(st)
    else:
        why = "process called exit(%d)" % os.WEXITSTATUS(st)
    tail = ""
    try:
        tail = open(os.path.join(scratch, "stdout.txt"), errors="replace").read()[-600:]
    except OSError:
        pass
    return dict(status="violation" if check.crash_is_violation else "discard", kind="crash", msg=why, data=dict(tail=tail))


def execute(check, case, scratch, timeout):
    """Run one case in a forked child. Returns dict(status=ok|violation|discard|error|hang, ...)"""
    return finish_case(check, start_case(check, case, scratch, timeout))


def clean_dir(d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            try:
                os.unlink(p)
            except OSError:
                pass


# ---------------------------------------------------------------- shrinking

def json_shrinks(case):
    """Structurally smaller variants of a JSON document, most aggressive first."""
    def paths(node, path):
        yield path, node
        if isinstance(node, dict):
            for k in list(node):
                yield from paths(node[k], path + [k])
        elif isinstance(node, list):
            for i, v in enumerate(node):
                yield from paths(v, path + [i])

    def put(path, value):
        c = copy.deepcopy(case)
        n = c
        for p in path[:-1]:
            n = n[p]
        n[path[-1]] = value
        return c

    allp = list(paths(case, []))
    for path, node in allp:                       # drop parts of lists
        if isinstance(node, list) and node and path:
            n = len(node)
            size = n
            while size >= 1:
                for start in range(0, n, size):
                    rest = node[:start] + node[start + size:]
                    if len(rest) < n:
                        yield put(path, rest)
                size //= 2
    for path, node in allp:                       # drop optional keys
        if isinstance(node, dict) and path:
            for k in list(node):
                if isinstance(node[k], (dict, list)):
                    yield put(path, {kk: (None if kk == k else vv) for kk, vv in node.items()})
    for path, node in allp:                       # simplify numbers
        if not path:
            continue
        if isinstance(node, bool):
            if node:
                yield put(path, False)
        elif isinstance(node, int):
            for v in (0, 1, node // 2):
                if v != node and abs(v) <= abs(node):
                    yield put(path, v)
        elif isinstance(node, float):
            for v in (0.0, 1.0, float(round(node)), round(node, 1), round(node, 3)):
                if v != node:
                    yield put(path, v)


def shrink(check, case, result, scratch, budget, par=8):
    """Greedy structural shrinking; candidates are tried in parallel batches, the first failing one is taken."""
    t_end = time.time() + budget
    best, bres, tried = case, result, 0
    dirs = []
    for n in range(par):
        d = os.path.join(scratch + "_s%d" % n)
        os.makedirs(d, exist_ok=True)
        dirs.append(d)
    seen = set()
    improved = True
    while improved and time.time() < t_end:
        improved = False
        it = iter(check.shrink_candidates(best))
        while not improved and time.time() < t_end:
            batch = []
            for cand in it:
                key = json.dumps(cand, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                batch.append(cand)
                if len(batch) == par:
                    break
            if not batch:
                break
            hs = []
            for cand, d in zip(batch, dirs):
                clean_dir(d)
                hs.append(start_case(check, cand, d, check.case_timeout))
            rs = [finish_case(check, h) for h in hs]
            tried += len(batch)
            for cand, r in zip(batch, rs):
                if r["status"] == "violation" and r["kind"] == result["kind"]:
                    best, bres, improved = cand, r, True
                    break
    return best, bres, tried


# ---------------------------------------------------------------- driving

def case_rng(check, seed, index):
    return random.Random("%s/%d/%d" % (check.id, seed, index))


def worker(check, seed, shard, nshards, ncases, t_end, scratch, wfd):
    out = os.fdopen(wfd, "w")
    i = shard
    while i < ncases and time.time() < t_end:
        rng = case_rng(check, seed, i)
        case = check.gen(rng)
        clean_dir(scratch)
        t0 = time.time()
        res = execute(check, case, scratch, check.case_timeout)
        rec = dict(i=i, dt=time.time() - t0, key=hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16])
        rec.update(status=res["status"], info=res.get("info"), kind=res.get("kind"), msg=res.get("msg"), data=res.get("data"))
        out.write(json.dumps(rec) + "\n")
        out.flush()
        if res["status"] in ("violation", "error", "hang"):
            break
        i += nshards
    out.close()
    os._exit(0)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "known"]


def confirm(check, case, scratch, n=3, factor=1):
    """Re-run a failing case; it counts only when it fails every time."""
    last = None
    for _ in range(n):
        clean_dir(scratch)
        last = execute(check, case, scratch, check.case_timeout * factor)
        if last["status"] == "hang":
            last["status"] = "violation"
            continue
        if last["status"] != "violation":
            return None
    return last


def main(check, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--time", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 4)))
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("--dump", type=int, help="print case number N and exit")
    ap.add_argument("--one", type=int, help="run case number N in this process")
    a = ap.parse_args(argv)
    t_start = time.time()
    if a.dump is not None:
        print(json.dumps(check.gen(case_rng(check, a.seed, a.dump)), indent=1))
        return 0
    if not a.no_build:
        build(check.targets)
    t_built = time.time()
    base = tempfile.mkdtemp(prefix="verif_%s_" % check.id)
    try:
        return _main(check, a, base, t_start, t_built)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(check, a, base, t_start, t_built):
    sc = os.path.join(base, "main")
    os.mkdir(sc)
    check.prepare()
    if a.one is not None:
        case = check.gen(case_rng(check, a.seed, a.one))
        os.chdir(sc)
        print(check.run(case, Env(sc)))
        return 0
    if a.replay:
        case = json.load(open(a.replay))
        case = case.get("case", case)
        res = confirm(check, case, sc, n=1)
        if res:
            print("%s: %s" % (res["kind"], res["msg"]))
            print("VIOLATION property=%s replay=%s" % (check.id, a.replay))
            return 1
        print("property held on %s" % a.replay)
        return 0

    quick = a.tier != "thorough"
    ncases = a.cases or (check.quick_cases if quick else check.thorough_cases)
    budget = a.time or (check.quick_time if quick else check.thorough_time)
    known = [k for k in load_known() if k["property"] == check.id]
    known_lines, bad = [], None
    # pinned regression cases and known findings first
    for n, case in enumerate(check.pinned):
        clean_dir(sc)
        res = execute(check, case, sc, check.case_timeout)
        if res["status"] in ("violation", "hang"):
            c = confirm(check, case, sc, factor=3 if res["status"] == "hang" else 1)
            if c:
                bad = (-1 - n, case, c)
                break
        elif res["status"] == "error":
            print("ERROR in pinned case %d: %s" % (n, res["msg"]))
            return 2
    for k in known:
        clean_dir(sc)
        res = execute(check, k["case"], sc, check.case_timeout)
        if res["status"] == "violation":
            known_lines.append("KNOWN-FINDING: property=%s %s" % (check.id, k["what"]))

    t_end = time.time() + budget
    recs, procs = [], {}
    for w in range(a.workers):
        d = os.path.join(base, "w%d" % w)
        os.mkdir(d)
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                worker(check, a.seed, w, a.workers, ncases, t_end, d, wfd)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(1)
        os.close(wfd)
        procs[r] = [pid, b"", w]
    stop = False
    worker_fail = 0
    while procs:
        rl, _, _ = select.select(list(procs), [], [], 1.0)
        for r in rl:
            d = os.read(r, 1 << 16)
            if not d:
                os.close(r)
                _, st = os.waitpid(procs[r][0], 0)
                if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0) and not stop:
                    worker_fail += 1
                del procs[r]
                continue
            procs[r][1] += d
            *lines, rest = procs[r][1].split(b"\n")
            procs[r][1] = rest
            for ln in lines:
                rec = json.loads(ln)
                recs.append(rec)
    errors = [x for x in recs if x["status"] == "error"]
    fails = sorted((x for x in recs if x["status"] in ("violation", "hang")), key=lambda x: x["i"])
    inconclusive = 0
    exit_bad = None
    if bad is None:
        for f in fails:
            case = check.gen(case_rng(check, a.seed, f["i"]))
            c = confirm(check, case, sc, factor=3 if f["status"] == "hang" else 1)
            if c is None:
                inconclusive += 1
                continue
            bad = (f["i"], case, c)
            break
    info = [x["info"] or {} for x in recs if x["status"] == "ok"]
    keys = {}
    for x in recs:
        if x["status"] == "ok" and (x["info"] or {}).get("nontrivial"):
            keys[x["key"]] = x["i"]
    classes = {}
    stats = {}
    for inf in info:
        for c in inf.get("classes", []):
            classes[c] = classes.get(c, 0) + 1
        for k, v in (inf.get("stats") or {}).items():
            s = stats.setdefault(k, dict(sum=0, max=None))
            s["sum"] += v
            s["max"] = v if s["max"] is None else max(s["max"], v)
    samples = []
    for i in sorted(keys.values())[:400:137][:3] or [x["i"] for x in recs[:1]]:
        s = json.dumps(check.describe(check.gen(case_rng(check, a.seed, i))))
        samples.append(json.loads(s) if len(s) < 6000 else s[:6000] + "...")
    ev = dict(property=check.id, tier="quick" if quick else "thorough", seed=a.seed, level=check.level,
              coverage=dict(evaluations=len(recs), distinct_nontrivial=len(keys), rule=check.rule, samples=samples,
                            discarded=sum(x["status"] == "discard" for x in recs), inconclusive=inconclusive,
                            sub_checks=sum(inf.get("checks", 0) for inf in info), classes=dict(sorted(classes.items())), stats=stats,
                            pinned_cases=len(check.pinned), requested_cases=ncases),
              assumptions=check.assumptions, wall_s=round(time.time() - t_start, 2), build_s=round(t_built - t_start, 2),
              violations=1 if bad else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    def write_ev():
        with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    write_ev()
    for ln in known_lines:
        print(ln)
    if bad:
        i, case, res = bad
        print("case %d: %s: %s" % (i, res["kind"], res["msg"]), flush=True)
        small, sres, tried = shrink(check, case, res, sc, 25 if quick else 120)
        if confirm(check, small, sc, n=2) is None:
            small, sres = case, res
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.json" % (check.id, hashlib.sha1(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]))
        with open(rp, "w") as f:
            json.dump(dict(property=check.id, seed=a.seed, index=i, kind=sres["kind"], msg=sres["msg"], shrink_steps=tried, case=small), f, indent=1)
        ev["wall_s"] = round(time.time() - t_start, 2)
        write_ev()
        print("shrunk (%d candidates tried): %s: %s" % (tried, sres["kind"], sres["msg"]))
        print("VIOLATION property=%s replay=%s" % (check.id, rp))
        return 1
    if errors:
        print("ERROR in case %d:\n%s" % (errors[0]["i"], errors[0]["msg"]))
        return 2
    if worker_fail:
        print("ERROR: %d workers failed" % worker_fail)
        return 2
    if not keys:
        print("ERROR: no non-trivial case was evaluated")
        return 2
    print("property %s held on %d cases (%d distinct non-trivial), build %.1fs, total %.1fs" %
          (check.id, len(recs), len(keys), t_built - t_start, time.time() - t_start))
    return 0
