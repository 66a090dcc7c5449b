"""Property-based testing harness: Hypothesis generation, forked drivers, oracles in Python,
shrinking, replay files, evidence."""
import argparse, hashlib, json, math, multiprocessing as mp, os, select, shutil, signal, subprocess
import sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
CASE_CPU = 60          # CPU seconds one case may take before it counts as non-terminating
SHRINK_RUNS = 250
SHRINK_SECS = 40
NPROC = max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    pass


class DriverError(Exception):
    pass


class Stop(BaseException):
    pass


# ---------------------------------------------------------------- driver client
def enc_s(s):
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    return "_" + "".join(chr(c) if (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c in b"._/-") else "%%%02X" % c for c in s)


def enc_d(x):
    return repr(float(x))


def enc_vd(v):
    return " ".join([str(len(v))] + [enc_d(x) for x in v])


def enc_vu(v):
    return " ".join([str(len(v))] + [str(int(x)) for x in v])


def enc_pts(p):
    return " ".join([str(len(p))] + [enc_vd(v) for v in p])


def enc_conf(m):
    return " ".join([str(len(m))] + [enc_s(k) + " " + enc_s(v) for k, v in m.items()])


class Script:
    """Builds a request for the core driver."""

    def __init__(self):
        self.c = []

    def __call__(self, *parts):
        self.c.append(" ".join(parts))
        return self

    def text(self):
        return " ".join(["script", str(len(self.c))] + self.c)


class Driver:
    slowest = 0.0         # wall-clock seconds of the slowest request

    def __init__(self, exe, argv0=None):
        self.exe = exe
        self.dir = tempfile.mkdtemp(prefix="lhfv-")
        self.p = None

    def _start(self):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:max_allocation_size_mb=1024:allocator_may_return_null=0:handle_abort=1:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        env["OMPI_MCA_btl"] = "self"
        self.p = subprocess.Popen([self.exe, "stderr.txt", str(CASE_CPU)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=self.dir, env=env, bufsize=0)
        self.buf = b""

    def stderr(self, n=6000):
        try:
            with open(os.path.join(self.dir, "stderr.txt"), "rb") as f:
                return f.read(400000).decode(errors="replace")
        except OSError:
            return ""

    def call(self, line):
        """Send one request; returns the decoded object. Raises Violation on a crash."""
        if self.p is None or self.p.poll() is not None:
            self._start()
        t0 = time.time()
        try:
            self.p.stdin.write((line + "\n").encode())
        except BrokenPipeError:
            self.p = None
            raise DriverError("driver died")
        while True:
            k = self.buf.find(b"\n")
            if k >= 0:
                raw, self.buf = self.buf[:k], self.buf[k + 1:]
                if not raw.strip():
                    continue
                try:
                    o = json.loads(raw)
                except ValueError:
                    continue      # a partial line of a child that died while writing
                break
            r, _, _ = select.select([self.p.stdout], [], [], 600)
            if not r:
                self.close_proc()
                raise DriverError("no answer in 600 s")
            b = os.read(self.p.stdout.fileno(), 1 << 20)
            if not b:
                self.p = None
                raise DriverError("driver closed its output")
            self.buf += b
        Driver.slowest = max(Driver.slowest, time.time() - t0)
        if "crash" in o:
            err = self.stderr()
            if "DRIVER:" in err or o["crash"] in ("exit 96", "exit 97", "exit 98"):
                raise DriverError(err[:500] + o["crash"])
            if o["crash"] == "signal 9":
                raise DriverError("case killed (memory?)")
            if o["crash"] == "signal 24":
                raise Violation("did not terminate within %d s of CPU time" % CASE_CPU)
            key = ""
            for l in err.splitlines():
                if "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l or "terminate called" in l or "what():" in l:
                    key += l.strip()[:200] + " | "
                if l.lstrip().startswith("#") and "/repo" in l.replace(B.REPO, "/repo") and key.count("at ") < 2:
                    key += "at " + l.split(" in ", 1)[-1].strip()[:120] + " | "
            raise Violation("crash (%s): %s" % (o["crash"], key or err[:400]))
        if "exception" in o:
            raise Violation("uncaught exception: " + o["exception"])
        return o

    def close_proc(self):
        if self.p is not None:
            try:
                self.p.kill(); self.p.wait()
            except Exception:
                pass
            self.p = None

    def close(self):
        self.close_proc()
        shutil.rmtree(self.dir, ignore_errors=True)


class Drivers:
    def __init__(self, exes):
        self.exes = exes
        self.d = {}

    def __getitem__(self, name):
        if name not in self.d:
            self.d[name] = Driver(self.exes[name])
        return self.d[name]

    def script(self, s, name="core"):
        return self[name].call(s.text())["rec"]

    def close(self):
        for x in self.d.values():
            x.close()
        self.d = {}


# ---------------------------------------------------------------- checks
class Facet:
    """One generator plus oracle of a property.
    strategy(tier) -> Hypothesis strategy of JSON-serialisable cases
    run(case, drivers) -> (nontrivial: bool, tags: iterable) ; raises Violation"""

    def __init__(self, name, strategy, run, quick, thorough, fixed=(), known=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.fixed = quick, thorough, list(fixed)
        self.known = known      # known(case) -> finding name or None: excluded from the search


class Check:
    def __init__(self, pid, facets, drivers, rule, assumptions=()):
        self.pid, self.facets, self.drivers, self.rule, self.assumptions = pid, facets, drivers, rule, list(assumptions)


def req(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def judge(f, case, drv):
    """Runs a case. Output that the oracle cannot even read is a violation like any other."""
    try:
        return f.run(case, drv)
    except (ValueError, LookupError, TypeError, ArithmeticError) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("unreadable result: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def _seed(*parts):
    return int(hashlib.sha256("/".join(map(str, parts)).encode()).hexdigest()[:15], 16)


_exes = None
_check = None
_stop = None


def _job(arg):
    """One shard of one facet: runs its share of cases, shrinks a failure."""
    fi, shard, n, seed, tier = arg
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    signal.signal(signal.SIGTERM, lambda *_: os._exit(1))
    f = _check.facets[fi]
    drv = Drivers(_exes)
    st = {"n": 0, "nt": set(), "tags": {}, "samples": [], "best": None, "msg": None, "runs": 0, "t0": None, "excluded": {}, "err": None, "first": False}

    def one(case):
        if st["best"] is None and _stop is not None and _stop.value:
            raise Stop()
        if f.known is not None:
            k = f.known(case)
            if k:
                st["excluded"][k] = st["excluded"].get(k, 0) + 1
                return
        if st["best"] is not None:
            st["runs"] += 1
            if st["runs"] > SHRINK_RUNS or time.time() - st["t0"] > SHRINK_SECS:
                raise Stop()
        else:
            st["n"] += 1
        try:
            nt, tags = judge(f, case, drv)
        except Violation as e:
            c = canon(case)
            if st["best"] is None:
                st["t0"] = time.time()
            if st["best"] is None or (len(c), c) < (len(st["best"]), st["best"]):
                st["best"], st["msg"] = c, str(e)
            raise
        if st["best"] is None:
            for t in tags:
                st["tags"][t] = st["tags"].get(t, 0) + 1
            if nt:
                h = hashlib.sha256(canon(case).encode()).digest()[:12]
                if h not in st["nt"]:
                    st["nt"].add(h)
                    if len(st["samples"]) < 2 and st["n"] > 5:
                        st["samples"].append(case)

    try:
        if shard == 0:
            for case in f.fixed:
                one(case)

        @hypothesis.seed(seed)
        @settings(max_examples=n + (shard > 0), database=None, deadline=None, suppress_health_check=list(HealthCheck),
                  phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)
        @given(f.strategy(tier))
        def prop(case):
            if shard and not st["first"]:       # Hypothesis starts with the simplest case; one shard judging it is enough
                st["first"] = True
                return
            one(case)

        prop()
    except (Stop, Violation):
        pass
    except BaseException as e:
        if st["best"] is None:
            st["err"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    finally:
        drv.close()
        st["slowest"] = Driver.slowest
    if st["best"] is not None and _stop is not None:
        _stop.value = 1
    return fi, st


def run_one(check, facet, case, exes, times=1):
    """Runs a case on fresh drivers; returns the list of violation messages."""
    out = []
    for _ in range(times):
        d = Drivers(exes)
        try:
            judge(facet, case, d)
        except Violation as e:
            out.append(str(e))
        finally:
            d.close()
    return out


def known_entries(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                e = json.loads(l)
                if e.get("property") == pid and e.get("status") == "known":
                    out.append(e)
    return out


def main(check):
    global _exes, _check, _stop
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    ap.add_argument("--facet")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    try:
        _exes = {k: B.build(k, **kw) for k, kw in check.drivers.items()}
    except B.BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    _check = check
    if a.replay:
        r = json.load(open(a.replay))
        f = [x for x in check.facets if x.name == r["facet"]][0]
        m = run_one(check, f, r["case"], _exes)
        m = m or run_one(check, f, r["case"], _exes, 30)
        if m:
            print("VIOLATION property=%s replay=%s" % (check.pid, a.replay))
            print(m[0])
            return 1
        print("case passes")
        return 0
    facets = [i for i, f in enumerate(check.facets) if not a.facet or f.name == a.facet]
    jobs = []
    for fi in facets:
        f = check.facets[fi]
        n = max(1, int((f.quick if tier == "quick" else f.thorough) * a.scale))
        sh = min(NPROC if tier == "quick" else 4 * NPROC, max(1, n // 4))
        for s in range(sh):
            jobs.append((fi, s, max(1, n // sh), _seed(seed, check.pid, f.name, s), tier))
    # interleave the facets, so that every one gets going early
    jobs.sort(key=lambda j: j[1])
    _stop = mp.Value("i", 0)
    res = {i: [] for i in facets}
    errs, fail = [], None
    with mp.get_context("fork").Pool(NPROC, maxtasksperchild=1) as pool:
        for fi, st in pool.imap_unordered(_job, jobs):
            res[fi].append(st)
            if st["err"]:
                errs.append("%s: %s" % (check.facets[fi].name, st["err"]))
            if st["best"] is not None:
                c = (fi, st["best"], st["msg"])
                if fail is None or len(c[1]) < len(fail[1]):
                    fail = c
    viol = 0
    lines = []
    if fail is not None:
        fi, case, msg = fail
        f = check.facets[fi]
        case = json.loads(case)
        m = run_one(check, f, case, _exes) or run_one(check, f, case, _exes, 30)     # may hang on something outside the case: look longer
        if m:
            viol = 1
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join("replays", "%s-%s.json" % (check.pid, hashlib.sha256(canon(case).encode()).hexdigest()[:10]))
            with open(os.path.join(VERIF, path), "w") as o:
                json.dump({"property": check.pid, "facet": f.name, "case": case, "message": m[0],
                           "replay_cmd": "python3-vt checks/%s.py --replay %s" % (check.pid, path)}, o, indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (check.pid, path))
            lines.append("  facet %s: %s" % (f.name, m[0][:1500]))
        else:
            errs.append("unstable failure of %s (none of 31 replays fails): %s  case %s" % (f.name, msg, canon(case)[:2000]))
    # known findings: replay each; a listed finding never fails the check
    for e in known_entries(check.pid):
        f = [x for x in check.facets if x.name == e["facet"]]
        m = run_one(check, f[0], e["case"], _exes) if f else ["(facet gone)"]
        if m:
            print("KNOWN-FINDING: property=%s %s" % (check.pid, e["what"]))
        else:
            print("note: known finding '%s' no longer reproduces" % e["what"])
    ev = {"property": check.pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": sum(s["n"] for r in res.values() for s in r),
              "distinct_nontrivial": sum(len(set().union(*[s["nt"] for s in res[i]])) if res[i] else 0 for i in facets),
              "rule": check.rule, "samples": [], "facets": {}},
          "assumptions": check.assumptions, "wall_s": 0, "violations": viol}
    for i in facets:
        tags, exc = {}, {}
        for s in res[i]:
            for k, v in s["tags"].items():
                tags[k] = tags.get(k, 0) + v
            for k, v in s["excluded"].items():
                exc[k] = exc.get(k, 0) + v
        smp = [x for s in res[i] for x in s["samples"]][:2]
        for x in smp:
            t = canon(x)
            ev["coverage"]["samples"].append({"facet": check.facets[i].name, "case": x if len(t) < 3000 else t[:3000] + "..."})
        ev["coverage"]["facets"][check.facets[i].name] = {
            "evaluations": sum(s["n"] for s in res[i]),
            "distinct_nontrivial": len(set().union(*[s["nt"] for s in res[i]])) if res[i] else 0,
            "slowest_request_s": round(max([s.get("slowest", 0) for s in res[i]] or [0]), 2),
            "classes": dict(sorted(tags.items())), **({"excluded_known": exc} if exc else {})}
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", check.pid + ".json")
    with open(p + ".tmp", "w") as o:
        json.dump(ev, o, indent=1)
    os.replace(p + ".tmp", p)
    for l in lines:
        print(l)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        check.pid, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    for n, x in ev["coverage"]["facets"].items():
        print("  %s: %s" % (n, json.dumps(x)))
    if viol:
        return 1
    if errs:
        print("CHECK-ERROR\n" + "\n".join(errs[:3]))
        return 2
    return 0
