#!/usr/bin/env python3
"""Driver of all checks:  run.py <property> [--replay FILE] [--flavours a,b] [--cases N]

Builds the property's harness from /repo's current working tree in several instrumented flavours, runs the
seeded cases, lets the monitors (oracles in the harness, sanitizers, hang watchdog) decide, writes
evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself could not give an answer."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "lib"))
from specs import SPECS, FLAVOURS, PCL_INC, PCL_LIBS  # noqa: E402

NCPU = os.cpu_count() or 4
T0 = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET_S", "0")) or None


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------- build
def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def repo_sources():
    out = []
    for base in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            out += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".h", ".cpp", ".py"))]
    return out


REPO_HASH = None


def obj_key(cmd, src):
    deps = glob.glob(os.path.join(VERIF, "lib", "**", "*"), recursive=True)
    deps = [d for d in deps if os.path.isfile(d) and d.endswith((".hpp", ".h", ".cpp"))]
    return hashlib.sha256((" ".join(cmd) + REPO_HASH + tree_hash(deps + [src] + glob.glob(os.path.join(VERIF, "harness", "*.hpp")))).encode()).hexdigest()[:20]


class BuildError(Exception):
    pass


BUILD_LOCK = {}
BL = threading.Lock()


def run_cmd(cmd, timeout=800):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def compile_obj(src, cxx, flags):
    cmd = [cxx] + flags + ["-c", src]
    key = obj_key(cmd, src)
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + key + ".o")
    with BL:
        lk = BUILD_LOCK.setdefault(obj, threading.Lock())
    with lk:
        if not os.path.exists(obj):
            os.makedirs(os.path.dirname(obj), exist_ok=True)
            tmp = obj + ".%d.tmp" % os.getpid()
            rc, out = run_cmd(cmd + ["-o", tmp])
            if rc:
                raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), out[-6000:]))
            os.rename(tmp, obj)
    return obj


def build(spec, flavour, pool):
    fl = FLAVOURS[flavour]
    inc = list(fl.get("inc", [])) + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness"), "-isystem", "/usr/include/eigen3"]
    if spec.get("pcl"):
        inc += PCL_INC
    flags = ["-std=c++17", "-w"] + fl["flags"] + spec.get("flags", []) + spec.get("flavour_flags", {}).get(flavour, []) + inc
    srcs = [os.path.join(VERIF, "harness", s) for s in ([spec["src"]] if isinstance(spec["src"], str) else spec["src"])]
    srcs += [os.path.join(REPO, s) for s in spec.get("repo_src", [])]
    futs = [pool.submit(compile_obj, s, fl.get("cxx", "g++"), flags) for s in srcs]
    for s in fl.get("rt", []):
        rtflags = ["-std=c++17", "-w"] + s[1]
        futs.append(pool.submit(compile_obj, os.path.join(VERIF, "lib", s[0]), fl.get("cxx", "g++"), rtflags))
    objs = [f.result() for f in futs]
    link = [fl.get("cxx", "g++")] + fl["link"] + objs + spec.get("link", []) + (PCL_LIBS if spec.get("pcl") else []) + fl.get("libs", []) + ["-lpthread"]
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (spec["id"], flavour, hashlib.sha256(" ".join(link).encode()).hexdigest()[:16]))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        rc, out = run_cmd(link + ["-o", tmp])
        if rc:
            raise BuildError("link failed: %s\n%s" % (" ".join(link), out[-6000:]))
        os.rename(tmp, exe)
    return exe


# --------------------------------------------------------------------------------------------- run
def clean_frame(f):
    f = re.sub(r"\(.*", "", f)
    out, d = "", 0
    for ch in f:
        if ch == "<":
            d += 1
        elif ch == ">":
            d = max(0, d - 1)
        elif d == 0:
            out += ch
    out = re.sub(r"\[clone.*?\]|\._omp_fn\.\d+|\{lambda.*", "", out)
    return out.strip().split(" ")[-1]


def classify(rc, err):
    """Turn a dead process into (key, message)."""
    kind = None
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([A-Za-z0-9_-]+)", err)
    if m:
        kind = "asan-" + m.group(2)
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", err)
        if m:
            kind = "tsan-" + m.group(1).strip().replace(" ", "-")
    if not kind:
        m = re.search(r"runtime error: (.*)", err)
        if m:
            kind = "ubsan-" + re.sub(r"0x[0-9a-f]+|-?\d[\d.]*(e[+-]?\d+)?", "N", m.group(1))[:60].strip().replace(" ", "-")
    if not kind and rc == 88:
        m = re.search(r"==\d+== ((?:Conditional jump|Use of uninit|Invalid|Syscall param|Mismatched|Source and dest)[^\n]*)", err)
        if m:
            kind = "valgrind-" + re.sub(r"\d+", "N", m.group(1))[:60].strip().replace(" ", "-")
    if not kind:
        m = re.search(r"Assertion [`'](.*?)' failed", err, re.S)
        if m:
            kind = "assert-" + re.sub(r"\s+", "-", m.group(1))[:60]
    if not kind:
        kind = "signal-%d" % (-rc) if rc < 0 else "exit-%d" % rc
    frames = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/repo/\S+?|%s/\S+?):\d+" % re.escape(REPO), err)
    fn = clean_frame(frames[0][0]) if frames else ""
    head = ""
    for pat in (r"(ERROR: \w+Sanitizer.*|WARNING: ThreadSanitizer.*)", r"(.*runtime error:.*)", r"(.*Assertion.*)"):
        m = re.search(pat, err)
        if m:
            head = m.group(1)[:300]
            break
    tops = "; ".join("%s %s" % (clean_frame(a), os.path.basename(b)) for a, b in frames[:4])
    return "crash:%s:%s" % (kind, fn), (head or "process died with status %d" % rc) + (" | " + tops if tops else "")


class Result:
    def __init__(self):
        self.viol, self.counters, self.maxima, self.samples = [], {}, {}, []
        self.evals, self.timeouts, self.truncated = 0, 0, False
        self.distinct, self.sched = set(), set()
        self.per_flavour, self.notes, self.errors = {}, [], []
        self.lock = threading.Lock()
        self.known = []

    def is_new(self, v):
        return not any(k["key"] == v["key"] and k["re"].search(v.get("msg", "") + " " + v.get("desc", "")) for k in self.known)

    def decided(self):
        """A definite, unlisted violation exists: no need to keep resuming after crashes or to confirm hangs."""
        return any(self.is_new(v) for v in self.viol)


def env_for(flavour):
    e = dict(os.environ)
    e.update({"OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false", "LC_ALL": "C.UTF-8", "MALLOC_PERTURB_": "165"})
    if flavour.startswith("asan"):
        e.pop("MALLOC_PERTURB_")
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:malloc_context_size=12:max_malloc_fill_size=4096:malloc_fill_byte=165"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:history_size=3:report_thread_leaks=0:die_after_fork=0"
    return e


def run_range(exe, flavour, spec, seed, tier, b, e, res, hang_s, tmp):
    """Run cases [b, e); resume after crashes; record everything into res."""
    crashes = 0
    nrun = 0
    tag = "%s-%d" % (flavour, b)
    while b < e:
        if BUDGET and time.time() - T0 > BUDGET:
            with res.lock:
                res.truncated = True
            return
        if res.decided():
            return
        st, hs = os.path.join(tmp, tag + ".st"), os.path.join(tmp, tag + ".hash")
        outp, errp = os.path.join(tmp, tag + ".out"), os.path.join(tmp, tag + ".err")
        wd = os.path.join(tmp, tag + ".d")
        os.makedirs(wd, exist_ok=True)
        for f in (st, hs):
            if os.path.exists(f):
                os.unlink(f)
        cmd = FLAVOURS[flavour].get("wrap", []) + [exe, "--seed", str(seed), "--begin", str(b), "--end", str(e), "--tier", tier, "--status", st, "--hashes", hs, "--tmp", wd]
        hung_elsewhere = res.decided
        with open(outp, "wb") as fo, open(errp, "wb") as fe:
            p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=env_for(flavour), cwd=wd)
            last, last_t, hung, cut = None, time.time(), False, False
            step = 0.01
            while True:
                try:
                    p.wait(timeout=step)
                    break
                except subprocess.TimeoutExpired:
                    step = min(0.25, step * 1.5)
                try:
                    cur = open(st).read()
                except OSError:
                    cur = None
                if cur != last:
                    last, last_t = cur, time.time()
                elif time.time() - last_t > hang_s:
                    hung = True
                    p.kill()
                    p.wait()
                    break
                if os.path.getsize(errp) > 64 << 20:
                    os.truncate(errp, 0)
                if (BUDGET and time.time() - T0 > BUDGET) or (hung_elsewhere() and time.time() - last_t > 10):
                    cut = True
                    p.kill()
                    p.wait()
                    break
        out = open(outp, "rb").read().decode("utf-8", "replace")
        try:
            at = int(open(st).read())
        except (OSError, ValueError):
            at = b
        with res.lock:
            for line in out.splitlines():
                if line.startswith("@@V "):
                    try:
                        v = json.loads(line[4:])
                    except ValueError:
                        continue
                    v["flavour"] = flavour
                    res.viol.append(v)
        done = "@@DONE" in out
        if done and p.returncode == 0:
            with res.lock:
                for line in out.splitlines():
                    if line.startswith("@@E "):
                        ev = json.loads(line[4:])
                        res.evals += ev["evaluations"]
                        res.per_flavour[flavour] = res.per_flavour.get(flavour, 0) + ev["evaluations"]
                        for k, n in ev["counters"].items():
                            res.counters[k] = res.counters.get(k, 0) + n
                        for k, n in ev["maxima"].items():
                            res.maxima[k] = max(res.maxima.get(k, -1e308), n)
                        if len(res.samples) < 6:
                            res.samples += [flavour + " " + s for s in ev["samples"][:2]]
                if os.path.exists(hs):
                    for line in open(hs):
                        (res.distinct if line[0] == "D" else res.sched).add(line[1:].strip())
            return
        if cut:
            with res.lock:
                res.truncated = True
                res.evals += max(0, at - b)
            return
        with open(errp, "rb") as fh:
            fh.seek(0, 2)
            sz = fh.tell()
            fh.seek(max(0, sz - 400000))
            err = fh.read().decode("utf-8", "replace")
        with res.lock:
            res.evals += max(0, at - b)
        if hung and res.decided():
            return
        if hung:
            # re-run the one case alone before calling it a hang
            with open(os.devnull, "wb") as dn:
                q = subprocess.Popen(FLAVOURS[flavour].get("wrap", []) + [exe, "--seed", str(seed), "--begin", str(at), "--end", str(at + 1), "--tier", tier, "--tmp", wd], stdout=dn, stderr=dn, env=env_for(flavour), cwd=wd)
                try:
                    q.wait(timeout=hang_s * 1.5)
                    rehung = False
                except subprocess.TimeoutExpired:
                    q.kill()
                    q.wait()
                    rehung = True
            with res.lock:
                if rehung:
                    res.viol.append({"key": "hang", "case": at, "desc": "", "msg": "case did not finish within %ds, twice" % hang_s, "flavour": flavour})
                else:
                    res.timeouts += 1
        else:
            if p.returncode == 99 or "FATAL: ThreadSanitizer" in err or p.returncode == -9:
                # harness / environment failure, or killed from outside (memory): not a verdict
                with res.lock:
                    res.errors.append("%s case %d: status %s: %s" % (flavour, at, p.returncode, err[-500:]))
            else:
                key, msg = classify(p.returncode, err)
                with res.lock:
                    res.viol.append({"key": key, "case": at, "desc": "", "msg": msg, "flavour": flavour, "stderr": err[-6000:]})
        crashes += 1
        if res.decided():
            return
        if crashes >= 4:
            with res.lock:
                res.notes.append("shard %s stopped after %d abnormal endings" % (tag, crashes))
            return
        b = at + 1


# ---------------------------------------------------------------------------------- known findings
def load_known(pid):
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == pid:
                known.append({"key": m.group(2), "re": re.compile(m.group(3)), "text": m.group(4)})
    return known


def main():
    global REPO_HASH, BUDGET
    pid = sys.argv[1]
    args = sys.argv[2:]
    opt = {}
    i = 0
    while i < len(args):
        if args[i].startswith("--") and i + 1 < len(args):
            opt[args[i][2:]] = args[i + 1]
            i += 2
        else:
            i += 1
    spec = dict(SPECS[pid], id=pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if BUDGET is None:
        BUDGET = 780 if tier == "quick" else 3600 * 3
    REPO_HASH = tree_hash(repo_sources())
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if spec.get("python"):
        import pycheck
        sys.exit(pycheck.main(pid, spec, tier, seed, opt, sys.modules[__name__]))
    runs = spec["runs"]
    if "replay" in opt:
        rp = json.load(open(opt["replay"]))
        runs = [(rp["flavour"], None, None)]
        seed = rp["seed"]
        tier = rp["tier"]
    elif "flavours" in opt:
        runs = [r for r in runs if r[0] in opt["flavours"].split(",")]
    res = Result()
    res.known = load_known(pid)
    pool = cf.ThreadPoolExecutor(NCPU)
    bpool = cf.ThreadPoolExecutor(NCPU)
    rpool = cf.ThreadPoolExecutor(NCPU)
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    t_build = {}

    def do_flavour(r):
        flavour, nq, nt = r
        t = time.time()
        try:
            exe = build(spec, flavour, pool)
        except BuildError as ex:
            if FLAVOURS[flavour].get("optional") and spec.get("runs") and len(spec["runs"]) > 1:
                with res.lock:
                    res.notes.append("flavour %s unavailable on this tree (shim too small?): %s" % (flavour, str(ex)[:300].replace("\n", " ")))
                    res.per_flavour[flavour] = 0
                log("note: flavour %s does not build: %s" % (flavour, str(ex)[-3000:]))
                return
            with res.lock:
                res.errors.append(str(ex))
            return
        t_build[flavour] = round(time.time() - t, 1)
        hang = FLAVOURS[flavour].get("hang_s", 90) * spec.get("hang_mul", 1)
        if "replay" in opt:
            run_range(exe, flavour, spec, seed, tier, rp["case"], rp["case"] + 1, res, hang, tmp)
            return
        n = nq if tier == "quick" else nt
        if "cases" in opt:
            n = int(opt["cases"])
        if "case" in opt:
            run_range(exe, flavour, spec, seed, tier, int(opt["case"]), int(opt["case"]) + 1, res, hang, tmp)
            return
        k = min(NCPU * 2, n)
        cuts = [n * j // k for j in range(k + 1)]
        fs = [rpool.submit(run_range, exe, flavour, spec, seed, tier, cuts[j], cuts[j + 1], res, hang, tmp) for j in range(k)]
        for f in fs:
            f.result()

    try:
        for f in [bpool.submit(do_flavour, r) for r in runs]:
            f.result()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    finish(pid, spec, tier, seed, res, opt, {"build_s": t_build})


def finish(pid, spec, tier, seed, res, opt, extra=None, exit_=True):
    known = load_known(pid)
    new, hit = {}, {}
    for v in res.viol:
        k = next((k for k in known if k["key"] == v["key"] and k["re"].search(v.get("msg", "") + " " + v.get("desc", ""))), None)
        if k:
            hit.setdefault(k["text"], v)
        else:
            new.setdefault(v["key"], v)
    replay = "replay" in opt
    if not replay and "case" not in opt:
        cov = {
            "evaluations": res.evals,
            "distinct_nontrivial": len(res.distinct),
            "rule": spec["rule"],
            "samples": res.samples[:6] or ["(none)"],
            "evaluations_per_flavour": res.per_flavour,
            "distinct_schedules_observed": len(res.sched),
            "observed": dict(sorted(res.counters.items())),
            "maxima": res.maxima,
            "inconclusive_timeouts": res.timeouts,
            "truncated_by_budget": res.truncated,
            "notes": res.notes,
        }
        cov.update(extra or {})
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(new)}
        p = os.path.join(VERIF, "evidence", pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
    for text, v in hit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    rc = 0
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for key, v in list(new.items())[:8]:
            name = "%s-%s-%s-%d-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:60], v["flavour"], seed, v["case"])
            path = os.path.join(VERIF, "replays", name)
            rec = dict(v, property=pid, seed=seed, tier=tier, replay_cmd="python3 /verif/run.py %s --replay %s" % (pid, path))
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print("violated: %s [%s case %s] %s :: %s" % (key, v["flavour"], v["case"], v.get("msg", "")[:600], v.get("desc", "")[:400]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    else:
        miss = [k for k in spec.get("require", []) if not res.counters.get(k)]
        if res.errors:
            for e in res.errors[:3]:
                log("ERROR: " + e[-3000:])
            rc = 2
        elif not replay and "case" not in opt and "flavours" not in opt and (res.evals == 0 or not res.distinct or (miss and not res.truncated)):
            log("ERROR: inconclusive: evaluations=%d distinct=%d missing=%s" % (res.evals, len(res.distinct), miss))
            rc = 2
        else:
            print("%s held: %d evaluations, %d distinct non-trivial cases, %d distinct schedules, %.1fs" % (pid, res.evals, len(res.distinct), len(res.sched), time.time() - T0))
    sys.stdout.flush()
    if exit_:
        sys.exit(rc)
    return rc


if __name__ == "__main__":
    main()
