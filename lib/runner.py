"""Runs the workloads of one property, collects what the monitors reported, and decides.

Verdicts: exit 0 (held on everything explored), exit 1 with a VIOLATION line (a monitor fired, the code
under test crashed, or a workload hung twice), exit 2 (the check itself could not run: no verdict).
"""
import json, os, queue, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build                                                            # noqa: E402

NPROC = 8
MPIRUN = ["mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader",
          "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "mpi_yield_when_idle", "1"]


class HarnessError(Exception):
    pass


class Job:
    """`count` cases of one mode of one harness on one build variant, split over `shards` processes."""
    def __init__(self, kind, variant, harness, mode, count, shards=1, np=1, slots=None, timeout=150, start=0,
                 env=None, rlimit_gb=None, args=()):
        self.kind, self.variant, self.harness, self.mode = kind, variant, harness, mode
        self.count, self.shards, self.np = count, max(1, min(shards, count)), np
        self.slots = slots or (np if kind == "mpi" else 1)
        self.timeout, self.start, self.env, self.args = timeout, start, env or {}, tuple(args)
        self.rlimit_gb = rlimit_gb

    def split(self):
        per, rest, at = self.count // self.shards, self.count % self.shards, self.start
        for i in range(self.shards):
            c = per + (1 if i < rest else 0)
            yield Shard(self, at, c)
            at += c


class Shard:
    def __init__(self, job, start, count):
        self.job, self.start, self.count = job, start, count

    def spec(self):
        j = self.job
        return dict(kind=j.kind, variant=j.variant, harness=j.harness, mode=j.mode, start=self.start,
                    count=self.count, np=j.np, env=j.env, args=list(j.args))


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=0:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=78",
    "LSAN_OPTIONS": "exitcode=79",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
}


def prepare(jobs):
    """Builds everything the jobs need; returns {(kind,variant,harness): path}."""
    need = {}
    for j in jobs:
        need[("py" if j.kind == "py" else "cpp", j.variant, j.harness if j.kind != "py" else "")] = None
    errs = []

    def one(k):
        try:
            need[k] = build.python_package(k[1]) if k[0] == "py" else build.program(k[1], k[2])
        except build.BuildError as e:
            errs.append(str(e))
    ts = [threading.Thread(target=one, args=(k,)) for k in need]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise HarnessError("build failed\n" + errs[0])
    return need


def command(spec, products, seed, scratch):
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(seed % (1 << 32)), "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
                "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "TMPDIR": scratch,
                "QDD_EVENTS": os.path.join(scratch, "events"), "QDD_CASE": os.path.join(scratch, "case"),
                "QDD_SCRATCH": scratch})
    env.update(spec.get("env") or {})
    tail = [spec["mode"], str(seed), str(spec["start"]), str(spec["count"])] + list(spec.get("args", []))
    if spec["kind"] == "py":
        pkg = products[("py", spec["variant"], "")]
        env["PYTHONPATH"] = pkg + os.pathsep + os.path.join(VERIF, "py")
        env["QDD_PKG"] = pkg
        if spec["variant"].startswith("asan"):
            lib = subprocess.run(["g++", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
            std = subprocess.run(["g++", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
            env["LD_PRELOAD"] = lib + " " + std
            env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        cmd = [build.PY, "-X", "faulthandler", os.path.join(VERIF, "py", spec["harness"] + ".py")] + tail
        if spec.get("np", 1) > 1:
            cmd = MPIRUN + ["-np", str(spec["np"])] + cmd
    else:
        cmd = [products[("cpp", spec["variant"], spec["harness"])]] + tail
        if spec["kind"] == "mpi":
            cmd = MPIRUN + ["-np", str(spec["np"])] + cmd
        if spec["variant"] == "memcheck":
            cmd = ["valgrind", "-q", "--error-exitcode=88", "--max-stackframe=4000000"] + cmd
        if "tsan" in spec["variant"]:
            cmd = ["setarch", "-R"] + cmd
    return cmd, env


def execute(spec, products, seed, timeout, rlimit_gb=None):
    """Runs one shard; returns (rc or 'timeout', events, stderr tail, last case)."""
    scratch = tempfile.mkdtemp(prefix="qddv-")
    try:
        cmd, env = command(spec, products, seed, scratch)

        def limits():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if rlimit_gb:
                resource.setrlimit(resource.RLIMIT_AS, (int(rlimit_gb * 2 ** 30),) * 2)
        with open(os.path.join(scratch, "out"), "wb") as out:
            p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=env, cwd=scratch, preexec_fn=limits)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = "timeout"
        if rc == "timeout" or rc != 0:
            for sig in (signal.SIGTERM, signal.SIGKILL):             # mpirun ends its ranks on SIGTERM
                try:
                    os.killpg(p.pid, sig)
                except ProcessLookupError:
                    break
                t0 = time.time()
                while sig == signal.SIGTERM and (spec["kind"] == "mpi" or spec.get("np", 1) > 1) and p.poll() is None and time.time() - t0 < 5:
                    time.sleep(0.05)
            p.wait()
        events, case = [], None
        for f in sorted(os.listdir(scratch)):
            path = os.path.join(scratch, f)
            if f.startswith("events"):
                for line in open(path, errors="replace"):
                    try:
                        events.append(json.loads(line))
                    except ValueError:
                        pass
            if f.startswith("case"):
                t = open(path, errors="replace").read().split()
                if len(t) >= 3:
                    case = dict(mode=t[0], seed=int(t[1]), index=int(t[2]))
        with open(os.path.join(scratch, "out"), "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 400000))
            txt = f.read().decode(errors="replace")
        return rc, events, txt, case
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def crash_signature(txt, rc):
    for pat in (r"ERROR: AddressSanitizer: [^\n]*", r"ERROR: LeakSanitizer: [^\n]*", r"[^\n]*runtime error: [^\n]*",
                r"WARNING: ThreadSanitizer: [^\n]*",
                r"(?<=== )(?:Conditional jump|Use of uninit|Invalid |Syscall param|Mismatched free|Source and dest)[^\n]*\n[^\n]*\n[^\n]*", r"[^\n]*Assertion [^\n]*failed[^\n]*", r"terminate called[^\n]*\n[^\n]*",
                r"Fatal Python error: [^\n]*"):
        m = re.search(pat, txt)
        if m:
            return m.group(0).strip()[:400]
    return "exit status %s" % rc


class Results:
    def __init__(self):
        self.viol, self.samples, self.hashes, self.counters, self.done = [], [], set(), {}, 0
        self.modes, self.errors, self.lock = {}, [], threading.Lock()


def run(jobs, seed, verbose=False):
    products = prepare(jobs)
    res = Results()
    work = sorted((s for j in jobs for s in j.split()), key=lambda s: -s.job.slots)
    cond, free, over = threading.Condition(), [NPROC], threading.Event()   # over: a hang or crash decided the check

    def one(sh):
        spec, job = sh.spec(), sh.job
        slots = min(job.slots, NPROC)
        with cond:
            while free[0] < slots:
                cond.wait()
            free[0] -= slots
        try:
            if over.is_set():
                return
            t0 = time.time()
            rc, ev, txt, case = execute(spec, products, seed, job.timeout, job.rlimit_gb)
            if rc in ("timeout", -9, 137):
                if over.is_set():
                    return
                rc, ev, txt, case = execute(spec, products, seed, job.timeout * 1.5, job.rlimit_gb)
            if verbose:
                print("  %s/%s/%s %d+%d rc=%s %.1fs" % (job.variant, job.harness, job.mode, sh.start, sh.count, rc, time.time() - t0), flush=True)
            with res.lock:
                viol = [e for e in ev if e.get("e") == "viol"]
                done = [e for e in ev if e.get("e") == "done"]
                errs = [e for e in ev if e.get("e") == "error"]
                for e in viol:
                    res.viol.append(dict(key=e["key"], text=e["text"], spec=dict(spec, start=e["index"], count=1), shard=spec, seed=seed))
                at = case or dict(index=sh.start)
                if errs:
                    res.errors.append("%s/%s: %s" % (job.harness, job.mode, errs[0].get("text")))
                elif rc == "timeout":
                    over.set()
                    res.viol.append(dict(key="hang:" + job.mode, text="no answer within %d s, twice; last case %s\n%s" % (job.timeout, at, txt[-1500:]),
                                         spec=dict(spec, start=at["index"], count=1), shard=spec, seed=seed))
                elif rc == 2 and not viol:
                    res.errors.append("%s/%s: harness error\n%s" % (job.harness, job.mode, txt[-3000:]))
                elif rc != 0:
                    over.set()
                    res.viol.append(dict(key="crash:" + job.mode, text=crash_signature(txt, rc) + " in case %s\n%s" % (at, txt[-6000:]),
                                         spec=dict(spec, start=at["index"], count=1), shard=spec, seed=seed))
                elif not done:
                    res.errors.append("%s/%s: ended without a report\n%s" % (job.harness, job.mode, txt[-2000:]))
                for e in done:
                    res.done += 1
                    res.hashes.update((e["mode"], job.variant, h) for h in e.get("hashes", []))
                    m = res.modes.setdefault("%s on %s" % (job.mode, job.variant), {})
                    for k, n in e["counters"].items():
                        res.counters[k] = res.counters.get(k, 0) + n
                        m[k] = m.get(k, 0) + n
                s = [e["text"] for e in ev if e.get("e") == "sample"]
                res.samples += ["[%s, %s] %s" % (job.mode, job.variant, t) for t in s[:2]]
        except Exception as e:                                        # noqa: BLE001
            with res.lock:
                res.errors.append("%s/%s: %r" % (job.harness, job.mode, e))
        finally:
            with cond:
                free[0] += slots
                cond.notify_all()
    ts = [threading.Thread(target=one, args=(s,)) for s in work]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    """Lines `known: property=<id> key=<exact event key> match=<regex on the report> :: <description>`."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) key=(\S+) match=(.*?) :: (.*)$", line.strip())
        if m and m.group(1) == pid:
            out.append(dict(key=m.group(2), match=re.compile(m.group(3)), what=m.group(4)))
    return out


def decide(pid, tier, seed, jobs, rule, assumptions, level="exploration", minimum=1, exhaustive=None, verbose=False):
    t0 = time.time()
    try:
        res = run(jobs, seed, verbose)
    except HarnessError as e:
        print("ERROR: " + str(e))
        return 2
    known = known_findings(pid)
    hit, fresh = {}, []
    for x in res.viol:
        for k in known:
            if x["key"] == k["key"] and k["match"].search(x["text"]):
                hit[k["what"]] = hit.get(k["what"], 0) + 1
                break
        else:
            fresh.append(x)
    seen_keys = {}
    for x in fresh:
        seen_keys.setdefault(x["key"], []).append(x)
    rdir = os.path.join(VERIF, "replay")
    lines = []
    if fresh:
        os.makedirs(rdir, exist_ok=True)
    for i, (k, xs) in enumerate(seen_keys.items()):
        x = xs[0]
        path = os.path.join(rdir, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]", "_", k)[:60]))
        json.dump(dict(property=pid, key=k, seed=x["seed"], case=x["spec"], shard=x["shard"], text=x["text"], others=len(xs) - 1,
                       how="python3 check.py %s --replay %s" % (pid, path)), open(path, "w"), indent=1)
        lines.append((k, path, x["text"]))
    cases = res.counters.get("cases", 0)
    cov = dict(evaluations=int(cases), distinct_nontrivial=len(res.hashes), rule=rule,
               samples=sorted(set(res.samples), key=lambda s: hash_str(s))[:12] or ["(none)"],
               observed=res.counters, by_workload=res.modes, processes=res.done)
    if exhaustive is not None:
        cov["exhaustive"] = bool(exhaustive)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
                   wall_s=round(time.time() - t0, 2), violations=len(fresh),
                   known_findings=[dict(what=w, reports=n) for w, n in hit.items()]),
              open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for w in hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for k, path, text in lines:
        print("%s: %s" % (k, text[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if lines:
        return 1
    if res.errors:
        print("ERROR: " + res.errors[0])
        return 2
    if cases < minimum or not res.hashes:
        print("ERROR: the workload observed nothing (%d cases, %d distinct)" % (cases, len(res.hashes)))
        return 2
    print("%s held: %d cases, %d distinct, %s, %.1f s" % (pid, cases, len(res.hashes), json.dumps(res.counters), time.time() - t0))
    return 0


def hash_str(s):
    import hashlib
    return hashlib.sha256(s.encode()).hexdigest()


def replay(path):
    r = json.load(open(path))
    for what in ("case", "shard"):
        spec = r[what]
        j = Job(spec["kind"], spec["variant"], spec["harness"], spec["mode"], spec["count"], np=spec["np"])
        products = prepare([j])
        rc, ev, txt, case = execute(spec, products, r["seed"], 600)
        viol = [e for e in ev if e.get("e") == "viol"]
        print("replayed the %s: rc=%s, %d violation(s)" % (what, rc, len(viol)))
        for e in viol[:5]:
            print(e["key"], e["text"])
        if viol or rc != 0:
            if rc != 0:
                print(txt[-4000:])
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
    return 0
