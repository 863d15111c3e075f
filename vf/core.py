"""
Common machinery of the checks: running workloads (under mpirun or in worker
processes), turning what the monitors logged into a verdict, known findings,
and the evidence file.
"""
import os, sys, json, time, subprocess, tempfile, shutil, signal, hashlib, glob, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def base_env(scratch):
    e = {k: v for k, v in os.environ.items() if k in ("HOME", "LANG", "TERM", "VERIF_SEED", "VERIF_TIER", "VF_REPO")}
    e.update(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C.UTF-8",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             NUMBA_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_btl="self,vader", OMPI_MCA_plm="isolated", OMPI_MCA_mpi_yield_when_idle="1",
             OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_rmaps_base_oversubscribe="1",
             PYTHONPATH=os.path.join(REPO, "python") + ":" + VERIF, VF_REPO=REPO)
    e.setdefault("HOME", "/root")
    e["TMPDIR"] = os.path.join(scratch, "tmp")
    e["XDG_CACHE_HOME"] = os.path.join(scratch, "cache")
    os.makedirs(e["TMPDIR"], exist_ok=True)
    return e


class Inconclusive(Exception):
    pass


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir=os.environ.get("VF_TMP", "/tmp"))
        self.env = base_env(self.scratch)
        self.violations = []      # dicts: key, text, replay(dict)
        self.notes = []
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.sigs = set()
        self.features = {}
        self.counters = {}
        self.traces = set()
        self.lock = threading.Lock()
        self._shim = None
        self.known = load_known(prop)
        self.known_seen = {}
        self.level = "exploration"
        self.assumptions = []

    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def path(self, *p):
        q = os.path.join(self.scratch, *p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        return q

    def shim(self):
        with self.lock:
            if self._shim is None:
                out = self.path("build", "mpimon.so")
                p = subprocess.run(["mpicc", "-shared", "-fPIC", "-O1", "-o", out,
                                    os.path.join(VERIF, "vf", "shim", "mpimon.c")],
                                   env=self.env, capture_output=True, text=True)
                if p.returncode:
                    raise Inconclusive("the MPI monitor does not build: " + p.stderr[-500:])
                self._shim = out
        return self._shim

    # -- recording --------------------------------------------------------
    def case(self, features, sig, sample=None, nontrivial=True):
        with self.lock:
            self.cov["evaluations"] += 1
            for f in features:
                self.features[f] = self.features.get(f, 0) + 1
            if nontrivial and sig not in self.sigs:
                self.sigs.add(sig)
            if sample is not None and len(self.cov["samples"]) < 6:
                self.cov["samples"].append(sample)

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def count_max(self, name, n):
        with self.lock:
            self.counters[name] = max(self.counters.get(name, 0), n)

    def violation(self, key, text, replay=None):
        with self.lock:
            k = self.known.get(key)
            if k is not None:
                self.known_seen[key] = self.known_seen.get(key, 0) + 1
                return
            if os.environ.get("VF_FAST"):       # for trying many changes: the first violation is enough
                print("VIOLATION property=%s (%s)" % (self.prop, text[:300]), flush=True)
                os._exit(1)
            self.violations.append({"key": key, "text": text, "replay": replay or {}})

    # -- the end ----------------------------------------------------------
    def finish(self, rule):
        self.cov["rule"] = rule
        self.cov["distinct_nontrivial"] = len(self.sigs)
        self.cov["features_seen"] = dict(sorted(self.features.items()))
        if self.counters:
            self.cov["observed"] = dict(sorted(self.counters.items()))
        if self.traces:
            self.cov["distinct_event_traces"] = len(self.traces)
        if self.notes:
            self.cov["notes"] = self.notes[:20]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        for e in json.load(open(path))["findings"]:
            if e["property"] == prop and e["status"] == "open":
                out[e["key"]] = e
    return out


def load_jsonl(path):
    out = []
    if os.path.exists(path):
        for line in open(path):
            try:
                out.append(json.loads(line))
            except ValueError:
                pass
    return out


# ---------------------------------------------------------------------------
# MPI workloads
# ---------------------------------------------------------------------------

def mpirun(ctx, np_, args, env_extra=None, timeout=120, cwd=None, logdir=None, progress=None, preload=True, out=None):
    """Run a program under mpirun; returns (rc or 'hang', output tail)."""
    env = dict(ctx.env)
    if env_extra:
        env.update(env_extra)
    cmd = ["mpirun", "--oversubscribe", "-np", str(np_)]
    if preload:
        cmd += ["-x", "LD_PRELOAD=" + ctx.shim()]
    cmd += args
    outname = out or ctx.path("out", "%d_%d.txt" % (os.getpid(), time.monotonic_ns()))
    with open(outname, "wb") as fo:
        p = subprocess.Popen(cmd, env=env, stdout=fo, stderr=subprocess.STDOUT, cwd=cwd or ctx.scratch, start_new_session=True)
        last, tlast = None, time.time()
        rc = None
        while True:
            try:
                rc = p.wait(timeout=0.05)
                break
            except subprocess.TimeoutExpired:
                pass
            now = progress() if progress else None
            if progress and now != last:
                last, tlast = now, time.time()
            if time.time() - tlast > timeout:
                rc = "hang"
                try:
                    os.killpg(p.pid, signal.SIGTERM)
                    try:
                        p.wait(timeout=5)
                    except subprocess.TimeoutExpired:
                        pass
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                break
    # mpirun puts its ranks in process groups of their own: end any which are left
    if rc != 0 and logdir:
        kill_marked(ctx, logdir)
    tail = open(outname, "rb").read()[-6000:].decode(errors="replace")
    return rc, tail


def kill_marked(ctx, marker):
    """End processes of ours (those whose command line names this run's scratch folder)."""
    mark = (marker + "/").encode()
    me = os.getpid()
    for d in glob.glob("/proc/[0-9]*"):
        pid = int(os.path.basename(d))
        if pid == me:
            continue
        try:
            with open(d + "/cmdline", "rb") as f:
                cl = f.read()
        except OSError:
            continue
        if mark in cl and b"vf.mpiworker" in cl:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass


def run_mpi(ctx, module, np_, ncases, budget, opts=None, first=0, hang=int(__import__("os").environ.get("VF_HANG","75")), cores=None):
    """Run ncases cases of a workload module on np_ ranks."""
    opts = dict(opts or {})
    label = "%s_%s_np%d_%d" % (module.split(".")[-1], opts.get("variant", ""), np_, first)
    end = first + ncases
    t0 = time.time()
    attempts = 0
    while first < end and attempts < 6:
        attempts += 1
        left = budget - (time.time() - t0)
        if attempts > 1 and left <= 1:
            break
        logdir, rc, tail, recs = _job(ctx, module, np_, first, end - first, left, opts, hang, label + "_%d" % attempts)
        nxt = _absorb(ctx, module, np_, opts, recs, rc, tail)
        if nxt is None:
            return
        if nxt == "redo":
            # the job died or hung in a case without a record: try that case alone
            stuck = max([r["index"] for r in recs[0] if r["kind"] == "start"], default=first)
            logdir, rc2, tail2, recs2 = _job(ctx, module, np_, stuck, 1, 60, opts, hang, label + "_re%d" % attempts)
            # Only a job which wrote its last record ran normally: after Abort(0) mpirun reports success
            got = _absorb(ctx, module, np_, opts, recs2, rc2, tail2)
            if got == 10**9:
                ctx.notes.append("job %s ended with %s in case %d, which ran normally when repeated" % (label, rc, stuck))
                ctx.count("transient_restarts")
                first = stuck + 1
                continue
            if got == "redo":
                if not any(r["kind"] == "start" for rr in recs2.values() for r in rr):
                    raise Inconclusive("job %s does not start: %s" % (label, tail2[-800:]))
                what = ("did not return within %d s (repeated twice)" % hang if rc2 == "hang"
                        else "ended the MPI job (mpirun exit %s, repeated twice)" % rc2)
                inf = inflight(recs2)
                ctx.violation("%s:%s" % (module.split(".")[-1], "hang" if rc2 == "hang" else "abort"),
                              "a call %s; ranks which returned: %s" % (what, inf),
                              dict(mpi=True, module=module, np=np_, index=stuck, opts=opts, output=tail2[-3000:]))
            return
        first = nxt


def inflight(recs):
    s = []
    for r in sorted(recs):
        k = [x for x in recs[r] if x["kind"] in ("start", "ran")]
        if k and k[-1]["kind"] == "ran":
            s.append(r)
    return s


_jobno = [0]


def _job(ctx, module, np_, first, ncases, budget, opts, hang, label):
    with ctx.lock:
        _jobno[0] += 1
        label = "%s_j%d" % (label, _jobno[0])
    logdir = os.path.join(ctx.scratch, "jobs", label)
    scratch = os.path.join(logdir, "data")
    os.makedirs(scratch)
    job = dict(module=module, first=first, ncases=ncases, seed=ctx.seed, tier=ctx.tier, budget=budget,
               logdir=logdir, scratch=scratch, shim=ctx.shim(), opts=opts)
    jf = os.path.join(logdir, "job.json")
    json.dump(job, open(jf, "w"))

    def progress():
        return tuple(os.path.getsize(f) if os.path.exists(f) else 0
                     for f in (os.path.join(logdir, "rank%d.jsonl" % r) for r in range(np_)))
    env = dict(opts.get("env", {}))
    rc, tail = mpirun(ctx, np_, [PY, "-m", "vf.mpiworker", jf], env_extra=env, timeout=hang, progress=progress, logdir=logdir)
    recs = {r: load_jsonl(os.path.join(logdir, "rank%d.jsonl" % r)) for r in range(np_)}
    shutil.rmtree(scratch, ignore_errors=True)
    return logdir, rc, tail, recs


def _absorb(ctx, module, np_, opts, recs, rc, tail):
    """Take in the records of a job. Returns the next index, None to stop, or 'redo'."""
    short = module.split(".")[-1]
    for r in [x for rk in sorted(recs) for x in recs[rk] if x["kind"] == "harness_error"]:
        raise Inconclusive("generator error in %s: %s" % (short, r["error"]))
    for r in recs[0]:
        if r["kind"] == "harness_error":
            raise Inconclusive("oracle error in %s: %s" % (short, r["error"]))
        if r["kind"] != "case":
            continue
        sig = (short, np_, r["index"], r["colour"])
        feats = ["ranks:%d" % r["nranks"], "layout:" + r["layout"]] + r["features"]
        ctx.case(feats, sig, nontrivial="trivial" not in r["features"],
                 sample=dict(workload=short, ranks=r["nranks"], layout=r["layout"], case=r["describe"]) if r.get("describe") else None)
        ctx.traces.add(r["trace_sig"])
        for k, v in r["counters"].items():
            if k == "max_msg":
                ctx.count_max("largest_message_bytes", v)
            else:
                ctx.count(k, v)
        if r["verdict"]:
            ctx.violation(short + ":" + r["verdict"].split(":")[0][:60], r["verdict"],
                          dict(mpi=True, module=module, np=np_, index=r["index"], opts=opts, features=r["features"],
                               layout=r["layout"], case=r["describe"]))
    exc = [(rk, x) for rk in recs for x in recs[rk] if x["kind"] == "exception"]
    if exc:
        rk, x = exc[0]
        if "MemoryError" in x["error"] or "No space left" in x["error"]:
            raise Inconclusive("out of resources: " + x["error"])
        ctx.violation("%s:raised:%s" % (short, x["error"].split(":")[0]),
                      "rank %d raised %s (in %s)" % (rk, x["error"], x["where"]),
                      dict(mpi=True, module=module, np=np_, index=x["index"], opts=opts, features=x["features"],
                           layout=x["layout"], trace=x["trace"]))
        return None
    done = [x for x in recs[0] if x["kind"] == "done"]
    if done and rc == 0:
        return 10**9
    if done and rc != 0:
        ctx.notes.append("job of %s ended with %s after its last case: %s" % (short, rc, tail[-200:]))
        return 10**9
    return "redo"


def run_many(ctx, jobs, maxranks=9):
    """Run jobs [(module, np, ncases, budget, opts)] with at most maxranks ranks at a time."""
    import queue
    jobs = sorted(jobs, key=lambda j: -j[1])
    cond = threading.Condition()
    free = [maxranks]
    errs = []

    def one(j):
        try:
            run_mpi(ctx, j[0], j[1], j[2], j[3], j[4] if len(j) > 4 else None)
        except BaseException as e:
            errs.append(e)
        finally:
            with cond:
                free[0] += min(j[1], maxranks)
                cond.notify_all()
    ths = []
    pending = list(jobs)
    while pending:
        with cond:
            nxt = next((j for j in pending if min(j[1], maxranks) <= free[0]), None)
            if nxt is None:
                cond.wait(1.0)
                continue
            free[0] -= min(nxt[1], maxranks)
        pending.remove(nxt)
        th = threading.Thread(target=one, args=(nxt,))
        th.start()
        ths.append(th)
    for th in ths:
        th.join()
    if errs:
        for e in errs:
            if not isinstance(e, Inconclusive):
                raise e
        raise errs[0]


# ---------------------------------------------------------------------------
# Serial workloads
# ---------------------------------------------------------------------------

def run_serial(ctx, module, ncases, budget, opts=None, nproc=6, hang=90, first=0):
    """
    Spread cases 0..ncases-1 of a serial workload module over worker processes.
    The module provides case(rng, tier, index, scratch, opts) -> (features, description, verdict or None)
    """
    opts = dict(opts or {})
    procs = []
    for w in range(nproc):
        procs.append(_start_serial(ctx, module, first + w, nproc, first + ncases, budget, opts))
    redo = []
    while procs:
        time.sleep(0.03)
        for p in list(procs):
            rc = p["p"].poll()
            size = os.path.getsize(p["log"]) if os.path.exists(p["log"]) else 0
            if size != p["size"]:
                p["size"], p["t"] = size, time.time()
            if rc is None and time.time() - p["t"] > hang:
                p["p"].kill()
                p["p"].wait()
                rc = "hang"
            if rc is None:
                continue
            procs.remove(p)
            recs = load_jsonl(p["log"])
            more = _absorb_serial(ctx, module, opts, recs, rc, p)
            if more == "redo":
                stuck = max([r["index"] for r in recs if r["kind"] == "start"], default=None)
                if stuck is None:
                    raise Inconclusive("worker for %s does not start: %s" % (module, open(p["out"], errors="replace").read()[-1500:]))
                if p.get("single"):
                    short = module.split(".")[-1]
                    ctx.violation("%s:%s" % (short, "hang" if rc == "hang" else "crash"),
                                  "a call %s (repeated twice)" % ("did not return within %d s" % hang if rc == "hang"
                                                                  else "killed the process (exit %s)" % rc),
                                  dict(mpi=False, module=module, index=stuck, opts=opts,
                                       output=open(p["out"], errors="replace").read()[-3000:]))
                else:
                    q = _start_serial(ctx, module, stuck, 1, stuck + 1, 120, opts)
                    q["single"] = True
                    q["resume"] = (stuck + p["step"], p["step"], p["end"], p["deadline"])
                    procs.append(q)
            elif p.get("resume"):
                a, step, end, dl = p["resume"]
                ctx.count("transient_restarts")
                if dl - time.time() > 1 and a < end:
                    procs.append(_start_serial(ctx, module, a, step, end, dl - time.time(), opts))


def _start_serial(ctx, module, first, step, end, budget, opts):
    with ctx.lock:
        _jobno[0] += 1
        n = _jobno[0]
    d = os.path.join(ctx.scratch, "ser", "%d" % n)
    os.makedirs(os.path.join(d, "data"))
    job = dict(module=module, first=first, step=step, end=end, budget=budget, seed=ctx.seed, tier=ctx.tier,
               opts=opts, scratch=os.path.join(d, "data"), log=os.path.join(d, "log.jsonl"), prop=ctx.prop)
    jf = os.path.join(d, "job.json")
    json.dump(job, open(jf, "w"))
    out = os.path.join(d, "out.txt")
    env = dict(ctx.env)
    env.update(opts.get("env", {}))
    p = subprocess.Popen([PY, "-m", "vf.serialworker", jf], env=env, stdout=open(out, "wb"), stderr=subprocess.STDOUT,
                         cwd=os.path.join(d, "data"))
    return dict(p=p, log=job["log"], out=out, t=time.time(), size=0, first=first, step=step, end=end,
                deadline=time.time() + budget)


def _absorb_serial(ctx, module, opts, recs, rc, p):
    short = module.split(".")[-1]
    for r in recs:
        if r["kind"] == "harness_error":
            raise Inconclusive("harness error in %s: %s" % (short, r["error"]))
        if r["kind"] == "case":
            ctx.case(r["features"], (short, opts.get("variant", ""), r["index"]), nontrivial="trivial" not in r["features"],
                     sample=dict(workload=short, case=r["describe"]) if r.get("describe") else None)
            for k, v in (r.get("counts") or {}).items():
                ctx.count(k, v)
            for k, t in (r.get("softs") or {}).items():
                ctx.violation(k, t, dict(mpi=False, module=module, index=r["index"], opts=opts))
            if r["verdict"]:
                ctx.violation("%s:%s" % (short, r.get("key") or r["verdict"].split(":")[0][:60]), r["verdict"],
                              dict(mpi=False, module=module, index=r["index"], opts=opts, features=r["features"],
                                   case=r.get("describe"), trace=r.get("trace")))
    if any(r["kind"] == "done" for r in recs):
        return None
    return "redo"


# ---------------------------------------------------------------------------

def setup():
    """Nothing is kept between runs (every check builds what it needs): only see whether the monitor builds and MPI starts."""
    ctx = Ctx("setup")
    try:
        rc, tail = mpirun(ctx, 2, [PY, "-c", "import mpi4py.MPI as M; assert M.COMM_WORLD.size == 2"], timeout=120)
        print("ready" if rc == 0 else "MPI does not start: %s" % tail[-500:])
        return 0 if rc == 0 else 1
    finally:
        ctx.close()


def main(prop, fn, rule, needs=None, replay=None):
    ctx = Ctx(prop)
    code = 2
    try:
        if replay:
            rp = json.load(open(replay))
            ctx.seed, ctx.tier = rp.get("seed", ctx.seed), rp.get("tier", ctx.tier)
            d = rp["replay"]
            if "module" not in d:
                fn(ctx)
            elif d.get("mpi"):
                run_mpi(ctx, d["module"], d["np"], 1, 300, d.get("opts"), first=d["index"])
            else:
                run_serial(ctx, d["module"], 1, 300, d.get("opts"), nproc=1, first=d["index"])
        else:
            try:
                fn(ctx)
            except Inconclusive as e:
                if not ctx.violations:
                    raise
                ctx.notes.append("inconclusive part: %s" % e)
            ctx.finish(rule)
            if needs and not ctx.violations:
                for name, least in needs.items():
                    have = ctx.features.get(name, ctx.counters.get(name, 0)) if name != "evaluations" else ctx.cov["evaluations"]
                    if have < least:
                        raise Inconclusive("only %d of %s seen (at least %d wanted)" % (have, name, least))
        for key, e in sorted(ctx.known.items()):
            if key in ctx.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
        if ctx.violations:
            seen = set()
            for v in ctx.violations:
                if v["key"] in seen:
                    continue
                seen.add(v["key"])
                rdir = os.path.join(VERIF, "evidence", "replays")
                os.makedirs(rdir, exist_ok=True)
                rp = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha256(v["key"].encode()).hexdigest()[:10]))
                with open(rp, "w") as f:
                    json.dump(dict(property=prop, seed=ctx.seed, tier=ctx.tier, key=v["key"], text=v["text"], replay=v["replay"]),
                              f, indent=1, default=str)
                print("%s: %s" % (prop, v["text"][:1500]))
                print("VIOLATION property=%s replay=%s" % (prop, rp))
            code = 1
        else:
            code = 0
            print("%s held: %d cases, %d distinct and non-trivial, %.1f s" %
                  (prop, ctx.cov["evaluations"], len(ctx.sigs), time.time() - ctx.t0))
    except Inconclusive as e:
        print("%s inconclusive: %s" % (prop, e))
        if ctx.violations:
            for v in ctx.violations[:3]:
                print("  (also saw: %s)" % v["text"][:600])
        code = 2
    finally:
        ctx.close()
    sys.stdout.flush()
    return code
