"""Process-level check of mpi_errchk and MPIArgumentParser: what the whole MPI job does."""
import os, json, shutil, argparse
import numpy as np
from vf.core import mpirun, PY, Inconclusive
from vf.mpiworker import subrng


class Refuse(Exception):
    pass


class Ref(argparse.ArgumentParser):
    def error(self, m):
        raise Refuse(m)


def reference(argv):
    p = Ref()
    p.add_argument("infile")
    p.add_argument("nr", type=int)
    p.add_argument("--flag", action="store_true")
    p.add_argument("--x", type=float, default=1.5)
    p.add_argument("--list", nargs="*", type=int)
    p.add_argument("--choice", choices=("a", "b"))
    try:
        return vars(p.parse_args(argv))
    except Refuse:
        return None


def gen_argv(rng):
    a = [["in.dat", "x y", "Ω.hdf5"][int(rng.integers(3))], ["7", "-3", "zz", "0"][int(rng.choice(4, p=[.4, .2, .2, .2]))]]
    if rng.random() < .15:
        a = a[:1]
    if rng.random() < .4:
        a.append("--flag")
    if rng.random() < .4:
        a += ["--x", ["2.5", "nope", "1e3"][int(rng.choice(3, p=[.4, .2, .4]))]]
    if rng.random() < .3:
        a += ["--list"] + [str(int(x)) for x in rng.integers(0, 9, size=int(rng.integers(0, 4)))]
    if rng.random() < .3:
        a += ["--choice", ["a", "b", "c"][int(rng.integers(3))]]
    if rng.random() < .1:
        a += ["--unknown"]
    return a


def make(rng, i):
    n = int(rng.choice([1, 2, 3, 4, 6]))
    if i % 5 == 4:
        calls = ["sort-2d", "sort-endian", "match-2d", "match-2d-second", "unique-2d", "repart-total", "reduce-index-2d", "reduce-count", "reduce-shape"]
        call = calls[int(rng.integers(len(calls)))]
        bad = rng.random() < .8
        k = n if rng.random() < .5 else int(rng.integers(1, n + 1))
        return n, dict(kind="refused", call=call, ranks=sorted(int(x) for x in rng.permutation(n)[:k]) if bad else [])
    if i % 2 == 0:
        fail = rng.random() < .8
        k = int(rng.integers(1, n + 1)) if rng.random() < .3 else 1
        return n, dict(kind="errchk", ranks=[int(x) for x in rng.permutation(n)[:k]] if fail else [], iters=int(rng.integers(1, 6)), at=0,
                       delay=float(rng.choice([0, 0.02, .1])), wait=["barrier", "recv", "allreduce", "none"][int(rng.integers(4))],
                       exc=["ValueError", "KeyError", "KeyboardInterrupt", "RuntimeError", "OSError", "MemoryError", "ZeroDivisionError", "AssertionError"][int(rng.integers(8))])
    argv = gen_argv(rng)
    return n, dict(kind="args", argv=argv, argv_others=argv if rng.random() < .6 else gen_argv(rng), how=["sys", "list"][int(rng.integers(2))])


def one(ctx, i):
    rng = subrng(ctx.seed, "errors", i)
    n, spec = make(rng, i)
    if spec["kind"] == "errchk" and spec["ranks"]:
        spec["at"] = int(rng.integers(spec["iters"]))
    d = os.path.join(ctx.scratch, "err", str(i))
    os.makedirs(d)
    spec["dir"] = d
    json.dump(spec, open(d + "/spec.json", "w"))
    # a hang here is what mpi_errchk exists to prevent; the normal case takes about two seconds
    rc, out = mpirun(ctx, n, [PY, "-m", "vf.prog_err", d + "/spec.json"], timeout=60, preload=False, logdir=d, out=d + "/out.txt")
    full = open(d + "/out.txt", errors="replace").read()
    bad = None
    feats = [spec["kind"], "ranks:%d" % n]
    if spec["kind"] == "errchk":
        returned = [r for r in range(n) if os.path.exists(d + "/returned.%d" % r)]
        feats += ["exception:" + (spec["exc"] if spec["ranks"] else "none"), "others-wait:" + spec["wait"]]
        if spec["ranks"]:
            if rc == "hang":
                bad = "the job did not end after %s on rank %s" % (spec["exc"], spec["ranks"])
            elif rc == 0:
                bad = "mpirun reported success although rank %s raised %s" % (spec["ranks"], spec["exc"])
            elif any(r in returned for r in spec["ranks"]):
                bad = "the failing rank carried on after %s" % spec["exc"]
            elif "deliberate failure" not in full:
                bad = "the error was not reported"
        else:
            if rc != 0:
                bad = "a job without errors ended with %s" % rc
            elif len(returned) != n or any(os.path.exists(d + "/wrong.%d" % r) for r in range(n)):
                bad = "the decorated function's result was not returned"
    elif spec["kind"] == "refused":
        returned = [r for r in range(n) if os.path.exists(d + "/returned.%d" % r)]
        feats += ["call:" + spec["call"], "refused" if spec["ranks"] else "accepted"]
        if spec["ranks"]:
            # whichever way the call refuses, the program cannot carry on and its caller has to be able to tell
            if rc == "hang":
                bad = "the job did not end after an invalid call of %s on ranks %s" % (spec["call"], spec["ranks"])
            elif rc == 0:
                bad = "mpirun reported success after an invalid call of %s on ranks %s" % (spec["call"], spec["ranks"])
            elif any(r in returned for r in spec["ranks"]):
                bad = "an invalid call of %s returned" % spec["call"]
            elif not full.strip():
                bad = "an invalid call was not reported"
        elif rc != 0:
            bad = "a job with valid calls of %s ended with %s" % (spec["call"], rc)
        elif len(returned) != n:
            bad = "a valid call of %s did not return on every rank" % spec["call"]
    else:
        want = reference(spec["argv"])
        got = [json.load(open(d + "/args.%d" % r)) if os.path.exists(d + "/args.%d" % r) else None for r in range(n)]
        feats += ["valid" if want is not None else "invalid", "same-args" if spec["argv"] == spec["argv_others"] else "args-differ"]
        if rc == "hang":
            bad = "the job did not end"
        elif want is None:
            if any(g is not None for g in got):
                bad = "ranks %s continued although the arguments are invalid" % [r for r in range(n) if got[r] is not None]
            elif not full.strip():
                bad = "no error message for invalid arguments"
        else:
            if any(g != want for g in got):
                bad = "ranks were given %s instead of %s" % (got, want)
            elif rc != 0:
                bad = "job with valid arguments ended with %s" % rc
    shutil.rmtree(d, ignore_errors=True)
    return n, spec, feats, bad, full


def run_all(ctx, count):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for i, (n, spec, feats, bad, full) in enumerate(ex.map(lambda i: one(ctx, i), range(count))):
            if bad and ("hang" in bad or "did not end" in bad or "ended with" in bad):
                n, spec, feats, bad, full = one(ctx, i)      # once more, alone
            ctx.case(feats, json.dumps({k: v for k, v in spec.items() if k != "dir"}, sort_keys=True) + str(n), sample=dict(nranks=n, **{k: v for k, v in spec.items() if k != "dir"}))
            if bad:
                ctx.violation("errors:" + spec["kind"] + ":" + bad[:25], bad, dict(case=i, spec=spec, output=full[-2000:]))
