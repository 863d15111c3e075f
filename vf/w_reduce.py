"""reduce_elements and parallel_bincount: every update lands on the element its global index names, once."""
import numpy as np
from vf import arrays as A

OPS = ["add", "add", "MPI.SUM", "maximum", "minimum", "MPI.MAX", "MPI.MIN", "bitwise_or", "multiply"]
TAILS = [(), (), (3,), (2, 2), (1,)]


def gen(rng, n, tier, index):
    if rng.random() < 0.45:
        return gen_bincount(rng, n, tier)
    t = ["i8", "i4", "f8", "u8", "f4", "u2"][int(rng.integers(6))]
    op = OPS[int(rng.integers(len(OPS)))]
    if op == "bitwise_or" and t[0] == "f":
        op = "add"
    cap = int(rng.choice([3, 20, 200]))
    sz, st = A.sizes(rng, n, cap)
    tail = TAILS[int(rng.integers(len(TAILS)))]
    tot = sum(sz)
    un, ust = A.sizes(rng, n, cap * (3 if not op.startswith("MPI") else 1))
    if tot == 0:
        un = [0] * n
    hot = rng.random() < 0.3
    idx = [rng.integers(0, max(1, min(tot, 2) if hot else tot), size=k) for k in un]
    if rng.random() < 0.2 and tot:
        idx = [np.full(k, tot - 1) for k in un]

    def vals(k):
        if op == "multiply":
            return rng.integers(1, 3, size=(k,) + tail).astype(t) if k < 0 else np.where(rng.random((k,) + tail) < .1, 2, 1).astype(t)
        if big:
            hi = int(np.iinfo(t).max)
            return (hi // 1024 - rng.integers(0, min(hi // 2048, 2**40) + 1, size=(k,) + tail).astype(t)).astype(t)
        return rng.integers(0, 50, size=(k,) + tail).astype(t)
    big = t[0] != "f" and rng.random() < 0.4
    base = vals(tot)
    return dict(what="reduce", type=t, op=op, tail=tail, sizes=sz, st=st, parts=A.split(base, sz), index=idx,
                updates=[vals(k) for k in un], mem=[A.MEMORY[int(rng.integers(5))] if tail else "C" for _ in range(n)],
                ityp=["i8", "i4", "u4", "u8"][int(rng.choice(4, p=[.5, .2, .15, .15]))])


def gen_bincount(rng, n, tier):
    cap = int(rng.choice([3, 40, 400]))
    sz, st = A.sizes(rng, n, cap)
    top = int(rng.choice([1, 5, 50, 1000]))
    xt = A.INTS[int(rng.integers(8))]
    top = min(top, np.iinfo(xt).max)
    x = [rng.integers(0, top, size=k).astype(xt) for k in sz]
    w = None
    wt = None
    if rng.random() < 0.5:
        wt = ["f8", "i8", "i4", "f4", "u8", "i8", "u2"][int(rng.integers(7))]
        if wt[0] != "f" and rng.random() < 0.6:
            # weights only an integer can hold: the sums are those of the weights' own type
            hi = np.iinfo(wt).max
            w = [(hi // 64 - rng.integers(0, min(hi // 128, 2**40) + 1, size=k).astype(wt)).astype(wt) for k in sz]
        else:
            w = [rng.integers(0 if wt[0] == "u" else -20, 20, size=k).astype(wt) for k in sz]
    minlength = None if rng.random() < 0.4 else int(rng.integers(0, 2 * top + 3))
    need = max([int(a.max()) + 1 for a in x if len(a)] + [0, minlength or 0])
    result = None
    if rng.random() < 0.35:
        # somewhere to put the result, distributed over the ranks in any way, at least big enough
        tot = max(1, need) + int(rng.integers(0, 4))
        cuts = np.sort(rng.integers(0, tot + 1, size=n - 1))
        result = [int(k) for k in np.diff(np.concatenate([[0], cuts, [tot]]))]
    small = False
    if result is None and need > 1 and rng.random() < 0.12:
        # too small a place, though perhaps not on every rank: an error everywhere
        tot = need - 1 if rng.random() < 0.6 else int(rng.integers(0, need))
        cuts = np.sort(rng.integers(0, tot + 1, size=n - 1))
        result = [int(k) for k in np.diff(np.concatenate([[0], cuts, [tot]]))]
        small = True
    return dict(what="bincount", x=x, w=w, xt=xt, wt=wt, sizes=sz, st=st, minlength=minlength, result=result, need=need, small=small)


def features(s):
    f = [s["what"], "sizes:" + s["st"]]
    if s["what"] == "reduce":
        f += ["op:" + s["op"], "type:" + s["type"], "dims:%d" % (1 + len(s["tail"])), "index:" + s["ityp"]]
        if not sum(len(i) for i in s["index"]):
            f.append("trivial")
    else:
        f += ["x:" + s["xt"], "weights:%s" % s["wt"], "minlength" if s["minlength"] is not None else "no-minlength",
              "too-small" if s["small"] else "result-array" if s["result"] else "new-array"]
        if not sum(s["sizes"]):
            f.append("trivial")
    return f


def describe(s):
    if s["what"] == "reduce":
        return dict(op=s["op"], type=s["type"], tail=s["tail"], sizes=s["sizes"], index=[A.brief(i) for i in s["index"]], memory=s["mem"])
    return dict(x=[A.brief(a) for a in s["x"]], weights=None if s["w"] is None else [A.brief(a) for a in s["w"]],
                minlength=s["minlength"], result=s["result"])


def getop(name):
    if name.startswith("MPI."):
        from mpi4py import MPI
        return getattr(MPI, name[4:])
    return getattr(np, name)


def run(comm, s, rank):
    import virgo.mpi.parallel_sort as ps
    if s["what"] == "reduce":
        a = s["parts"][rank].copy()
        u = A.relayout(s["updates"][rank], s["mem"][rank])
        i = s["index"][rank].astype(s["ityp"])
        ps.reduce_elements(a, u, i, getop(s["op"]), **A.kw(s, comm=(comm, None)))
        return a, A.same(u, s["updates"][rank]) and np.array_equal(i, s["index"][rank])
    x = s["x"][rank].copy()
    w = None if s["w"] is None else s["w"][rank].copy()
    res = None
    if s["result"]:
        res = np.zeros(s["result"][rank], dtype=s["wt"] or "i8")
    if s["small"]:
        try:
            ps.parallel_bincount(x, weights=w, minlength=s["minlength"], result=res, comm=comm)
        except ValueError:
            return "refused"
        return "accepted"
    r = ps.parallel_bincount(x, **A.kw(s, weights=(w, None), minlength=(s["minlength"], None), result=(res, None), comm=(comm, None)))
    return np.asarray(r), np.array_equal(x, s["x"][rank]) and (w is None or np.array_equal(w, s["w"][rank])), None if res is None else np.array_equal(res, r)


def check(s, results):
    if s["what"] == "reduce":
        want = np.concatenate(s["parts"]).copy()
        ui, uv = np.concatenate(s["index"]), np.concatenate(s["updates"])
        name = s["op"].replace("MPI.SUM", "add").replace("MPI.MAX", "maximum").replace("MPI.MIN", "minimum")
        getattr(np, name).at(want, ui, uv)
        for i, (_, (got, kept)) in enumerate(results):
            if got.shape != s["parts"][i].shape:
                return "rank %d: shape of the updated array changed" % i
            if not kept:
                return "rank %d: the call changed an input array" % i
        got = np.concatenate([r[1][0] for r in results])
        if not A.same(got, want):
            return "elements are wrong after the updates: got %s want %s" % (A.brief(got), A.brief(want))
        return None
    if s["small"]:
        bad = [i for i, r in enumerate(results) if r[1] != "refused"]
        return "a result array of %s elements, too small for %d bins, was accepted on ranks %s" % (s["result"], s["need"], bad) if bad else None
    x = np.concatenate(s["x"]).astype(np.int64)
    got = np.concatenate([r[1][0] for r in results])
    if s["w"] is not None:
        w = np.concatenate(s["w"])
        want = np.zeros(len(got), dtype=s["wt"])
        if len(got) < s["need"]:
            return "result has %d bins, at least %d needed" % (len(got), s["need"])
        np.add.at(want, x, w)
        if got.dtype != np.dtype(s["wt"]):
            return "result dtype %s instead of that of the weights" % got.dtype
    else:
        if len(got) < s["need"]:
            return "result has %d bins, at least %d needed" % (len(got), s["need"])
        want = np.bincount(x, minlength=len(got))
    if s["result"]:
        if [len(r[1][0]) for r in results] != s["result"]:
            return "the result array was not used as supplied"
        if not all(r[1][2] for r in results):
            return "the supplied result array does not hold the result"
    elif len(got) > max(1, s["need"]):
        return "result has %d bins, %d expected" % (len(got), s["need"])
    if not np.array_equal(got, want):
        return "counts are wrong: got %s want %s" % (A.brief(got), A.brief(want))
    if not all(r[1][1] for r in results):
        return "the call changed an input array"
    return None
