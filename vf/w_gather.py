"""gather_array / allgather_array: concatenation in rank order along the chosen axis, on the root or on every rank."""
import numpy as np
from vf import arrays as A

TYPES = ["i4", "i8", "f8", "f4", "u8", "u1", "i2", "bool", "c16"]


def gen(rng, n, tier, index):
    t = TYPES[int(rng.integers(len(TYPES)))]
    nd = int(rng.integers(1, 4))
    axis = int(rng.integers(nd))
    if rng.random() < 0.1:
        axis = axis - nd
    cap = int(rng.choice([2, 8, 40]))
    sz, st = A.sizes(rng, n, cap)
    shape = [int(rng.integers(1, 5)) for _ in range(nd)]
    parts = []
    for r in range(n):
        sh = list(shape)
        sh[axis] = sz[r]
        k = int(np.prod(sh))
        if t == "c16":
            v = (rng.standard_normal(k) + 1j * rng.standard_normal(k)).astype("c16")
        else:
            v, _ = A.values(rng, k, t, "wide" if t != "bool" else None)
        parts.append(v.reshape(sh))
    what = ["gather", "allgather", "rootnone"][int(rng.integers(3))]
    return dict(type=t, nd=nd, axis=axis, sizes=sz, st=st, parts=parts, what=what, root=int(rng.integers(n)),
                mem=[A.MEMORY[int(rng.integers(5))] for _ in range(n)])


def features(s):
    f = ["type:" + s["type"], "dims:%d" % s["nd"], "axis:%d" % s["axis"], s["what"], "sizes:" + s["st"]]
    if sum(s["sizes"]) == 0:
        f.append("trivial")
    return f


def describe(s):
    return dict(type=s["type"], shapes=[p.shape for p in s["parts"]], axis=s["axis"], what=s["what"], root=s["root"], memory=s["mem"])


def run(comm, s, r):
    import virgo.mpi.gather_array as ga
    a = A.relayout(s["parts"][r], s["mem"][r])
    kw = {} if s["axis"] == 0 else dict(axis=s["axis"])
    if s["what"] == "gather":
        out = ga.gather_array(a, root=s["root"], comm=comm, **kw)
    elif s["what"] == "allgather":
        out = ga.allgather_array(a, comm=comm, **kw)
    else:
        out = ga.gather_array(a, root=None, comm=comm, **kw)
    return out, A.same(a, s["parts"][r])


def check(s, results):
    want = np.concatenate(s["parts"], axis=s["axis"])
    for i, (_, (out, kept)) in enumerate(results):
        if not kept:
            return "rank %d: the call changed its input array" % i
        if s["what"] == "gather" and i != s["root"]:
            if out is not None:
                return "rank %d is not the root but was given a result" % i
            continue
        if out is None:
            return "rank %d: no result" % i
        if out.dtype != want.dtype:
            return "rank %d: dtype %s instead of %s" % (i, out.dtype, want.dtype)
        if not A.same(out, want):
            return "rank %d: gathered array is wrong: got %s want %s" % (i, A.brief(out), A.brief(want))
    return None
