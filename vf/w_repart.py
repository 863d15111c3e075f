"""repartition: same elements in the same global order, with the numbers per rank which were asked for."""
import numpy as np
from vf import arrays as A

TAILS = [(), (), (3,), (2, 3), (1,), (0,), (4, 1, 2)]
TYPES = ["i4", "i8", "u8", "f4", "f8", "rec", "unyt", "u1", "bool", "i2"]


def gen(rng, n, tier, index):
    t = TYPES[int(rng.integers(len(TYPES)))]
    cap = int(rng.choice([5, 40, 400 if tier == "quick" else 4000]))
    sz, sstyle = A.sizes(rng, n, cap)
    tail = TAILS[int(rng.integers(len(TAILS)))] if t != "rec" else ()
    dt = {"rec": A.REC, "unyt": "f8"}.get(t, t)
    v, _ = A.rows(rng, sum(sz), tail, dt, "wide" if t != "bool" else None)
    tot = sum(sz)
    style = ["even", "random", "one", "cut", "last", "same"][int(rng.integers(6))]
    if style == "even":
        nd = [tot // n + (1 if i < tot % n else 0) for i in range(n)]
    elif style == "one":
        nd = [0] * n
        nd[int(rng.integers(n))] = tot
    elif style == "last":
        nd = [0] * n
        nd[-1] = tot
    elif style == "same":
        nd = list(sz)
    elif style == "cut":
        c = np.sort(rng.integers(0, tot + 1, size=n - 1))
        nd = [int(x) for x in np.diff(np.concatenate([[0], c, [tot]]))]
    else:
        nd = [int(x) for x in np.bincount(rng.integers(0, n, size=tot), minlength=n)]
    mem = [A.MEMORY[int(rng.integers(5))] for _ in range(n)] if tail else [["C", "strided", "reversed"][int(rng.integers(3))] for _ in range(n)]
    return dict(type=t, tail=tail, sizes=sz, sstyle=sstyle, want=nd, wstyle=style, parts=A.split(v, sz), mem=mem,
                aslist=bool(rng.random() < 0.3))


def features(s):
    f = ["type:" + s["type"], "dims:%d" % (1 + len(s["tail"])), "sizes:" + s["sstyle"], "wanted:" + s["wstyle"]] + \
        sorted(set("memory:" + m for m in s["mem"]))
    if sum(s["sizes"]) == 0 or 0 in s["tail"]:
        f.append("trivial")
    return f


def describe(s):
    return dict(type=s["type"], tail=s["tail"], sizes=s["sizes"], wanted=s["want"], memory=s["mem"])


def run(comm, s, rank):
    import virgo.mpi.parallel_sort as ps
    a = A.relayout(s["parts"][rank], s["mem"][rank])
    if s["type"] == "unyt":
        import unyt
        a = unyt.unyt_array(a, "Msun")
    nd = list(s["want"]) if s["aslist"] else np.asarray(s["want"])
    out = ps.repartition(a, nd, **A.kw(s, comm=(comm, None)))
    return np.asarray(out), A.units_of(out), A.same(a, s["parts"][rank]) and list(nd) == s["want"]


def check(s, results):
    orig = np.concatenate(s["parts"])
    o = 0
    for i, (_, (got, units, kept)) in enumerate(results):
        want = orig[o:o + s["want"][i]]
        o += s["want"][i]
        if got.dtype != want.dtype:
            return "rank %d: dtype %s instead of %s" % (i, got.dtype, want.dtype)
        if got.shape != want.shape:
            return "rank %d: shape %s instead of %s" % (i, got.shape, want.shape)
        if not A.same(got, want):
            return "rank %d: wrong elements: got %s want %s" % (i, A.brief(got), A.brief(want))
        if s["type"] == "unyt" and units != "Msun":
            return "rank %d: units lost (%s)" % (i, units)
        if not kept:
            return "rank %d: the call changed its input array" % i
    return None
