"""parallel_unique: each distinct value once, in order over the ranks, with the number of times it occurs."""
import numpy as np
from vf import arrays as A

TYPES = A.INTS + ["f4", "f8", "pair", "unyt"]


def gen(rng, n, tier, index):
    t = TYPES[int(rng.integers(len(TYPES)))]
    cap = int(rng.choice([4, 30, 300, 2000 if tier == "quick" else 10000], p=[.3, .35, .25, .1]))
    sz, st = A.sizes(rng, n, cap)
    dt = {"pair": A.PAIR, "unyt": "f8"}.get(t, t)
    style = ["few", "const", "runs", "wide", "sorted", "extreme", "spanning"][int(rng.integers(7))]
    if style == "spanning":
        # values repeated so often that they span several ranks once sorted
        k = max(1, sum(sz) // int(rng.integers(1, 4)))
        if t == "pair":
            v = np.zeros(sum(sz), dtype=A.PAIR)
            v["a"] = np.arange(sum(sz)) // k
            v["b"] = v["a"] % 2
        else:
            v = (np.arange(sum(sz)) // k).astype(dt)
        v = v[rng.permutation(len(v))]
    else:
        v, _ = A.values(rng, sum(sz), dt, style)
    srt = bool(rng.random() < 0.3)
    if srt:
        v = np.sort(v)
    return dict(type=t, sizes=sz, st=st, style=style, parts=A.split(v, sz), sorted=srt, counts=bool(rng.random() < 0.75),
                repart=bool(rng.random() < 0.5))


def features(s):
    f = ["type:" + s["type"], "sizes:" + s["st"], "values:" + s["style"], "presorted" if s["sorted"] else "unsorted",
         "counts" if s["counts"] else "no-counts", "repartition" if s["repart"] else "no-repartition"]
    if sum(s["sizes"]) < 2:
        f.append("trivial")
    return f


def describe(s):
    return dict(type=s["type"], sizes=s["sizes"], values=s["style"], presorted=s["sorted"], repartition=s["repart"], parts=[A.brief(p) for p in s["parts"]])


def run(comm, s, rank):
    import virgo.mpi.parallel_sort as ps
    a = s["parts"][rank].copy()
    if s["type"] == "unyt":
        import unyt
        a = unyt.unyt_array(a, "Mpc")
    r = ps.parallel_unique(a, **A.kw(s, comm=(comm, None), arr_sorted=(s["sorted"], False), return_counts=(s["counts"], False), repartition_output=(s["repart"], False)))
    kept = A.same(a, s["parts"][rank])
    if s["counts"]:
        u, c = r
        return np.asarray(u), np.asarray(c), A.units_of(u), kept
    return np.asarray(r), None, A.units_of(r), kept


def check(s, results):
    orig = np.concatenate(s["parts"])
    wu, wc = np.unique(orig, return_counts=True)
    gu = np.concatenate([r[1][0] for r in results])
    for i, (_, r) in enumerate(results):
        if r[0].dtype != orig.dtype:
            return "rank %d: dtype %s instead of %s" % (i, r[0].dtype, orig.dtype)
    if gu.shape != wu.shape or not np.array_equal(gu, wu):
        return "unique values wrong: %d values, %d expected; got %s want %s" % (len(gu), len(wu), A.brief(gu), A.brief(wu))
    if s["counts"]:
        for i, (_, r) in enumerate(results):
            if r[1].shape != r[0].shape:
                return "rank %d: %d counts for %d values" % (i, len(r[1]), len(r[0]))
        gc = np.concatenate([r[1][1] for r in results])
        if not np.array_equal(gc, wc):
            return "counts wrong: got %s want %s" % (A.brief(gc), A.brief(wc))
    if s["repart"]:
        k = [len(r[1][0]) for r in results]
        if max(k) - min(k) > 1:
            return "output not evenly spread although repartition was asked for: %s" % k
    if s["type"] == "unyt" and len(orig):
        for i, (_, r) in enumerate(results):
            if len(r[0]) and r[2] != "Mpc":
                return "rank %d: units lost (%s)" % (i, r[2])
    for i, (_, r) in enumerate(results):
        if not r[3]:
            return "rank %d: the call changed its input array" % i
    return None
