"""parallel_sort: the distributed array ends up sorted, with the same elements and the same number on each rank."""
import numpy as np
from vf import arrays as A

TYPES = A.INTS + A.FLOATS + A.FLOATS + ["pair", "unyt", "<i8", "bool"]


def gen(rng, n, tier, index):
    t = TYPES[int(rng.integers(len(TYPES)))]
    cap = int(rng.choice([6, 40, 300, 3000 if tier == "quick" else 20000], p=[.25, .35, .3, .1]))
    sz, sstyle = A.sizes(rng, n, cap)
    dt = {"pair": A.PAIR, "unyt": "f8"}.get(t, t)
    v, vstyle = A.values(rng, sum(sz), dt)
    per_rank = False
    if rng.random() < 0.25 and sum(sz):
        # every rank's values come from its own narrow range, in descending rank order
        parts = [A.values(rng, s, dt, "few")[0] for s in sz]
        if np.dtype(dt).kind in "if" and np.dtype(dt).itemsize >= 4:
            parts = [p + (n - i) * 10 for i, p in enumerate(parts)]
            parts = [p.astype(dt) for p in parts]
        v = np.concatenate(parts)
        per_rank = True
    return dict(type=t, sizes=sz, sstyle=sstyle, vstyle="by-rank" if per_rank else vstyle, parts=A.split(v, sz),
                index=bool(rng.random() < 0.7), verbose=bool(rng.random() < 0.05))


def features(s):
    f = ["type:" + s["type"], "sizes:" + s["sstyle"], "values:" + s["vstyle"], "index" if s["index"] else "no-index"]
    if sum(s["sizes"]) < 2:
        f.append("trivial")
    if 0 in s["sizes"]:
        f.append("empty-rank")
    return f


def describe(s):
    return dict(type=s["type"], sizes=s["sizes"], values=s["vstyle"], parts=[A.brief(p) for p in s["parts"]], return_index=s["index"])


def run(comm, s, rank):
    import virgo.mpi.parallel_sort as ps
    a = s["parts"][rank].copy()
    if s["type"] == "unyt":
        import unyt
        a = unyt.unyt_array(a, "Mpc")
    r = ps.parallel_sort(a, **A.kw(s, comm=(comm, None), return_index=(s["index"], False), verbose=(s["verbose"], False)))
    return np.asarray(a), r, A.units_of(a)


def check(s, results):
    res = [r[1] for r in results]
    for i, (r, n) in enumerate(zip(res, s["sizes"])):
        if r[0].shape != (n,):
            return "rank %d holds %s elements after the sort, %d before" % (i, r[0].shape, n)
    whole = np.concatenate([r[0] for r in res])
    orig = np.concatenate(s["parts"])
    if whole.dtype != orig.dtype:
        return "dtype changed: %s to %s" % (orig.dtype, whole.dtype)
    want = np.sort(orig)
    if not np.array_equal(whole, want):
        if sorted(whole.tolist()) != sorted(orig.tolist()):
            return "elements lost or made up: not the same multiset after the sort"
        return "elements not in ascending order over the ranks"
    if s["type"] == "unyt" and any(r[2] != "Mpc" for r in res):
        return "units changed"
    if not s["index"]:
        if any(r[1] is not None for r in res):
            return "an index was returned although none was asked for"
        return None
    for i, (r, n) in enumerate(zip(res, s["sizes"])):
        if np.shape(r[1]) != (n,):
            return "rank %d has %s index entries for %d elements" % (i, np.shape(r[1]), n)
    idx = np.concatenate([np.asarray(r[1]) for r in res])
    if idx.dtype.kind not in "iu":
        return "index is not of integer type"
    if not np.array_equal(np.sort(idx), np.arange(len(orig))):
        return "sorting index is not a permutation of the global indexes"
    if not np.array_equal(orig[idx], whole):
        return "sorting index does not give the sorted array"
    return None
