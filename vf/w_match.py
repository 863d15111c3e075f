"""parallel_match: index of an equal element of arr2 for each element of arr1, or -1 exactly when there is none."""
import numpy as np
from vf import arrays as A

TYPES = A.INTS + ["f4", "f8", "i8", "i8"]


def gen(rng, n, tier, index):
    t = TYPES[int(rng.integers(len(TYPES)))]
    cap = int(rng.choice([4, 30, 300, 2000 if tier == "quick" else 10000], p=[.25, .35, .3, .1]))
    s1, st1 = A.sizes(rng, n, cap)
    s2, st2 = A.sizes(rng, n, cap)
    n1, n2 = sum(s1), sum(s2)
    style = ["perm", "dups", "subset", "none", "extreme", "narrow", "clustered"][int(rng.integers(7))]
    dt = np.dtype(t)
    small = dt.kind in "iu" and dt.itemsize == 1
    if style == "perm" and not small:
        pool = rng.permutation(max(n1, n2) + 5)
        if dt.kind == "u" and dt.itemsize == 8:
            pool = pool.astype("u8") + np.uint64(2**63)
        v1, v2 = pool[:n1].astype(t), rng.permutation(pool)[:n2].astype(t)
    elif style == "dups":
        v1, v2 = A.values(rng, n1, t, "few")[0], A.values(rng, n2, t, "few")[0]
    elif style == "subset":
        v2 = A.values(rng, n2, t, "wide")[0]
        v1 = v2[rng.integers(0, n2, size=n1)] if n2 else A.values(rng, n1, t, "wide")[0]
        v1 = v1.copy()
        k = rng.random(n1) < 0.3
        v1[k] = A.values(rng, int(k.sum()), t, "wide")[0]
    elif style == "none":
        v1 = (A.values(rng, n1, t, "few")[0]).astype(t)
        v2 = (np.arange(n2) % 100 + 10).astype(t)
    elif style == "extreme":
        v1, v2 = A.values(rng, n1, t, "extreme")[0], A.values(rng, n2, t, "extreme")[0]
    elif style == "narrow":
        v1, v2 = (np.arange(n1) % 120).astype(t), rng.permutation(np.arange(n2) % 60 + 30).astype(t)
    else:
        v2 = np.repeat(np.arange(n2 // 9 + 1) % 60 * 2, 9)[:n2].astype(t)
        v1 = rng.integers(0, 127, size=n1).astype(t)
    t1 = t
    if rng.random() < .25:
        # the arrays have different integer types
        t1, t = [("i8", "u8"), ("u8", "i8"), ("i8", "u8"), ("u8", "i8"), ("i4", "u8"), ("u8", "i4"), ("i4", "i8"), ("u4", "i4"), ("i8", "u2")][int(rng.integers(9))]
        style = "mixed-types"
        v2 = A.values(rng, n2, t, ["wide", "extreme", "perm"][int(rng.integers(3))])[0]
        lo, hi = int(np.iinfo(t1).min), int(np.iinfo(t1).max)
        pool = [int(x) for x in v2[:400]] or [0, 1]
        pick = [min(hi, max(lo, pool[int(k)] + int(d))) for k, d in zip(rng.integers(len(pool), size=n1), rng.choice([0, 0, 0, 1, -1, 2], size=n1))]
        v1 = np.array(pick, dtype=t1) if n1 else np.zeros(0, t1)
        if n1 and rng.random() < .3:
            v1[0] = hi
            v1[-1] = lo
    elif rng.random() < .12:
        # floating point numbers, some between two integers, and numbers of another type; all are exact in double precision
        t1, t = [("f8", "i8"), ("f8", "i4"), ("i8", "f8"), ("i4", "f8"), ("f8", "f4"), ("f4", "f8"), ("f4", "u2"), ("u8", "f8"), ("f8", "u8"), ("f8", "u1")][int(rng.integers(10))]
        style = "mixed-float"
        top = 100 if "u1" in (t, t1) else int(rng.choice([100, 2**16 - 2 if "u2" in (t, t1) or "f4" in (t, t1) else 2**31 - 2]))
        low = 0 if "u" in t + t1 else -top
        def some(n, t, v):
            v = np.asarray(v, dtype="f8")
            if t[0] == "f":
                v = v + rng.choice([0, 0, 0, .5, .25], size=n)
            return v.astype(t)
        whole = rng.integers(low, top + 1, size=n2)
        v2 = some(n2, t, whole)
        v1 = some(n1, t1, whole[rng.integers(n2, size=n1)] if n2 else rng.integers(low, top + 1, size=n1))
    is_sorted = bool(rng.random() < 0.3)
    p2 = A.split(np.sort(v2) if is_sorted else v2, s2)
    return dict(type=t, type1=t1, s1=s1, s2=s2, st=st1 + "/" + st2, style=style, p1=A.split(v1, s1), p2=p2, sorted=is_sorted)


def features(s):
    f = ["type:" + (s["type"] if s["type1"] == s["type"] else s["type1"] + "/" + s["type"]), "sizes:" + s["st"], "values:" + s["style"], "presorted" if s["sorted"] else "unsorted"]
    if sum(s["s1"]) == 0 or sum(s["s2"]) == 0:
        f.append("trivial")
    if 0 in s["s2"]:
        f.append("empty-rank-arr2")
    if 0 in s["s1"]:
        f.append("empty-rank-arr1")
    return f


def describe(s):
    return dict(type=s["type"], sizes1=s["s1"], sizes2=s["s2"], presorted=s["sorted"], arr1=[A.brief(p) for p in s["p1"]], arr2=[A.brief(p) for p in s["p2"]])


def run(comm, s, rank):
    import virgo.mpi.parallel_sort as ps
    a, b = s["p1"][rank].copy(), s["p2"][rank].copy()
    r = ps.parallel_match(a, b, **A.kw(s, arr2_sorted=(s["sorted"], False), comm=(comm, None)))
    return np.asarray(r), np.array_equal(a, s["p1"][rank]) and np.array_equal(b, s["p2"][rank])


def check(s, results):
    whole2 = np.concatenate(s["p2"])
    mixed = s["type1"] != s["type"]
    num = float if s["style"] == "mixed-float" else int
    have = set(num(x) for x in whole2) if mixed else None
    for i, (_, (got, kept)) in enumerate(results):
        a = s["p1"][i]
        if got.shape != a.shape:
            return "rank %d: %s results for %s elements" % (i, got.shape, a.shape)
        if got.dtype.kind not in "iu":
            return "rank %d: index is not of integer type" % i
        exists = np.isin(a, whole2) if s["type1"] == s["type"] else np.array([num(x) in have for x in a], dtype=bool)
        if np.any((got < -1) | (got >= max(1, len(whole2)))) and len(got):
            return "rank %d: index outside the global array" % i
        if np.any((got >= 0) & ~exists):
            return "rank %d: match reported for a value which arr2 does not hold" % i
        if np.any((got < 0) & exists):
            return "rank %d: value of arr2 not found: %s" % (i, A.brief(a[(got < 0) & exists]))
        ok = got >= 0
        if ([num(x) for x in whole2[got[ok]]] != [num(x) for x in a[ok]]) if mixed else not np.array_equal(whole2[got[ok]], a[ok]):
            return "rank %d: index points at another value" % i
        if not kept:
            return "rank %d: the call changed an input array" % i
    return None
