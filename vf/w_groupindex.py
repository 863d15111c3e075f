"""group_index_from_length_and_offset: each particle gets the global index of the group whose range holds it, else -1."""
import numpy as np
from vf import arrays as A


def gen(rng, n, tier, index):
    ng = int(rng.choice([0, 1, 5, 40, 300], p=[.05, .1, .3, .35, .2]))
    style = ["packed", "gaps", "mixed", "huge", "zeros"][int(rng.integers(5))]
    maxlen = int(rng.choice([1, 3, 20]))
    length = rng.integers(0 if style in ("mixed", "zeros") else 1, maxlen + 1, size=ng)
    if style == "zeros":
        length = length * (rng.random(ng) < 0.3)
    if style == "huge" and ng:
        length[int(rng.integers(ng))] = 60 * maxlen + n
    gap = rng.integers(0, 6, size=ng) if style in ("gaps", "mixed", "huge") else np.zeros(ng, int)
    first = 0 if style == "packed" else int(rng.integers(0, 20))
    offset = first + np.cumsum(length + gap) - length - gap if ng else np.zeros(0, int)
    offset = offset.astype(int)
    end = int(offset[-1] + length[-1]) if ng else 0
    tot = end + (0 if rng.random() < 0.4 else int(rng.integers(0, 30)))
    gs = spread(rng, n, ng)
    ids = spread(rng, n, tot)
    # signed, unsigned or narrow types, in which catalogues store them
    lt, ot = ["i4", "u4", "i8", "u8"][int(rng.integers(4))], ["i4", "u4", "i8", "u8"][int(rng.integers(4))]
    return dict(style=style, ng=ng, tot=tot, length=length, offset=offset, gs=gs, ids=ids, lt=lt, ot=ot,
                rank=bool(rng.random() < 0.6))


def spread(rng, n, tot):
    k = int(rng.integers(4))
    if k == 0:
        return [tot // n + (1 if i < tot % n else 0) for i in range(n)]
    if k == 1:
        s = [0] * n
        s[int(rng.integers(n))] = tot
        return s
    c = np.sort(rng.integers(0, tot + 1, size=n - 1))
    s = [int(x) for x in np.diff(np.concatenate([[0], c, [tot]]))]
    return s


def features(s):
    f = ["groups:" + s["style"], "types:%s/%s" % (s["lt"], s["ot"]), "with-rank" if s["rank"] else "index-only"]
    if s["ng"] == 0 or s["tot"] == 0:
        f.append("trivial")
    if 0 in s["ids"]:
        f.append("empty-rank-ids")
    if 0 in s["gs"]:
        f.append("empty-rank-groups")
    return f


def describe(s):
    return dict(style=s["style"], length=A.brief(s["length"]), offset=A.brief(s["offset"]), groups_per_rank=s["gs"], ids_per_rank=s["ids"])


def run(comm, s, r):
    import virgo.mpi.util as u
    l = A.split(s["length"].astype(s["lt"]), s["gs"])[r].copy()
    o = A.split(s["offset"].astype(s["ot"]), s["gs"])[r].copy()
    l0, o0 = l.copy(), o.copy()
    if s["rank"]:
        g, k = u.group_index_from_length_and_offset(l, o, s["ids"][r], return_rank=True, comm=comm)
    else:
        g, k = u.group_index_from_length_and_offset(l, o, s["ids"][r], comm=comm), None
    return np.asarray(g), k, np.array_equal(l, l0) and np.array_equal(o, o0)


def check(s, results):
    wg, wk = np.full(s["tot"], -1), np.full(s["tot"], -1)
    for i in range(s["ng"]):
        a, b = s["offset"][i], s["offset"][i] + s["length"][i]
        wg[a:b] = i
        wk[a:b] = np.arange(b - a)
    o = 0
    for i, (_, (g, k, kept)) in enumerate(results):
        n = s["ids"][i]
        if g.shape != (n,):
            return "rank %d: %s group indexes for %d particles" % (i, g.shape, n)
        if not np.array_equal(g, wg[o:o + n]):
            return "rank %d: wrong group index: got %s want %s" % (i, A.brief(g), A.brief(wg[o:o + n]))
        if s["rank"]:
            if not np.array_equal(k, wk[o:o + n]):
                return "rank %d: wrong rank within the group: got %s want %s" % (i, A.brief(k), A.brief(wk[o:o + n]))
        if not kept:
            return "rank %d: the call changed an input array" % i
        o += n
    return None
