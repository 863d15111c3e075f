"""fetch_elements: any rank may ask for any elements, in any order and with repeats."""
import numpy as np
from vf import arrays as A

TAILS = [(), (), (3,), (2, 3), (1,), (5,)]
TYPES = ["i4", "i8", "u8", "f4", "f8", "rec", "unyt", "u1", "i2"]


def gen(rng, n, tier, index):
    t = TYPES[int(rng.integers(len(TYPES)))]
    cap = int(rng.choice([5, 40, 300 if tier == "quick" else 3000]))
    sz, sstyle = A.sizes(rng, n, cap)
    tail = TAILS[int(rng.integers(len(TAILS)))] if t != "rec" else ()
    dt = {"rec": A.REC, "unyt": "f8"}.get(t, t)
    v, vst = A.rows(rng, sum(sz), tail, dt, "wide")
    nq, qstyle = A.sizes(rng, n, cap)
    if sum(sz) == 0:
        nq = [0] * n
    q = [rng.integers(0, max(1, sum(sz)), size=k) for k in nq]
    if rng.random() < 0.2:
        q = [np.sort(x)[::-1].copy() for x in q]
    if rng.random() < 0.2 and sum(sz):
        q = [np.full(k, rng.integers(sum(sz))) for k in nq]
    mem = [A.MEMORY[int(rng.integers(5))] for _ in range(n)] if tail else [["C", "strided", "reversed"][int(rng.integers(3))] for _ in range(n)]
    out = None
    if rng.random() < 0.3:
        out = [A.MEMORY[int(rng.integers(5))] if tail else "C" for _ in range(n)]
    ityp = ["i8", "i4", "u4", "list"][int(rng.choice(4, p=[.6, .15, .15, .1]))]
    return dict(type=t, tail=tail, sizes=sz, sstyle=sstyle, parts=A.split(v, sz), query=q, mem=mem, out=out, ityp=ityp)


def features(s):
    f = ["type:" + s["type"], "dims:%d" % (1 + len(s["tail"])), "sizes:" + s["sstyle"], "index:" + s["ityp"],
         "result-array" if s["out"] else "new-array"] + sorted(set("memory:" + m for m in s["mem"]))
    if sum(len(q) for q in s["query"]) == 0:
        f.append("trivial")
    return f


def describe(s):
    return dict(type=s["type"], tail=s["tail"], sizes=s["sizes"], query=[A.brief(q) for q in s["query"]], memory=s["mem"], out=s["out"])


def run(comm, s, rank):
    import virgo.mpi.parallel_sort as ps
    a = A.relayout(s["parts"][rank], s["mem"][rank])
    if s["type"] == "unyt":
        import unyt
        a = unyt.unyt_array(a, "kpc")
    q = s["query"][rank]
    q = q.tolist() if s["ityp"] == "list" else q.astype(s["ityp"])
    q0 = list(q)
    if s["out"]:
        out = A.relayout(np.zeros((len(q),) + s["tail"], dtype=a.dtype), s["out"][rank])
        ps.fetch_elements(a, q, result=out, comm=comm)
        units = None
    else:
        out = ps.fetch_elements(a, q, **A.kw(s, comm=(comm, None)))
        units = A.units_of(out)
    return np.asarray(out), units, A.same(a, s["parts"][rank]), list(q) == q0


def check(s, results):
    orig = np.concatenate(s["parts"])
    for i, (_, (got, units, kept, qkept)) in enumerate(results):
        want = orig[s["query"][i]]
        if got.dtype != want.dtype:
            return "rank %d: dtype %s instead of %s" % (i, got.dtype, want.dtype)
        if not A.same(got, want):
            return "rank %d: fetched elements are wrong: got %s want %s" % (i, A.brief(got), A.brief(want))
        if s["type"] == "unyt" and not s["out"] and units != "kpc":
            return "rank %d: units lost (%s)" % (i, units)
        if not kept or not qkept:
            return "rank %d: the call changed its input array" % i
    return None
