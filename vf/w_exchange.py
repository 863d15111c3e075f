"""my_alltoallv and sendrecv: every block arrives where it should, whatever the offsets, sizes and number of messages."""
import numpy as np
from vf import arrays as A

TYPES = ["u1", "i4", "i8", "f8", "rec", "f4", "u8"]


def gen(rng, n, tier, index):
    big = index % 40 == 7 and n <= 3
    if rng.random() < 0.3 and n > 1 and not big:
        return gen_sendrecv(rng, n)
    t = "u1" if big else TYPES[int(rng.integers(len(TYPES)))]
    dt = np.dtype(A.REC if t == "rec" else t)
    method = ["hypercube", "async", None][int(rng.integers(3))]
    cap = int(rng.choice([3, 30, 400]))
    cnt = rng.integers(0, cap + 1, size=(n, n))
    if rng.random() < 0.5:
        cnt = cnt * (rng.random((n, n)) < 0.5)
    if rng.random() < 0.1:
        cnt[:] = 0
    if big:
        # larger than one 100 MB message, in one direction only or both
        cnt = rng.integers(0, 50, size=(n, n))
        a, b = int(rng.integers(n)), int(rng.integers(n))
        cnt[a, b] = 230_000_000 + int(rng.integers(0, 1000))
        if rng.random() < 0.3 and a != b:
            cnt[b, a] = 104_857_600
    # blocks may lie in any order in the send and receive buffers, with gaps
    soff, roff, slen, rlen = [], [], [], []
    for r in range(n):
        o, L = layout(rng, cnt[r], 0 if big else 3)
        soff.append(o)
        slen.append(L)
        o, L = layout(rng, cnt[:, r], 0 if big else 3)
        roff.append(o)
        rlen.append(L)
    return dict(what="alltoallv", type=t, dt=dt, method=method, cnt=cnt, soff=soff, roff=roff, slen=slen, rlen=rlen, big=big,
                seed=int(rng.integers(2**31)))


def layout(rng, counts, gap):
    order = rng.permutation(len(counts)) if rng.random() < 0.5 else np.arange(len(counts))
    off = np.zeros(len(counts), int)
    p = int(rng.integers(0, gap + 1))
    for i in order:
        off[i] = p
        p += int(counts[i]) + int(rng.integers(0, gap + 1))
    return off, p


def gen_sendrecv(rng, n):
    perm = rng.permutation(n)
    pairs = {}
    for k in range(0, n - 1, 2):
        a, b = int(perm[k]), int(perm[k + 1])
        pairs[a], pairs[b] = b, a
    if n % 2:
        pairs[int(perm[-1])] = int(perm[-1])
    if rng.random() < 0.2:
        pairs = {r: r for r in range(n)}
    cap = int(rng.choice([2, 20, 300]))
    size = [int(rng.integers(0, cap + 1)) if rng.random() < 0.8 else 0 for _ in range(n)]
    t = TYPES[int(rng.integers(len(TYPES)))]
    return dict(what="sendrecv", type=t, dt=np.dtype(A.REC if t == "rec" else t), pairs=pairs, size=size,
                nchunk=None if rng.random() < 0.3 else int(rng.integers(1, 40)), seed=int(rng.integers(2**31)), big=False)


def sendbuf(s, r):
    rng = np.random.default_rng(s["seed"] + r)
    n = s["slen"][r] if s["what"] == "alltoallv" else s["size"][r]
    if s["big"]:
        base = rng.integers(0, 256, size=1_000_003, dtype="u1")
        return np.resize(base, n)
    return A.values(rng, n, s["dt"], "wide")[0]


def features(s):
    f = [s["what"], "type:" + s["type"]]
    if s["what"] == "alltoallv":
        f += ["method:%s" % s["method"]]
        if s["big"]:
            f.append("over-100MB")
        if s["cnt"].sum() == 0:
            f.append("trivial")
    else:
        f.append("nchunk:%s" % ("default" if s["nchunk"] is None else "small"))
        if sum(s["size"]) == 0:
            f.append("trivial")
    return f


def describe(s):
    if s["what"] == "alltoallv":
        return dict(type=s["type"], method=s["method"], counts=s["cnt"].tolist(), send_offsets=[list(map(int, o)) for o in s["soff"]])
    return dict(type=s["type"], pairs=s["pairs"], sizes=s["size"], nchunk=s["nchunk"])


def run(comm, s, r):
    import virgo.mpi.parallel_sort as ps
    a = sendbuf(s, r)
    if s["what"] == "alltoallv":
        fill = 0x5A
        b = np.frombuffer(bytes([fill]) * (s["rlen"][r] * s["dt"].itemsize), dtype=s["dt"]).copy() if not s["big"] else np.full(s["rlen"][r], fill, "u1")
        kw = {} if s["method"] is None else dict(method=s["method"])
        ps.my_alltoallv(a, s["cnt"][r].copy(), s["soff"][r].copy(), b, s["cnt"][:, r].copy(), s["roff"][r].copy(), comm=comm, **kw)
        # judge here, so that large buffers need not travel
        want = np.frombuffer(bytes([fill]) * (s["rlen"][r] * s["dt"].itemsize), dtype=s["dt"]).copy() if not s["big"] else np.full(s["rlen"][r], fill, "u1")
        for src in range(len(s["cnt"])):
            k = s["cnt"][src, r]
            if k:
                so = s["soff"][src][r]
                want[s["roff"][r][src]:s["roff"][r][src] + k] = sendbuf(s, src)[so:so + k]
        ok = want.tobytes() == b.tobytes() if not s["big"] else bool(np.array_equal(want, b))
        return ok, bool(np.array_equal(a.view("u1"), sendbuf(s, r).view("u1"))) if len(a) else True, A.brief(b), A.brief(want)
    p = s["pairs"][r]
    b = np.zeros(s["size"][p], dtype=s["dt"])
    ps.sendrecv(p, a, b, **A.kw(s, comm=(comm, None), nchunk=(s["nchunk"], None)))
    want = sendbuf(s, p)
    return want.tobytes() == b.tobytes(), a.tobytes() == sendbuf(s, r).tobytes(), A.brief(b), A.brief(want)


def check(s, results):
    for i, (_, (ok, kept, got, want)) in enumerate(results):
        if not ok:
            return "rank %d: received data are wrong (%s): got %s want %s" % (i, s["what"], got, want)
        if not kept:
            return "rank %d: the send buffer was changed" % i
    return None
