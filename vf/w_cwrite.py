"""collective_write: the file ends up holding the ranks' parts, in rank order, whatever their sizes and the buffer size."""
import os
import numpy as np
from vf import arrays as A

LAYOUTS = ["world", "world", "reversed", "groups2", "groups3", "subset"]
LEAKS = False
TYPES = ["i4", "i8", "f4", "f8", "u8", "u1", "rec", "S6", "bool", "i2", ">i4"]
TAILS = [(), (), (), (3,), (3,), (2, 3), (2, 3), (1,), (0,), (2, 0)]


def gen(rng, n, tier, index):
    t = TYPES[int(rng.integers(len(TYPES)))]
    tail = TAILS[int(rng.integers(len(TAILS)))]
    sz, st = A.sizes(rng, n, int(rng.choice([3, 40, 400])))
    big = index % 50 == 11 and n <= 3
    if big:
        t, tail = "u1", ()
        sz = [int(x) for x in rng.integers(0, 50, size=n)]
        sz[int(rng.integers(n))] = 230_000_000
    dt = np.dtype(A.REC if t == "rec" else t)
    rowsize = max(1, dt.itemsize * int(np.prod(tail))) if tail else dt.itemsize
    buf = None if (big or rng.random() < .25) else int(rng.choice([rowsize, 2 * rowsize + 1, int(rng.integers(rowsize, 40 * rowsize)), 1000 * rowsize]))
    tiny = not big and rng.random() < .1
    if tiny:
        buf = max(1, rowsize // 2)
    comp = [{}, {}, {"gzip": 4}, {"shuffle": True}, {"gzip": 1, "shuffle": True, "chunk": 7}][int(rng.integers(5))]
    return dict(type=t, dt=dt, tail=tail, sizes=sz, st=st, buf=buf, comp=comp, seed=int(rng.integers(2**31)), group=bool(rng.random() < .5),
                exists=bool(rng.random() < .25), mem=[A.MEMORY[int(rng.integers(5))] for _ in range(n)], two=bool(rng.random() < .3), big=big, tiny=tiny)


def part(s, r):
    rng = np.random.default_rng(s["seed"] + r)
    if s["big"]:
        return np.resize(rng.integers(0, 256, size=1_000_003, dtype="u1"), s["sizes"][r])
    n = s["sizes"][r] * (int(np.prod(s["tail"])) if s["tail"] else 1)
    if s["dt"].kind == "S":
        v = np.array([b"s%d" % i for i in rng.integers(0, 9999, size=n)], dtype=s["dt"]) if n else np.zeros(0, s["dt"])
    elif s["dt"].kind == "b":
        v = rng.random(n) < .5
    else:
        v = A.values(rng, n, s["dt"].newbyteorder("=") if s["dt"].names is None else s["dt"], "wide")[0].astype(s["dt"])
    return v.reshape((s["sizes"][r],) + s["tail"])


def features(s):
    f = ["type:" + s["type"], "dims:%d" % (1 + len(s["tail"])), "sizes:" + s["st"], "existing-dataset" if s["exists"] else "new-dataset",
         "buffer:%s" % ("default" if s["buf"] is None else "below-one-row" if s["tiny"] else "small")]
    if s["big"]:
        f.append("over-100MB")
    if sum(s["sizes"]) == 0:
        f.append("trivial")
    return f


def describe(s):
    return {k: s[k] for k in ("type", "tail", "sizes", "buf", "comp", "exists", "mem")}


def fname(s):
    return s["_scratch"] + ".hdf5"


def prepare(s):
    import h5py
    with h5py.File(fname(s), "w") as f:
        g = f.create_group("grp") if s["group"] else f
        if s["exists"]:
            g.create_dataset("data", shape=(sum(s["sizes"]),) + s["tail"], dtype=s["dt"])


def cleanup(s):
    if os.path.exists(fname(s)):
        os.unlink(fname(s))


def run(comm, s, r):
    import h5py
    import virgo.mpi.parallel_hdf5 as ph
    from mpi4py import MPI
    c = MPI.COMM_WORLD if comm is None else comm
    a = A.relayout(part(s, r), s["mem"][r] if not s["big"] else "C")
    with h5py.File(fname(s), "r+", driver="mpio", comm=c) as f:
        g = f["grp"] if s["group"] else f
        kw = dict(s["comp"])
        if s["buf"] is not None:
            kw["buffer_size"] = s["buf"]
        ph.collective_write(g, "data", a, c, **A.kw(s, create_dataset=(not s["exists"], True)), **kw)
        if s["two"]:
            ph.collective_write(g, "second", np.arange(s["sizes"][r]) + r, c)
    return (A.same(a, part(s, r)) if not s["big"] else True),


def check(s, results):
    import h5py
    with h5py.File(fname(s), "r") as f:
        g = f["grp"] if s["group"] else f
        got = g["data"][...]
        two = g["second"][...] if s["two"] else None
    want = np.concatenate([part(s, r) for r in range(len(results))])
    if got.shape != want.shape:
        return "dataset has shape %s instead of %s" % (got.shape, want.shape)
    if got.dtype != s["dt"]:
        return "dataset has dtype %s instead of %s" % (got.dtype, s["dt"])
    if not A.same(got, want):
        return "dataset holds wrong elements: got %s want %s" % (A.brief(got), A.brief(want))
    if s["two"] and not A.same(two, np.concatenate([np.arange(k) + r for r, k in enumerate(s["sizes"])])):
        return "second dataset holds wrong elements"
    for i, (_, (kept,)) in enumerate(results):
        if not kept:
            return "rank %d: the call changed its input array" % i
    return None
