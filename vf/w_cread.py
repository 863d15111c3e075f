"""collective_read: the dataset is divided over the ranks in order, evenly, and every rank gets its own part."""
import os
import numpy as np
from vf import arrays as A

LAYOUTS = ["world", "world", "reversed", "groups2", "groups3", "subset"]
LEAKS = False
TYPES = ["i4", "i8", "f4", "f8", "u8", "u1", ">i4", ">f8", "rec", "S6", "bool", "i2"]
TAILS = [(), (), (), (3,), (3,), (2, 3), (2, 3), (1,), (0,), (2, 0)]


def gen(rng, n, tier, index):
    t = TYPES[int(rng.integers(len(TYPES)))]
    big = index % 50 == 11 and n <= 3
    tail = TAILS[int(rng.integers(len(TAILS)))]
    tot = int(rng.choice([0, 1, int(rng.integers(1, 10 * n)), 10 * n, 10 * n + 1, int(rng.integers(10 * n, 30 * n + 200)), int(rng.integers(10 * n, 2000))]))
    if big:
        t, tail, tot = "u1", (), 330_000_000 + int(rng.integers(1000))
    dt = np.dtype(A.REC if t == "rec" else t)
    rowsize = max(1, dt.itemsize * int(np.prod(tail))) if tail else dt.itemsize
    buf = None if (big or rng.random() < 0.25) else int(rng.choice([rowsize, 2 * rowsize + 1, 3 * rowsize, int(rng.integers(rowsize, 40 * rowsize)), 100 * rowsize]))
    tiny = not big and rng.random() < 0.1
    if tiny:
        buf = max(1, rowsize // 2)
    store = ["contiguous", "chunked", "gzip"][int(rng.choice(3, p=[.6, .25, .15]))] if not big and tot and 0 not in tail else "contiguous"
    return dict(type=t, dt=dt, tail=tail, tot=tot, buf=buf, store=store, seed=int(rng.integers(2**31)), big=big, group=bool(rng.random() < .5),
                n=n, tiny=tiny)


def data(s):
    rng = np.random.default_rng(s["seed"])
    if s["big"]:
        return np.resize(rng.integers(0, 256, size=1_000_003, dtype="u1"), s["tot"])
    n = s["tot"] * (int(np.prod(s["tail"])) if s["tail"] else 1)
    if s["dt"].kind == "S":
        v = np.array([b"s%d" % i for i in rng.integers(0, 9999, size=n)], dtype=s["dt"]) if n else np.zeros(0, s["dt"])
    elif s["dt"].kind == "b":
        v = rng.random(n) < .5
    else:
        v = A.values(rng, n, s["dt"].newbyteorder("=") if s["dt"].names is None else s["dt"], "wide")[0].astype(s["dt"])
    return v.reshape((s["tot"],) + s["tail"])


def features(s):
    f = ["type:" + s["type"], "dims:%d" % (1 + len(s["tail"])), "store:" + s["store"], "buffer:%s" % ("default" if s["buf"] is None else "below-one-row" if s["tiny"] else "small")]
    if s["big"]:
        f.append("over-100MB")
    if s["tot"] == 0:
        f.append("trivial")
    f.append("small-dataset" if s["tot"] < 10 * s["n"] else "chunked-read")
    return f


def describe(s):
    return {k: s[k] for k in ("type", "tail", "tot", "buf", "store", "n")}


def fname(s):
    return s["_scratch"] + ".hdf5"


def prepare(s):
    import h5py
    with h5py.File(fname(s), "w") as f:
        kw = {}
        if s["store"] != "contiguous":
            kw["chunks"] = (max(1, min(s["tot"], 17)),) + s["tail"]
        if s["store"] == "gzip":
            kw["compression"] = "gzip"
        f.create_dataset("grp/data" if s["group"] else "data", data=data(s), **kw)


def cleanup(s):
    if os.path.exists(fname(s)):
        os.unlink(fname(s))


def run(comm, s, r):
    import h5py
    import virgo.mpi.parallel_hdf5 as ph
    from mpi4py import MPI
    c = MPI.COMM_WORLD if comm is None else comm
    with h5py.File(fname(s), "r", driver="mpio", comm=c) as f:
        kw = {} if s["buf"] is None else dict(buffer_size=s["buf"])
        out = ph.collective_read(f["grp/data" if s["group"] else "data"], c, **kw)
    d = data(s)
    q, m = divmod(s["tot"], s["n"])
    o = r * q + min(r, m)
    want = d[o:o + q + (1 if r < m else 0)]
    return A.same(out, want), np.shape(out), want.shape, np.asarray(out).dtype.kind == want.dtype.kind and out.dtype.itemsize == want.dtype.itemsize, A.brief(out), A.brief(want)


def check(s, results):
    for i, (_, (ok, sh, wsh, dok, got, want)) in enumerate(results):
        if tuple(sh) != tuple(wsh):
            return "rank %d: part has shape %s instead of %s" % (i, sh, wsh)
        if not ok:
            return "rank %d: wrong elements read: got %s want %s" % (i, got, want)
        if not dok:
            return "rank %d: wrong dtype" % i
    return None
