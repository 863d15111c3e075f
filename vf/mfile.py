"""Random sets of HDF5 files for the MultiFile workloads."""
import os, shutil
import numpy as np
from vf import arrays as A

TYPES = ["i4", "i8", "f4", "f8", "u8", ">i4", ">f8", "rec", "S6", "u1", "i2"]
TAILS = [(), (), (3,), (2, 2)]
NAMING = ["percent", "brace", "brace03", "list", "percent03"]


def gen_set(rng, n, big=False):
    nf = int(rng.choice([1, 2, 3, max(1, n - 1), n, n + 1, 2 * n + 1, int(rng.integers(1, 3 * n + 2))]))
    scale = int(rng.choice([2, 12, 60, 400]))
    nds = int(rng.integers(1, 4))
    names = ["pos", "ids", "sub/vel"][:nds]
    ds = []
    for k, name in enumerate(names):
        t = TYPES[int(rng.integers(len(TYPES)))]
        ds.append(dict(name=name, t=t, dt=np.dtype(A.REC if t == "rec" else t), tail=TAILS[int(rng.integers(len(TAILS)))] if t != "rec" else ()))
    counts = np.array([[int(rng.integers(0, scale + 1)) if rng.random() < 0.8 else 0 for _ in range(nf)] for _ in range(nds)])
    if rng.random() < 0.6:
        counts[:] = counts[0]                 # as in a snapshot: all datasets of a group have the same length
    missing = rng.random((nds, nf)) < (0.0 if rng.random() < .5 else float(rng.choice([.2, .5, .9, 1.0])))
    group = [None, "PartType0", "a/b"][int(rng.integers(3))]
    nogroup = (rng.random(nf) < .3) if (group and rng.random() < .3) else np.zeros(nf, bool)
    for f in range(nf):
        if nogroup[f]:
            missing[:, f] = True
    naming = NAMING[int(rng.integers(len(NAMING)))]
    how = ["attr", "attr_array", "dataset", "idx", "idx_subset"][int(rng.integers(5))] if naming != "list" else "list"
    idx = list(range(nf))
    if how == "idx_subset":
        idx = [int(x) for x in rng.permutation(nf)[:int(rng.integers(1, nf + 1))]]
    return dict(nf=nf, ds=ds, counts=counts, missing=missing, group=group, nogroup=nogroup, naming=naming, how=how, idx=idx,
                seed=int(rng.integers(2**31)), n=n, attrs=bool(rng.random() < .7), store=["contiguous", "gzip"][int(rng.random() < .25)])


def content(s, k, f):
    """What dataset k holds in file f (None if it is missing there)."""
    if s["missing"][k, f]:
        return None
    d = s["ds"][k]
    rng = np.random.default_rng([s["seed"], k, f])
    n = int(s["counts"][k, f])
    m = n * (int(np.prod(d["tail"])) if d["tail"] else 1)
    if d["dt"].kind == "S":
        v = np.array([b"x%d" % i for i in rng.integers(0, 9999, size=m)], dtype=d["dt"]) if m else np.zeros(0, d["dt"])
    elif d["dt"].names:
        v = A.values(rng, m, d["dt"], "wide")[0]
    else:
        v = A.values(rng, m, d["dt"].newbyteorder("="), "wide")[0].astype(d["dt"])
    return v.reshape((n,) + d["tail"])


def whole(s, k):
    """The concatenation over the files in the order in which they are to be read, and the file of each element."""
    parts, nr = [], []
    for f in s["idx"]:
        c = content(s, k, f)
        if c is not None:
            parts.append(c)
            nr.append(np.full(len(c), f))
    if not parts:
        return None, None
    return np.concatenate(parts), np.concatenate(nr)


def attributes(s, k):
    if not s["attrs"]:
        return {}
    return {"scale": 1.5 + k, "unit": "Mpc%d" % k, "vec": np.arange(3 + k), "flag": np.int32(7)}


def fdir(s):
    return s["_scratch"] + "_files"


def pattern(s, base="snap"):
    d = fdir(s)
    return {"percent": d + "/" + base + ".%(file_nr)d.hdf5", "percent03": d + "/" + base + "_%(file_nr)03d.hdf5",
            "brace": d + "/" + base + ".{file_nr}.hdf5", "brace03": d + "/" + base + "_{file_nr:03d}.hdf5",
            "list": d + "/" + base + ".%(file_nr)d.h5"}[s["naming"]]


def name_of(s, f, base="snap"):
    p = pattern(s, base)
    return p.format(file_nr=f) if s["naming"].startswith("brace") else p % {"file_nr": f}


def create(s):
    import h5py
    os.makedirs(fdir(s))
    for f in range(s["nf"]):
        with h5py.File(name_of(s, f), "w") as h:
            hdr = h.create_group("Header")
            hdr.attrs["NumFiles"] = s["nf"] if s["how"] != "attr_array" else np.array([s["nf"]])
            hdr["nfiles"] = s["nf"]
            if s["group"] and not s["nogroup"][f]:
                h.create_group(s["group"])
            for k, d in enumerate(s["ds"]):
                c = content(s, k, f)
                if c is None:
                    continue
                kw = {}
                if s["store"] == "gzip" and c.size:
                    kw = dict(compression="gzip", chunks=True)
                x = h.create_dataset((s["group"] + "/" if s["group"] else "") + d["name"], data=c, **kw)
                for a, v in attributes(s, k).items():
                    x.attrs[a] = v


def remove(s):
    shutil.rmtree(fdir(s), ignore_errors=True)


def open_set(s, comm):
    import virgo.mpi.parallel_hdf5 as ph
    kw = {}
    if s["how"] in ("attr", "attr_array"):
        kw["file_nr_attr"] = ("Header", "NumFiles")
    elif s["how"] == "dataset":
        kw["file_nr_dataset"] = "Header/nfiles"
    elif s["how"] in ("idx", "idx_subset"):
        kw["file_idx"] = s["idx"]
    names = [name_of(s, f) for f in range(s["nf"])] if s["how"] == "list" else pattern(s)
    return ph.MultiFile(names, comm=comm, **kw)


def features(s):
    f = ["naming:" + s["naming"], "number-from:" + s["how"], "group:%s" % s["group"],
         "files%sranks" % ("<" if len(s["idx"]) < s["n"] else "=" if len(s["idx"]) == s["n"] else ">"),
         "missing-datasets" if s["missing"].any() else "complete"]
    f += sorted(set("type:" + d["t"] for d in s["ds"]))
    if all(whole(s, k)[0] is None or len(whole(s, k)[0]) == 0 for k in range(len(s["ds"]))):
        f.append("trivial")
    return f


def describe(s):
    return dict(files=s["nf"], read=s["idx"], ranks=s["n"], naming=s["naming"], number_from=s["how"], group=s["group"],
                datasets=[(d["name"], d["t"], d["tail"]) for d in s["ds"]],
                counts=[["-" if s["missing"][k, f] else int(s["counts"][k, f]) for f in range(s["nf"])] for k in range(len(s["ds"]))])
