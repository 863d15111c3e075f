"""MultiFile.write: arrays which were read come out in a set of files of the same layout, with their attributes."""
import os
import numpy as np
from vf import arrays as A, mfile as M

LEAKS = False


def gen(rng, n, tier, index):
    s = M.gen_set(rng, n)
    s["counts"][:] = s["counts"][0]          # one elements_per_file for all datasets
    s["missing"][:] = s["missing"][0]
    s["mode"] = ["w", "r+"][int(rng.random() < .4)]
    s["transform"] = bool(rng.random() < .5)
    s["outgroup"] = [s["group"], "out/grp", None][int(rng.integers(3))]
    s["comp"] = [{}, {}, {"gzip": 3}, {"gzip": 3, "shuffle": True, "chunk": 11}][int(rng.integers(4))]
    s["outlist"] = bool(rng.random() < .4)
    s["withattrs"] = bool(rng.random() < .6)
    return s


def features(s):
    return M.features(s) + ["mode:" + s["mode"], "names:list" if s["outlist"] else "names:format"]


def describe(s):
    return dict(M.describe(s), mode=s["mode"], outgroup=s["outgroup"], comp=s["comp"])


def prepare(s):
    import h5py
    M.create(s)
    if s["mode"] == "r+":
        for f in s["idx"]:
            with h5py.File(M.name_of(s, f, "out"), "w") as h:
                h["untouched"] = np.arange(f + 3)
                h["untouched"].attrs["a"] = f


cleanup = M.remove


def run(comm, s, r):
    mf = M.open_set(s, comm)
    names = [d["name"] for d in s["ds"]]
    data = mf.read(names, **A.kw(s, group=(s["group"], None)))
    if all(v is None for v in data.values()):
        return "nothing"
    epf = mf.get_elements_per_file(names[0], group=s["group"])
    out = {}
    for i, x in enumerate(names):
        out["d%d" % i] = data[x]
        if s["transform"]:
            # a new array distributed in the same way
            out["n%d" % i] = np.arange(len(data[x]), dtype="i8") * (r + 1)
    attrs = {"d0": {"unit": "kpc", "v": np.arange(3)}, "other": {"x": 1}} if s["withattrs"] else None
    target = [M.name_of(s, f, "out") for f in s["idx"]] if s["outlist"] else M.pattern(s, "out")
    mf.write(out, epf, target, s["mode"], **A.kw(s, group=(s["outgroup"], None), attrs=(attrs, None)), **s["comp"])
    return {k: v for k, v in out.items() if k[0] == "n"}


def check(s, results):
    import h5py
    outs = [r[1] for r in results]
    if any(isinstance(o, str) for o in outs):
        return None if all(isinstance(o, str) for o in outs) else "ranks disagree about whether there is anything to write"
    new = {k: np.concatenate([o[k] for o in outs]) for k in outs[0]}
    pos = 0
    for f in s["idx"]:
        fn = M.name_of(s, f, "out")
        if not os.path.exists(fn):
            return "file %d of the set was not written" % f
        n = 0 if s["missing"][0, f] else int(s["counts"][0, f])
        with h5py.File(fn, "r") as h:
            loc = h[s["outgroup"]] if s["outgroup"] else h
            for k, d in enumerate(s["ds"]):
                want = M.content(s, k, f)
                got = loc["d%d" % k][...]
                if want is None:
                    want = np.zeros((0,) + d["tail"], dtype=d["dt"])
                if not A.same(got, want):
                    return "file %d: dataset %s is not what was read: got %s want %s" % (f, d["name"], A.brief(got), A.brief(want))
                if got.dtype != d["dt"].newbyteorder("="):
                    return "file %d: dataset %s has dtype %s" % (f, d["name"], got.dtype)
                if "n%d" % k in new and not np.array_equal(loc["n%d" % k][...], new["n%d" % k][pos:pos + n]):
                    return "file %d: elements of a new array are in the wrong place" % f
            if s["withattrs"]:
                a = loc["d0"].attrs
                if sorted(a) != ["unit", "v"] or a["unit"] != "kpc" or not np.array_equal(a["v"], np.arange(3)):
                    return "file %d: attributes were not written as given" % f
            if s["mode"] == "r+":
                if "untouched" not in h or not np.array_equal(h["untouched"][...], np.arange(f + 3)) or h["untouched"].attrs["a"] != f:
                    return "file %d: existing content was changed" % f
            elif "untouched" in h:
                return "file %d: not a new file" % f
        pos += n
    return None
