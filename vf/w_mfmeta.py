"""MultiFile: file numbers, attributes, elements per file, and the error for files which disagree on a type."""
import numpy as np
from vf import arrays as A, mfile as M

LEAKS = False
EXPECTED = (RuntimeError,)


def gen(rng, n, tier, index):
    s = M.gen_set(rng, n)
    s["ask"] = ["nr", "nr_names", "attrs", "both", "count", "dtype"][int(rng.integers(6))]
    s["call"] = ["dict", "list", "single"][int(rng.integers(3))]
    s["clash"] = None
    if s["ask"] == "dtype":
        # one file holds another type than the rest
        s["ds"] = s["ds"][:1]
        s["ds"][0]["dt"], s["ds"][0]["t"], s["ds"][0]["tail"] = np.dtype("i8"), "i8", ()
        have = [f for f in s["idx"] if not s["missing"][0, f]]
        if len(have) >= 2:
            s["clash"] = have[int(rng.integers(len(have)))]
    return s


def features(s):
    return M.features(s) + ["ask:" + s["ask"], "call:" + s["call"]] + (["type-clash"] if s["clash"] is not None else [])


def describe(s):
    return dict(M.describe(s), ask=s["ask"], clash=s["clash"])


def prepare(s):
    M.create(s)
    if s["clash"] is not None:
        import h5py
        with h5py.File(M.name_of(s, s["clash"]), "r+") as f:
            p = (s["group"] + "/" if s["group"] else "") + s["ds"][0]["name"]
            v = f[p][...]
            del f[p]
            f[p] = v.astype("i4")


cleanup = M.remove


def plain(x):
    return None if x is None else np.asarray(x)


def getattrs(x):
    a = getattr(x, "attrs", None)
    return None if a is None else {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in a.items()}


def run(comm, s, r):
    mf = M.open_set(s, comm)
    names = [d["name"] for d in s["ds"]]
    if s["ask"] == "count":
        return [{int(k): int(v) for k, v in mf.get_elements_per_file(x, **A.kw(s, group=(s["group"], None))).items()} for x in names] + \
               [[len(y) if y is not None else 0 for y in mf.read(names, group=s["group"], unpack=True)]]
    if s["ask"] == "dtype":
        d = mf.read(names[0], group=s["group"])
        return [plain(d)]
    kw = {}
    if s["ask"] in ("nr", "both"):
        kw["return_file_nr"] = True
    if s["ask"] == "nr_names":
        kw["return_file_nr"] = list(names) if s["call"] != "dict" else names[:1]
    if s["ask"] in ("attrs", "both"):
        kw["read_attributes"] = True
    if s["call"] == "single":
        out = mf.read(names[0], group=s["group"], **kw)
        data, nr = out if "return_file_nr" in kw else (out, None)
        data, nr = [data], None if nr is None else [nr]
        if nr is None and "return_file_nr" in kw:
            nr = [None]
    else:
        out = mf.read(names, **A.kw(s, group=(s["group"], None), unpack=(s["call"] == "list", False)), **kw)
        data, nr = out if "return_file_nr" in kw else (out, None)
        if s["call"] == "dict":
            data = [data[x] for x in names]
            if nr is not None:
                nr = [nr.get(x, "absent") for x in names]
                nr = [x for x in nr if not (isinstance(x, str) and x == "absent")]
    return [(plain(d), getattrs(d)) for d in data], None if nr is None else [plain(x) for x in nr]


def check(s, results):
    kinds = [r[0] for r in results]
    if s["clash"] is not None:
        if any(k != "raised" for k in kinds):
            return "files hold different types but ranks %s raised no error" % [i for i, k in enumerate(kinds) if k != "raised"]
        return None
    if any(k == "raised" for k in kinds):
        return "RuntimeError on rank %d: %s" % (kinds.index("raised"), results[kinds.index("raised")][2])
    if s["ask"] == "count":
        for k in range(len(s["ds"])):
            tot = {}
            for i, (_, out) in enumerate(results):
                if sum(out[k].values()) != out[-1][k]:
                    return "rank %d: elements per file %s but %d elements were read" % (i, out[k], out[-1][k])
                for f, n in out[k].items():
                    tot[f] = tot.get(f, 0) + n
            want = {f: (0 if s["missing"][k, f] else int(s["counts"][k, f])) for f in s["idx"]}
            if tot != want:
                return "elements per file over all ranks are %s instead of %s" % (tot, want)
        return None
    if s["ask"] == "dtype":
        return None
    nds = 1 if s["call"] == "single" else len(s["ds"])
    for k in range(nds):
        want, nr = M.whole(s, k)
        if want is None:
            continue
        attrs = {a: (v.tolist() if hasattr(v, "tolist") else v) for a, v in M.attributes(s, k).items()}
        got = np.concatenate([out[0][k][0] for _, out in results])
        if not A.same(got, want):
            return "elements are wrong when metadata are asked for as well: got %s want %s" % (A.brief(got), A.brief(want))
        if s["ask"] in ("attrs", "both"):
            for i, (_, out) in enumerate(results):
                if out[0][k][1] != attrs:
                    return "rank %d: attributes of %s are %s instead of %s" % (i, s["ds"][k]["name"], out[0][k][1], attrs)
        if s["ask"] in ("nr", "nr_names", "both"):
            for i, (_, out) in enumerate(results):
                if out[1] is None:
                    return "rank %d: no file numbers returned" % i
                if len(out[1]) != (1 if s["ask"] == "nr_names" and s["call"] == "dict" else nds):
                    return "rank %d: file numbers for %d datasets" % (i, len(out[1]))
            if k < len(results[0][1][1]):
                p = [out[1][k] for _, out in results]
                for i, x in enumerate(p):
                    if x is None or len(x) != len(results[i][1][0][k][0]):
                        return "rank %d: file numbers do not go with the elements" % i
                if not np.array_equal(np.concatenate(p), nr):
                    return "file numbers of the elements are wrong: got %s want %s" % (A.brief(np.concatenate(p)), A.brief(nr))
    return None
