"""MultiFile.read: the distributed result is the concatenation over the files, in file order, for any files and ranks."""
import numpy as np
from vf import arrays as A, mfile as M

LEAKS = False
EXPECTED = ()


def gen(rng, n, tier, index):
    s = M.gen_set(rng, n)
    s["call"] = ["dict", "list", "single"][int(rng.integers(3))]
    s["subset"] = [k for k in range(len(s["ds"])) if rng.random() < .8] or [0]
    s["nr"] = ["no", "no", "all"][int(rng.integers(3))]
    s["extra"] = bool(rng.random() < .1) and s["call"] != "single"
    return s


describe, prepare, cleanup = M.describe, M.create, M.remove


def features(s):
    return M.features(s) + ["file-numbers:" + s["nr"]] + (["file-numbers:collective:" + s["how"]] if s["nr"] == "all" and len(s["idx"]) < s["n"] else [])


def run(comm, s, r):
    mf = M.open_set(s, comm)
    kw = dict(return_file_nr=True) if s["nr"] == "all" else {}
    names = [s["ds"][k]["name"] for k in s["subset"]] + (["not_there"] if s["extra"] else [])
    if s["call"] == "single":
        out = mf.read(names[0], **A.kw(s, group=(s["group"], None)), **kw)
        out, nr = ([out[0]], [out[1]]) if kw else ([out], None)
        return [np.asarray(x) if x is not None else None for x in out], nr
    out = mf.read(names, **A.kw(s, group=(s["group"], None)), **(dict(unpack=True) if s["call"] == "list" else {}), **kw)
    out, nr = out if kw else (out, None)
    if s["call"] == "dict":
        if sorted(out) != sorted(names):
            return "keys %s instead of %s" % (sorted(out), sorted(names))
        out = [out[x] for x in names]
        nr = nr if nr is None else [nr[x] for x in names]
    return [np.asarray(x) if x is not None else None for x in out], nr


def check(s, results):
    ks = list(s["subset"])[:1] if s["call"] == "single" else list(s["subset"])
    for i, (_, out) in enumerate(results):
        if isinstance(out, str):
            return "rank %d: %s" % (i, out)
        out, nr = out
        if nr is not None and len(nr) != len(out):
            return "rank %d: file numbers of %d datasets" % (i, len(nr))
        if len(out) != len(ks) + (1 if s["extra"] else 0):
            return "rank %d: %d arrays returned" % (i, len(out))
        if s["extra"] and out[-1] is not None:
            return "rank %d: an array was returned for a dataset which no file has" % i
    for j, k in enumerate(ks):
        want, wnr = M.whole(s, k)
        parts = [res[1][0][j] for res in results]
        name = s["ds"][k]["name"]
        if want is None:
            if any(p is not None for p in parts):
                return "%s: an array was returned for a dataset which no file has" % name
            continue
        for i, p in enumerate(parts):
            if p is None:
                return "%s: rank %d was given None although the dataset exists" % (name, i)
            if p.shape[1:] != want.shape[1:]:
                return "%s: rank %d has shape %s" % (name, i, p.shape)
            if p.dtype != want.dtype.newbyteorder("="):
                return "%s: rank %d has dtype %s instead of %s" % (name, i, p.dtype, want.dtype.newbyteorder("="))
        got = np.concatenate(parts)
        if not A.same(got, want):
            return "%s: not the concatenation of the files: got %s want %s" % (name, A.brief(got), A.brief(want))
        if s["nr"] == "all":
            nrs = [res[1][1][j] for res in results]
            for i, x in enumerate(nrs):
                if x is None or len(x) != len(parts[i]):
                    return "%s: rank %d: file numbers do not go with the elements" % (name, i)
            nrs = np.concatenate(nrs)
            if not np.array_equal(nrs, wnr):
                return "%s: file numbers are wrong: got %s want %s" % (name, A.brief(nrs), A.brief(wnr))
    return None
