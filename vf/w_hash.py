"""
consistency_check/hash/hash_dirs_mpi.py, run whole (its command line included) on every rank: each file under the base directory which the patterns
select is hashed exactly once, and every output says so.
"""
import os, sys, io, re, hashlib, shutil, sqlite3, runpy, types
from fnmatch import fnmatch
import numpy as np
from vf import core

LAYOUTS = ["none"]          # the program works on MPI_COMM_WORLD
LEAKS = True
NAMES = ["a", "b.dat", "c d", "x.hdf5", ".hidden", "Ünïcode", "#hash", "snap_000.0", "snap_000.10", "UNREADABLE", "a.b.c", "-dash", "HASHES.old", "sub", "e[1]", "%s", "q'uote", "*"]
BAD = [b"latin\xe9", b"\xff\xfe.dat"]


def script():
    return os.path.join(core.REPO, "consistency_check", "hash", "hash_dirs_mpi.py")


def tree(rng, tier):
    """[(relative path, kind, size or target)]; kinds: d f l (link to a file) m (broken link) k (link to a directory)."""
    out, dirs = [], [""]
    ndir = int(rng.choice([0, 1, 3, int(rng.integers(0, 12)), int(rng.integers(0, 40))]))
    for i in range(ndir):
        p = dirs[int(rng.integers(len(dirs)))]
        if p.count("/") > 4:
            continue
        d = os.path.join(p, "%s%d" % (["d", "sub", "Ünter ", ".h", "snapdir_"][int(rng.integers(5))], i))
        dirs.append(d)
        out.append((d, "d", 0))
    k = 0
    for d in dirs:
        n = int(rng.choice([0, 1, 2, int(rng.integers(0, 8))]))
        for nm in rng.permutation(len(NAMES))[:n]:
            q = rng.random()
            if q < .85:
                size = int(rng.choice([0, 1, 100, int(rng.integers(0, 100000))]))
                if rng.random() < .01:
                    size = int(rng.choice([10 * 2**20 - 1, 10 * 2**20, 10 * 2**20 + 1, 25 * 10**6]))
                out.append((os.path.join(d, NAMES[nm]), "f", size))
            elif q < .92:
                out.append((os.path.join(d, NAMES[nm] + "_"), "l", int(rng.integers(1, 1000))))
            elif q < .96:
                out.append((os.path.join(d, NAMES[nm] + "_"), "m", 0))
            else:
                out.append((os.path.join(d, NAMES[nm] + "_"), "k", int(rng.integers(0, 4))))
    return out


def gen(rng, n, tier, index):
    s = dict(tree=tree(rng, tier), seed=int(rng.integers(2**31)), n=n)
    s["type"] = [None, "md5", "sha1", "sha256", "sha512"][int(rng.integers(5))]
    s["outfile"] = [None, "out", "inside", "inside-deep", "exists"][int(rng.integers(5))]
    s["dirfile"] = [None, None, "HASHES", "./HASHES", "b.dat"][int(rng.integers(5))]
    s["attrs"] = bool(rng.random() < .3)
    s["db"] = [None, "new", "old", "resume"][int(rng.integers(4))]
    pat = ["*.dat", "a*", "*/a", "sub*/*", "./b.dat", "snap*", "*", "*.*", "[ab]*", "d0/*", "*HASHES*", "nothing", "*ü*", "Ü*", "e[[]1]"]
    pick = lambda: [pat[int(i)] for i in rng.integers(0, len(pat), size=int(rng.integers(1, 4)))] if rng.random() < .4 else None
    s["include"], s["exclude"] = pick(), pick()
    s["relative"] = bool(rng.random() < .4)
    s["slash"] = bool(rng.random() < .2)
    s["nonutf8"] = bool(rng.random() < .15) and s["db"] is None
    s["runs"] = 1
    return s


def features(s):
    f = ["ranks:%d" % s["n"], "db:%s" % s["db"], "outfile:%s" % s["outfile"], "type:%s" % s["type"]]
    f += [k for k in ("dirfile", "attrs", "include", "exclude", "relative", "nonutf8") if s[k]]
    if not any(k != "d" for _, k, _ in s["tree"]):
        f.append("no-files")
    f += sorted({dict(d="directories", f="files", l="links", m="broken-links", k="directory-links")[k] for _, k, _ in s["tree"]})
    if any(k == "f" and x >= 10 * 2**20 for _, k, x in s["tree"]):
        f.append("several-blocks")
    return f


def describe(s):
    return {k: s[k] for k in ("type", "outfile", "dirfile", "attrs", "db", "include", "exclude", "relative", "nonutf8")} | dict(entries=len(s["tree"]))


def content(seed, path, size):
    r = np.random.default_rng([seed, size] + list(os.fsencode(path)))
    return r.integers(0, 256, size=size, dtype="u1").tobytes()


def paths(s):
    d = s["_scratch"]
    base = os.path.join(d, "base dir" if s["seed"] % 2 else "base")
    out = {"out": os.path.join(d, "out.txt"), "exists": os.path.join(d, "out.txt"), "inside": os.path.join(base, "all.txt"), "inside-deep": os.path.join(base, "zz_out", "all.txt"), None: None}[s["outfile"]]
    return d, base, out, os.path.join(d, "hashes.sqlite3")


def prepare(s):
    d, base, out, db = paths(s)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(base)
    s["files"] = {}
    for i, (p, k, x) in enumerate(s["tree"]):
        q = os.path.join(base, p)
        if k == "d":
            os.makedirs(q, exist_ok=True)
        elif k in "fl":
            c = content(s["seed"], p, x)
            s["files"][p] = c
            if k == "f":
                open(q, "wb").write(c)
            else:
                t = os.path.join(d, "elsewhere%d" % i)
                open(t, "wb").write(c)
                os.symlink(t, q)
        elif k == "m":
            os.symlink(os.path.join(d, "missing"), q)
            s["files"][p] = None
        else:
            t = os.path.join(d, "dir%d" % i)
            os.makedirs(t)
            for j in range(x):
                c = content(s["seed"], p, j)
                open(os.path.join(t, "f%d" % j), "wb").write(c)
                s["files"][os.path.join(p, "f%d" % j)] = c
            os.symlink(t, q)
    if s["nonutf8"]:
        for b in BAD:
            q = os.path.join(os.fsencode(base), b)
            open(q, "wb").write(b)
            s["files"][os.fsdecode(b)] = b
    if s["outfile"] == "inside-deep":
        os.makedirs(os.path.dirname(out), exist_ok=True)
    if s["outfile"] in ("exists", "inside", "inside-deep") and s["seed"] % 3:
        open(out, "w").write("old content\n" * 100)
        if s["outfile"] != "exists":
            s["files"][os.path.relpath(out, base)] = b"old content\n" * 100
    # what a run which was stopped has left in the database
    s["cached"] = {}
    if s["db"] in ("old", "resume"):
        ty = s["type"] or "md5"
        con = sqlite3.connect(db)
        con.execute("create table hashes (basedir text, path text, hash_type text, hash text)")
        r = np.random.default_rng(s["seed"])
        sel = [p for p in selected(s) if s["files"][p] is not None]
        done = [p for p in sel if r.random() < .5] or sel[:1]
        arg = basearg(s)
        for p in done:
            h = hashlib.new(ty, s["files"][p]).hexdigest()
            if s["db"] == "resume" and r.random() < .5:
                # recognizable: not to be computed again
                h = "cafe" + h[4:]
            s["cached"][p] = h
            con.execute("insert into hashes values(?,?,?,?)", (arg, p, ty, h))
        if s["db"] == "old" or done:
            # results for another directory and another type do not count
            con.execute("insert into hashes values(?,?,?,?)", ("/elsewhere", "a", ty, "0"))
            con.execute("insert into hashes values(?,?,?,?)", (arg, "a", "other", "0"))
        con.commit()
        con.close()
        if s["db"] == "old" or not done:
            s["cached"] = {}
        s["nodone"] = not done


def basearg(s):
    d, base, out, db = paths(s)
    a = os.path.relpath(base, d) if s["relative"] else base
    return a + "/" if s["slash"] else a


def selected(s):
    """The files to be hashed."""
    d, base, out, db = paths(s)
    skip = {os.path.relpath(out, base)} if out else set()
    res = []
    for p in s["files"]:
        if p in skip or (s["dirfile"] and os.path.basename(p) == os.path.normpath(s["dirfile"])):
            continue
        if s["include"] and not any(fnmatch(p, os.path.normpath(x)) for x in s["include"]):
            continue
        if s["exclude"] and any(fnmatch(p, os.path.normpath(x)) for x in s["exclude"]):
            continue
        res.append(p)
    return sorted(res)


def argv(s):
    d, base, out, db = paths(s)
    a = [basearg(s)]
    if out:
        a += ["--outfile", os.path.relpath(out, d) if s["relative"] else out]
    if s["dirfile"]:
        a += ["--dirfile", s["dirfile"]]
    if s["attrs"]:
        a += ["--attrs"]
    if s["type"]:
        a += ["--type", s["type"]]
    if s["include"]:
        a += ["--include", ",".join(s["include"])]
    if s["exclude"]:
        a += ["--exclude=" + ",".join(s["exclude"])]
    if s["db"]:
        a += ["--database", db]
    if s["db"] == "resume" and not s.get("nodone"):
        a += ["--resume"]
    return a


class Attr:
    seen = []

    def __init__(self, path):
        self.path = path

    def __setitem__(self, k, v):
        Attr.seen.append((os.path.abspath(self.path), k, v))


def run(comm, s, r):
    from mpi4py import MPI
    w = MPI.COMM_WORLD
    Attr.seen = []
    mod = types.ModuleType("xattr")
    mod.xattr = Attr
    full = w.bcast(s if r == 0 else None)
    s.update(full)
    keep = sys.argv, sys.stdout, os.getcwd(), MPI.Finalize, sys.modules.get("xattr")
    buf = io.BytesIO()
    try:
        sys.modules["xattr"] = mod
        MPI.Finalize = lambda: None
        os.chdir(s["_scratch"])
        sys.argv = ["hash_dirs_mpi.py"] + argv(s)
        sys.stdout = io.TextIOWrapper(buf, encoding="utf-8", errors="strict")
        runpy.run_path(script(), run_name="__main__")
        sys.stdout.flush()
        text = buf.getvalue()
    finally:
        sys.argv, sys.stdout, MPI.Finalize = keep[0], keep[1], keep[3]
        os.chdir(keep[2])
        if keep[4] is None:
            sys.modules.pop("xattr", None)
    return text, list(Attr.seen)


def read_lines(path):
    """[(hash, name)] of an output file, of which the lines that begin with # come first."""
    L = open(path, "rb").read().split(b"\n")
    if L[-1] != b"":
        return None
    L = L[:-1]
    while L and L[0].startswith(b"# "):
        L.pop(0)
    return [tuple(os.fsdecode(x).split(" ", 1)) for x in L]


def judge(s, texts, attrs=None):
    d, base, out, db = paths(s)
    ty = s["type"] or "md5"
    sel = selected(s)
    want = {}
    for p in sel:
        want[p] = s["cached"].get(p) or (None if s["files"][p] is None else hashlib.new(ty, s["files"][p]).hexdigest())
    show = lambda h: "UNREADABLE" if h is None else h
    # what the ranks said they did
    seen = {}
    for r, t in enumerate(texts):
        for l in os.fsdecode(t).split("\n"):
            m = re.match(r"Task +(\d+) : (\S+) (.*?)( \(Cached\))?$", l, re.S)
            if not m or l.startswith("Task") and " : skipping" in l:
                continue
            if int(m.group(1)) != r:
                return "rank %d claims to be task %s" % (r, m.group(1))
            p = m.group(3)
            if p in seen:
                return "%r was done twice" % p
            seen[p] = (m.group(2), m.group(4) is not None)
    for p in sel:
        if p not in seen:
            return "%r was not hashed" % p
        if seen[p] != (show(want[p]), p in s["cached"]):
            return "%r: printed %s instead of %s" % (p, seen[p], (show(want[p]), p in s["cached"]))
    if len(seen) > len(sel):
        return "%r should not be hashed" % sorted(set(seen) - set(sel))[0]
    if out:
        if not os.path.exists(out):
            return "the output file was not written"
        got = read_lines(out)
        exp = [(show(want[p]), p) for p in sel]
        if got != exp:
            return "output file: %s instead of %s" % difference(got, exp)
    if s["dirfile"]:
        dirs = set()
        for a, b, c in os.walk(base, followlinks=True):
            dirs.add(os.path.normpath(os.path.relpath(a, base)))
        for x in sorted(dirs):
            f = os.path.join(base, x, s["dirfile"])
            if not os.path.exists(f):
                return "no %s in %r" % (s["dirfile"], x)
            got = read_lines(f)
            exp = [(show(want[p]), os.path.basename(p)) for p in sel if os.path.normpath(os.path.dirname(p) or ".") == x]
            exp.sort(key=lambda y: y[1])
            if got != exp:
                return "%s in %r: %s instead of %s" % ((s["dirfile"], x) + difference(got, exp))
    if s["db"]:
        con = sqlite3.connect(db)
        rows = [tuple(x) for x in con.execute("select basedir, path, hash_type, hash from hashes")]
        con.close()
        exp = [(basearg(s), p, ty, want[p]) for p in sel if want[p] is not None]
        if s["db"] == "resume" and not s.get("nodone"):
            exp += [("/elsewhere", "a", ty, "0"), (basearg(s), "a", "other", "0")]
        if sorted(rows) != sorted(exp):
            return "database: %s instead of %s" % difference(sorted(rows), sorted(exp))
    if attrs is not None and s["attrs"]:
        got = sorted(x for a in attrs for x in a)
        exp = sorted((os.path.abspath(os.path.join(base, p)), "user.checksum." + ty, want[p]) for p in sel if want[p] is not None)
        if got != exp:
            return "attributes: %s instead of %s" % difference(got, exp)
    return None


def difference(a, b):
    if a is None:
        return "an incomplete line", "whole lines"
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%d entries, %r" % (len(a), a[i:i + 1]), "%d, %r" % (len(b), b[i:i + 1])


def check(s, results):
    return judge(s, [r[1][0] for r in results], [r[1][1] for r in results])


def cleanup(s):
    shutil.rmtree(s["_scratch"], ignore_errors=True)


# -- the program as a job: stopped at any point, and resumed ---------------------
def job(ctx, i):
    from vf.mpiworker import subrng
    import json
    rng = subrng(ctx.seed, "hashjob", i)
    n = int(rng.choice([1, 2, 3, 5]))
    s = gen(rng, n, "quick", i)
    s["tree"] = [(p, k, min(x, 100000)) for p, k, x in s["tree"]]
    for a in range(8):
        s["tree"] += [("job%d" % a, "d", 0)] + [("job%d/f%d" % (a, j), "f", 10 + j) for j in range(int(rng.integers(1, 5)))]
    if rng.random() < .7:
        s["include"] = s["exclude"] = None
    s["attrs"] = False
    s["nonutf8"] = False
    s["db"] = "new"
    s["relative"] = False
    how = ["kill", "kill", "raise", "complete", "empty"][int(rng.integers(5))]
    d = os.path.join(ctx.scratch, "hash", str(i))
    s["_scratch"] = os.path.join(d, "w")
    os.makedirs(d)
    prepare(s)
    nsel = len(selected(s))
    spec = dict(script=script(), rank=int(rng.integers(n)), at=max(1, int(rng.uniform(.2, 1) * nsel / n)) if how in ("kill", "raise") else -1, how=how, delay=float(rng.choice([0, .001, .01])))
    json.dump(spec, open(d + "/spec.json", "w"))
    feats = ["job", "job:" + how, "ranks:%d" % n]
    go = lambda a: core.mpirun(ctx, n, [core.PY, "-m", "vf.prog_hash", d + "/spec.json"] + a, timeout=60, preload=False, logdir=d, out=d + "/out.txt")
    text = lambda: open(d + "/out.txt", errors="surrogateescape").read()
    bad = None
    args = argv(s)
    db = paths(s)[3]
    if how == "empty":
        # nothing to resume from: this must not pass for a complete run
        rc, _ = go(args + ["--resume"])
        if rc == "hang":
            bad = "the program did not end after --resume without results"
        elif rc == 0:
            bad = "--resume without any results in the database ended with success"
        shutil.rmtree(d, ignore_errors=True)
        return n, s, spec, feats, bad, ""
    rc, _ = go(args)
    first = text()
    if rc == "hang":
        bad = "the program did not end (%s on rank %d at file %d)" % (how, spec["rank"], spec["at"])
    elif how == "complete" and rc != 0:
        bad = "the program ended with %s" % rc
    elif how == "raise" and rc == 0 and "deliberate failure" in first:
        bad = "the program ended with success although rank %d failed" % spec["rank"]
    elif rc == 0:
        bad = judge(s, per_rank(first, n))
        feats.append("not-stopped")
    else:
        feats.append("stopped")
        rows = []
        if os.path.exists(db):
            con = sqlite3.connect(db)
            try:
                rows = [tuple(x) for x in con.execute("select basedir, path, hash_type, hash from hashes")]
            except sqlite3.OperationalError:
                pass
            con.close()
        ty = s["type"] or "md5"
        sel = set(selected(s))
        for b, p, t, h in rows:
            if b != basearg(s) or t != ty or p not in sel or hashlib.new(ty, s["files"][p]).hexdigest() != h:
                bad = "the database of a stopped run has a wrong row %s" % ((b, p, t, h),)
        if len(set(r[1] for r in rows)) < len(rows):
            bad = "the database of a stopped run has a file twice"
        if not bad:
            spec["at"] = -1
            json.dump(spec, open(d + "/spec.json", "w"))
            s["cached"] = {p: h for _, p, _, h in rows}
            if rows:
                feats.append("resumed")
            # files which the stopped run made
            rc, _ = go(args + (["--resume"] if rows else []))
            bad = "the resumed program ended with %s" % rc if rc != 0 else judge(s, per_rank(text(), n))
    full = text()
    shutil.rmtree(d, ignore_errors=True)
    return n, s, spec, feats, bad, full


def per_rank(text, n):
    """The job's output, with each line given to the rank it names."""
    out = [b""] * n
    for l in text.split("\n"):
        m = re.match(r"Task +(\d+) :", l)
        if m and int(m.group(1)) < n:
            out[int(m.group(1))] += os.fsencode(l) + b"\n"
    return out


def run_jobs(ctx, count):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for i, (n, s, spec, feats, bad, full) in enumerate(ex.map(lambda i: job(ctx, i), range(count))):
            if bad and ("did not end" in bad or "ended with" in bad):
                n, s, spec, feats, bad, full = job(ctx, i)      # once more, alone
            ctx.case(feats, repr((n, sorted(describe(s).items(), key=str), sorted(spec.items()))), sample=dict(nranks=n, stop={k: spec[k] for k in ("how", "rank", "at")}, **describe(s)))
            if bad:
                ctx.violation("hashjob:" + re.sub(r"[^a-z ]", "", bad)[:25], bad, dict(case=i, options=describe(s), stop=spec, output=full[-2000:]))
