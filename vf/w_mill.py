"""
The Millennium examples in C and Fortran, built with sanitizers: random files are read by the real routines and programs, and what they
return or print is compared with what was put in the files. opts["variant"]: files | region | programs | sort | readers | grouplib
"""
import os, struct, subprocess
import numpy as np
from vf.serialworker import expect, Bad
from vf import fmt
from vf.fmt import Out, rd
from vf.w_util import ref_key


def case(c, rng, tier, index, scratch, opts):
    globals()["c_" + opts["variant"]](c, rng, tier, index, scratch, opts)


# -- running a program -------------------------------------------------------
def env():
    e = dict(os.environ)
    e.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=96")
    return e


def start(cmd, cwd, what, stdin=None, timeout=60):
    try:
        p = subprocess.run(cmd, cwd=cwd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Bad("%s does not end" % what, "hang")
    err = p.stderr.decode("latin1")
    for mark in ("AddressSanitizer", "runtime error"):
        if mark in err:
            at = err.index(mark)
            raise Bad("%s: the sanitizer reports: %s" % (what, err[max(0, at - 200):at + 600]), "sanitizer")
    return p.returncode, p.stdout.decode("latin1"), err


class Script:
    """Calls for the driver, in the byte order which it was built for."""

    def __init__(self, e):
        self.e, self.b, self.calls = e, b"", []

    def i(self, *x):
        self.b += struct.pack("%s%di" % (self.e, len(x)), *[int(q) for q in x])
        return self

    def s(self, x):
        self.i(len(x))
        self.b += x.encode()
        return self

    def raw(self, a):
        a = np.asarray(a)
        self.b += np.ascontiguousarray(a).astype(a.dtype.newbyteorder(self.e)).tobytes()
        return self

    def call(self, what, op, *args):
        self.calls.append((op, what))
        self.i(op)
        return self

    def file(self, base, name, isnap, ifile):
        self.s(base).s(name).i(isnap, ifile)
        return self

    def run(self, exe, scratch):
        f, o = os.path.join(scratch, "script"), os.path.join(scratch, "result")
        open(f, "wb").write(self.b)
        if os.path.exists(o):
            os.unlink(o)
        rc, out, err = start([exe, f, o], scratch, "the Millennium library")
        return Result(self, open(o, "rb").read() if os.path.exists(o) else b"", rc, out + err)


class Result:
    def __init__(self, s, b, rc, text):
        self.s, self.b, self.at, self.rc, self.text, self.what = s, b, 0, rc, text, "?"
        self.k = 0

    def next(self):
        op, self.what = self.s.calls[self.k]
        self.k += 1
        x = self.get("i4", 1)[0]
        expect(x == op, "%s: the driver's results are out of step" % self.what, "step")
        return self.what

    def get(self, dt, n):
        t = np.dtype(dt).newbyteorder(self.s.e)
        need = t.itemsize * n
        if len(self.b) - self.at < need:
            raise Bad("%s stopped (exit code %s): %s" % (self.what, self.rc, self.text.strip()[-400:]), "stopped")
        a = np.frombuffer(self.b, dtype=t, count=n, offset=self.at)
        self.at += need
        return a.astype(t.newbyteorder("="))

    def end(self):
        self.what = "the driver"
        expect(self.get("i4", 1)[0] == 77777 and self.at == len(self.b) and self.rc == 0, "the driver did not end well (exit code %s): %s" % (self.rc, self.text[-300:]), "end")

    def same(self, expected, name):
        e = np.asarray(expected)
        a = self.get(e.dtype, e.size)
        expect(a.tobytes() == np.ascontiguousarray(e).tobytes(), lambda: "%s: wrong %s: %s instead of %s" % (self.what, name, short(a), short(e.ravel())), "value:" + name)


def short(a):
    a = np.asarray(a)
    return "%s%s" % (list(a[:12]), "..." if a.size > 12 else "")


# -- files -------------------------------------------------------------------
NAMES = ["snap_millennium", "snap", "s", "milli_snap_x"]


def put(o, path):
    o.write(path)


def fname(base, isnap, ifile, kind, name="snap"):
    d = "snapdir" if kind in ("snap", "group_tab", "group_ids") else "postproc"
    return os.path.join(base, "%s_%03d" % (d, isnap), "%s_%03d.%d" % (name if kind == "snap" else kind, isnap, ifile))


def header(o):
    """What the driver writes of a header, from the file's content."""
    a = o.attrs
    return [("npart", a["Header/NumPart_ThisFile"]), ("mass", a["Header/MassTable"]), ("time", a["Header/Time"]), ("redshift", a["Header/Redshift"]),
            ("flag_sfr", a["Header/Flag_Sfr"]), ("flag_feedback", a["Header/Flag_Feedback"]), ("nparttotal", a["Header/NumPart_Total"]), ("flag_cooling", a["Header/Flag_Cooling"]),
            ("numfiles", a["Header/NumFilesPerSnapshot"]), ("boxsize", a["Header/BoxSize"]), ("omega0", a["Header/Omega0"]), ("omegalambda", a["Header/OmegaLambda"]),
            ("hubbleparam", a["Header/HubbleParam"]), ("flag_stellarage", a["Header/Flag_StellarAge"]), ("flag_metals", a["Header/Flag_Metals"]), ("hashtabsize", a["Header/HashTabSize"])]


def c_files(c, rng, tier, index, scratch, opts):
    e = "<>"[int(rng.integers(2))]
    exe = os.path.join(opts["mill"][e], "driver")
    base = os.path.join(scratch, ["data", "d", "a_directory_with_a_rather_long_name/and-another.one"][int(rng.integers(3))])
    s = Script(e)
    todo = []
    c.f("byte-order:" + e)
    used = set()
    for _ in range(int(rng.integers(2, 9))):
        kind = ["header", "file", "grouptab", "groupids", "subtab", "subids", "subhalos", "subhalos"][int(rng.integers(8))]
        isnap = int(rng.choice([0, 7, 12, 63, 100, 999]))
        ifile = int(rng.choice([0, 1, 9, 10, 42, 99, 100, 511]))
        name = NAMES[int(rng.integers(len(NAMES)))]
        if (isnap, ifile) in used:
            continue
        used.add((isnap, ifile))
        n = int(rng.choice([0, 1, 2, 3, int(rng.integers(0, 60)), int(rng.integers(0, 3000))]))
        c.f("call:" + kind, "digits:%d" % len(str(ifile)))
        if n == 0:
            c.f("empty")
        if kind in ("header", "file"):
            first = int(rng.integers(0, 100000))
            o = fmt.lg2_snapshot(rng, e, n=n, first=first)
            o.write(fname(base, isnap, ifile, "snap", name))
            s.call("readheader" if kind == "header" else "readfile", 1 if kind == "header" else 2).file(base + " " * int(rng.integers(3)), name + " " * int(rng.integers(3)), isnap, ifile)
            if kind == "file":
                s.i(n, len(o.dsets["blockid"]))
        elif kind == "grouptab":
            o = fmt.lg2_group_tab(rng, e, n=n)
            o.write(fname(base, isnap, ifile, "group_tab"))
            s.call("readgrouptab", 3).file(base, name, isnap, ifile)
        elif kind in ("groupids", "subids"):
            o = Out(e)
            for k in range(4):
                o.a("h%d" % k, n if k == 1 else rng.integers(0, 2**31), "i4")
            o.d("ids", rd(rng, "i8", n), "i8")
            o.write(fname(base, isnap, ifile, "group_ids" if kind == "groupids" else "sub_ids"))
            s.call("read" + kind, 4 if kind == "groupids" else 6).file(base, name, isnap, ifile)
        else:
            ns = int(rng.choice([0, 1, 2, int(rng.integers(0, 60)), int(rng.integers(0, 2000))]))
            o = fmt.lg2_sub_tab(rng, e, 8, n=n, ns=ns)
            o.write(fname(base, isnap, ifile, "sub_tab"))
            s.call("read" + kind, 5 if kind == "subtab" else 7).file(base, name, isnap, ifile)
            if ns == 0:
                c.f("no-subhalos")
        todo.append((kind, o, n))
    k = int(rng.integers(0, 4))
    paths = []
    for _ in range(k):
        t, i, f = int(rng.integers(5)), int(rng.integers(64)), int(rng.integers(512))
        paths.append((t, i, f))
        s.call("filepath", 14).i(t, i, f)
    c.d(byte_order=e, calls=[t[0] for t in todo])
    c.go()
    r = s.run(exe, scratch)
    for kind, o, n in todo:
        r.next()
        D = o.dsets
        if kind in ("header", "file"):
            for nm, v in header(o):
                r.same(v, nm)
            if kind == "file":
                r.same(np.array([D["first_hash_cell"], D["last_hash_cell"]], "i4"), "hash cells")
                for nm in ("PartType1/Coordinates", "PartType1/Velocities", "PartType1/ParticleIDs", "blockid"):
                    r.same(D[nm], nm)
        elif kind == "grouptab":
            r.same(np.concatenate([np.atleast_1d(D[x]) for x in ("Ngroups", "Nids", "TotNgroups", "NTask")]).astype("i4"), "numbers")
            r.same(np.array([n, n], "i4"), "sizes")
            r.same(D["GroupLen"].astype("i4"), "foflen")
            r.same(D["GroupOffset"].astype("i4"), "foffset")
        elif kind in ("groupids", "subids"):
            r.same(np.array([o.attrs["h%d" % k] for k in range(4)], "i4"), "numbers")
            r.same(np.array([n], "i4"), "size")
            r.same(D["ids"], "ids")
        else:
            ns = len(D["SubLen"])
            r.same(np.concatenate([np.atleast_1d(D[x]) for x in ("Ngroups", "Nids", "TotNgroups", "NFiles", "Nsubhalos")]).astype("i4"), "numbers")
            if kind == "subtab":
                r.same(np.array([n, n, ns, ns, ns], "i4"), "sizes")
                for nm in ("NsubPerHalo", "FirstSubOfHalo", "SubLen", "SubOffset", "SubParentHalo"):
                    r.same(D[nm].astype("i4"), nm)
            else:
                r.same(np.array([n, ns], "i4"), "sizes")
                for nm in ("NsubPerHalo", "FirstSubOfHalo", "SubLen", "SubOffset", "SubParentHalo", "Halo_M_Mean200", "Halo_R_Mean200", "Halo_M_Crit200", "Halo_R_Crit200",
                           "Halo_M_TopHat200", "Halo_R_TopHat200"):
                    r.same(D[nm], nm)
                for nm in ("SubPos", "SubVel"):
                    r.same(np.ascontiguousarray(D[nm].T), nm)
                r.same(D["SubVelDisp"], "SubVelDisp")
                r.same(D["SubVmax"], "SubVmax")
                r.same(np.ascontiguousarray(D["SubSpin"].T), "SubSpin")
                r.same(D["SubMostBoundID"].view("i8"), "SubMostBoundID")
                r.same(D["SubHalfMass"], "SubHalfMass")
                c.n("subhalos", ns)
        c.n("reads")
    for t, i, f in paths:
        r.next()
        b = bytes(r.get("u1", 256)).decode("latin1")
        dirs = ["snapshot", "group_tab", "sub_tab", "sub_ids", "group_ids"]
        nm = ["snap_millennium", "group_tab", "sub_tab", "sub_ids", "group_ids"][t]
        want = "/data/milli%02d/d%02d/%s/%s_%03d.%d" % ((f + 3 * (63 - i)) % 14, i, dirs[t], nm, i, f)
        expect(b == want.ljust(256), "filepath(%d,%d,%d) is %r instead of %r" % (t, i, f, b.rstrip(), want), "path")
        c.n("paths")
    r.end()


# -- snapshots with a hash table ----------------------------------------------
class Snap:
    """A whole snapshot: particles in the order of their hash cells, cells spread over files."""

    def __init__(self, rng, e, base, name, isnap, bits, nfile, positions=True, maxp=400, big=False):
        self.nhash = 8**bits
        self.bits, self.e, self.base, self.name, self.isnap, self.nfile = bits, e, base, name, isnap, nfile
        self.box = float(rng.choice([1.0, 100.0, 500.0, 62.5]))
        mode = int(rng.integers(4))
        if mode == 0:
            npc = rng.integers(0, 4, size=self.nhash)
        elif mode == 1:
            npc = np.where(rng.random(self.nhash) < .2, rng.integers(0, 30, size=self.nhash), 0)
        elif mode == 2:
            npc = np.zeros(self.nhash, int)
            for i in rng.integers(0, self.nhash, size=int(rng.integers(0, 3))):
                npc[i] = int(rng.integers(1, 200))
        else:
            npc = np.ones(self.nhash, int)
        if big:
            npc[int(rng.integers(self.nhash))] = int(rng.integers(66000, 150000))
        cut = np.sort(rng.choice(np.arange(1, self.nhash), size=nfile - 1, replace=False)) if nfile > 1 else np.zeros(0, int)
        self.first = np.concatenate([[0], cut]).astype(int)
        self.last = np.concatenate([cut, [self.nhash]]).astype(int) - 1
        if positions and not big and npc.sum() > maxp * 10:
            npc = np.where(rng.random(self.nhash) < .1, npc, 0)
        self.npc = npc
        n = int(npc.sum())
        self.cell = np.repeat(np.arange(self.nhash), npc)
        self.n = n
        self.vel = rd(rng, "f4", n, 3)
        self.id = rng.permutation(np.unique(rng.integers(0, 2**34, size=n + 50 + n // 4)))[:n].astype("i8")
        if positions:
            nc = 2**bits
            g = {}
            for x in range(nc):
                for y in range(nc):
                    for z in range(nc):
                        g[ref_key(x, y, z, bits)] = (x, y, z)
            ijk = np.array([g[k] for k in range(self.nhash)]).reshape((-1, 3))
            u = rng.random((n, 3)) * .98 + .01
            self.pos = ((ijk[self.cell] + u) * (self.box / nc)).astype("f4")
            self.ijk = ijk
        else:
            self.pos = rd(rng, "f4", n, 3)
        self.headers = []
        for f in range(nfile):
            sel = (self.cell >= self.first[f]) & (self.cell <= self.last[f])
            cells = npc[self.first[f]:self.last[f] + 1]
            o = fmt.lg2_snapshot(rng, e, n=int(sel.sum()), first=int(self.first[f]), blockid=np.cumsum(cells) - cells, nfiles=nfile, nhash=self.nhash, total=n, box=self.box,
                                 cols=dict(Coordinates=self.pos[sel], Velocities=self.vel[sel], ParticleIDs=self.id[sel].view("u8")))
            o.write(fname(base, isnap, f, "snap", name))
            self.headers.append(o)
        self.infile = np.searchsorted(self.first, self.cell, side="right") - 1

    def cells_wanted(self, rng):
        """A choice of hash cells, and a word for it."""
        h = self.nhash
        m = ["none", "one", "all", "run", "runs", "random", "ends", "file", "boundary", "empty-cells", "with-particles"][int(rng.integers(11))]
        if m == "none":
            w = []
        elif m == "one":
            w = [int(rng.integers(h))]
        elif m == "all":
            w = range(h)
        elif m == "run":
            a = int(rng.integers(h))
            w = range(a, min(h, a + int(rng.integers(1, h + 1))))
        elif m == "runs":
            w = set()
            for _ in range(int(rng.integers(1, 6))):
                a = int(rng.integers(h))
                w.update(range(a, min(h, a + int(rng.integers(1, max(2, h // 8))))))
        elif m == "random":
            w = np.flatnonzero(rng.random(h) < rng.random())
        elif m == "ends":
            w = [0, h - 1] if rng.random() < .5 else [h - 1]
        elif m == "file":
            f = int(rng.integers(self.nfile))
            w = range(self.first[f], self.last[f] + 1)
        elif m == "boundary":
            f = int(rng.integers(self.nfile))
            w = {self.last[f], self.first[f], min(h - 1, self.last[f] + 1), max(0, self.first[f] - 1)}
        elif m == "empty-cells":
            w = np.flatnonzero(self.npc == 0)
        else:
            w = np.flatnonzero(self.npc > 0)
        return m, np.array(sorted(int(x) for x in w), dtype="i4")


def make_snap(c, rng, scratch, positions=True, e=None, bits=None, big=False):
    e = e or "<>"[int(rng.integers(2))]
    bits = bits or int(rng.choice([1, 1, 2, 2, 3]))
    nfile = min(8**bits, int(rng.choice([1, 2, 3, int(rng.integers(1, 14)), int(rng.integers(1, 120)) if rng.random() < .2 else 5])))
    base = os.path.join(scratch, "data")
    name = NAMES[int(rng.integers(len(NAMES)))]
    c.f("byte-order:" + e, "files:%s" % ("1" if nfile == 1 else "2-9" if nfile < 10 else "10-99" if nfile < 100 else "100+"))
    return Snap(rng, e, base, name, int(rng.choice([0, 12, 63, 127])), bits, nfile, positions, big=big)


def closes(x):
    """Did it stop because it closed a file which is not open?"""
    return x.key == "sanitizer" and "close_gadget" in x.text and "fclose" in x.text


def c_region(c, rng, tier, index, scratch, opts):
    s = make_snap(c, rng, scratch, positions=False)
    sc = Script(s.e)
    wanted, empty = [], []
    for _ in range(int(rng.integers(1, 5))):
        m, w = s.cells_wanted(rng)
        c.f("cells:" + m)
        if not np.isin(s.cell, w).any():
            if rng.random() < .3 and not empty:
                empty.append(w)
            continue
        wanted.append(w)
        sc.call("readregion", 8).file(s.base + " " * int(rng.integers(3)), s.name, s.isnap, 0).i(s.nhash, s.nfile, len(w)).raw(w)
    c.d(byte_order=s.e, files=s.nfile, cells=s.nhash, particles=s.n, wanted=[len(w) for w in wanted], empty=[len(w) for w in empty])
    c.go()
    for w in empty:
        # in a run of their own, because of the finding
        one = Script(s.e)
        one.call("readregion", 8).file(s.base, s.name, s.isnap, 0).i(s.nhash, s.nfile, len(w)).raw(w)
        c.n("empty_reads")
        try:
            r = one.run(os.path.join(opts["mill"][s.e], "driver"), scratch)
        except Bad as x:
            if not closes(x):
                raise
            c.soft("no-particles-closes", "readregion closes a file which is not open when no cell it reads has particles: %s" % x)
            continue
        r.next()
        r.same(np.zeros(8, "i4"), "number of particles")
        r.end()
    r = sc.run(os.path.join(opts["mill"][s.e], "driver"), scratch)
    for w in wanted:
        r.next()
        sel = np.isin(s.cell, w)
        n = int(sel.sum())
        r.same(np.array([n], "i4"), "number of particles")
        r.same(np.full(7, n, "i4"), "array sizes")
        for k, nm in enumerate("xyz"):
            r.same(np.ascontiguousarray(s.pos[sel, k]), nm)
        for k, nm in enumerate("xyz"):
            r.same(np.ascontiguousarray(s.vel[sel, k]), "v" + nm)
        r.same(s.id[sel], "ids")
        c.n("reads")
        c.n("particles", n)
        c.n("files_used", len(set(s.infile[sel].tolist())))
    r.end()


# -- example programs ---------------------------------------------------------
def rows(path, skip=0):
    expect(os.path.exists(path), "no output file", "output")
    t = open(path).read().split("\n")[skip:]
    return [x.split() for x in t if x.strip()]


def near(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.abs(b) + 1e-30))


def table(path, cols, skip, tol, what, digits=0):
    """Compares a file of numbers with columns (integer ones exactly)."""
    got = rows(path, skip)
    n = len(cols[0])
    expect(len(got) == n, "%s: %d lines instead of %d" % (what, len(got), n), "lines")
    expect(all(len(g) == len(cols) for g in got), "%s: wrong number of columns" % what, "columns")
    for i, col in enumerate(cols):
        g = [x[i] for x in got]
        col = np.asarray(col)
        if col.dtype.kind in "iu":
            ok = [int(x) for x in g] == [int(x) for x in col]
        else:
            ok = near([float(x) for x in g], col, tol)
        expect(ok, lambda: "%s: wrong values in column %d: %s instead of %s" % (what, i + 1, g[:5], list(col[:5])), "column")


def finish(rc, out, err, what):
    expect(rc == 0 and "Error" not in err and "rror:" not in out, "%s failed (exit code %s): %s" % (what, rc, (out + err)[-400:]), "failed")


def c_programs(c, rng, tier, index, scratch, opts):
    prog = ["region", "region", "fofgroups", "groups", "subhalos", "file"][int(rng.integers(6))]
    c.f("program:" + prog)
    e = "<>"[int(rng.integers(2))]
    d = opts["mill"][e]
    out = os.path.join(scratch, "out file.txt" if rng.random() < .3 else "out.txt")
    if prog == "subhalos":
        base = os.path.join(scratch, "data")
        isnap, ifile = int(rng.integers(0, 64)), int(rng.choice([0, 9, 10, 99, 100, 511]))
        n, ns = int(rng.integers(0, 60)), int(rng.integers(1, 80))
        cols = {}
        nsub = np.zeros(n, "i4")
        left = ns
        for i in rng.permutation(n):
            nsub[i] = min(left, int(rng.integers(0, 4)))
            left -= nsub[i]
        ns = max(1, int(nsub.sum()))
        cols["NsubPerHalo"] = nsub
        cols["FirstSubOfHalo"] = (np.cumsum(nsub) - nsub).astype("i4")
        f4 = lambda *s: (rng.lognormal(size=s) * 10.0).astype("f4") * np.where(rng.random(s) < .3, -1, 1).astype("f4")
        for k in ("Halo_M_Mean200", "Halo_R_Mean200"):
            cols[k] = np.abs(f4(n))
        cols["SubPos"] = f4(ns, 3)
        cols["SubHalfMass"] = np.abs(f4(ns))
        o = fmt.lg2_sub_tab(rng, e, 8, n=n, ns=ns, cols=cols)
        o.write(fname(base, isnap, ifile, "sub_tab"))
        out2 = out + "2"
        c.go()
        finish(*start([os.path.join(d, "readsubhalosexample")], scratch, "readsubhalosexample", ("%d\n%s\nsnap\n%d\n%s\n%s\n" % (ifile, base, isnap, out, out2)).encode()), "readsubhalosexample")
        D = o.dsets
        table(out2, [D["SubLen"].astype("i4"), D["SubHalfMass"]] + [D["SubPos"][:, k] for k in range(3)], 1, 3e-7, "subhalos")
        w = np.flatnonzero(nsub > 0)
        fs = cols["FirstSubOfHalo"][w]
        table(out, [D["Halo_M_Mean200"][w].astype(float) * 1e10, D["Halo_R_Mean200"][w]] + [D["SubPos"][fs, k] for k in range(3)], 1, 3e-7, "halos")
        c.n("rows", ns)
        return
    s = make_snap(c, rng, scratch, e=e)
    if prog == "file":
        f = int(rng.integers(s.nfile))
        c.go()
        finish(*start([os.path.join(d, "readfileexample")], scratch, "readfileexample", ("%s\n%s\n%d\n%d\n%s\n" % (s.base, s.name, s.isnap, f, out)).encode()), "readfileexample")
        sel = np.flatnonzero(s.infile == f)[::10]
        table(out, [s.id[sel]] + [s.pos[sel, k] for k in range(3)], 0, 6e-6, "particles")
        c.n("rows", len(sel))
        return
    if prog == "region":
        lo, hi = np.zeros(3), np.zeros(3)
        for k in range(3):
            a, b = np.sort(rng.uniform(-.1, 1.1, size=2)) * s.box
            if rng.random() < .2:
                a, b = 0.0, s.box
            elif s.n and rng.random() < .2:
                a, b = sorted(float(x) for x in s.pos[rng.integers(0, s.n, size=2), k])
            lo[k], hi[k] = a, b
        lo, hi = lo.astype("f4"), hi.astype("f4")
        # limits of the file's accuracy in text
        tx = "".join("%.9g,%.9g\n" % (lo[k], hi[k]) for k in range(3))
        lo, hi = [np.array([np.float32("%.9g" % x) for x in q], "f4") for q in (lo, hi)]
        inside = np.all((s.pos >= lo) & (s.pos <= hi), axis=1)
        c.go()
        try:
            res = start([os.path.join(d, "readregionexample")], scratch, "readregionexample",
                        (tx + "%r\n%s\n%s\n%d\n%d\n%d\n%s\n" % (s.box, s.base, s.name, s.isnap, s.nhash, s.nfile, out)).encode())
        except Bad as x:
            if inside.any() or not closes(x):
                raise
            c.soft("no-particles-closes", "readregionexample closes a file which is not open when no cell it reads has particles: %s" % x)
            c.f("empty-region")
            return
        finish(*res, "readregionexample")
        table(out, [s.pos[inside, k] for k in range(3)], 0, 6e-6, "particles in the region")
        c.n("rows", int(inside.sum()))
        return
    # groups: some particles belong to groups of this file of the catalogue, by their ID with the hash key in the upper bits
    ifile = int(rng.integers(s.nfile))
    m = int(rng.integers(0, min(s.n, 200) + 1))
    if s.n == 0:
        m = 0
    w = rng.permutation(s.n)[:m]
    if rng.random() < .3:
        w = np.sort(w)
    ids = s.id[w] | (s.cell[w].astype("i8") << 34)
    cuts = np.sort(rng.integers(0, m + 1, size=int(rng.integers(0, 8))))
    if prog == "fofgroups":
        b = np.concatenate([[0], cuts, [m]]).astype(int)
        ln, off = np.diff(b), b[:-1]
        o = fmt.lg2_group_tab(rng, e, n=len(ln), cols=dict(GroupLen=ln, GroupOffset=off))
        o.write(fname(s.base, s.isnap, ifile, "group_tab"))
        num = np.repeat(np.arange(len(ln)), ln)
        ngroups = len(ln)
        which = w
        first = [num]
    else:
        b = np.concatenate([[0], cuts, [m]]).astype(int)
        ln, off = np.diff(b), b[:-1]
        keep = rng.random(len(ln)) < .8
        ln, off = ln[keep], off[keep]
        par = np.sort(rng.integers(0, 20, size=len(ln)))
        o = fmt.lg2_sub_tab(rng, e, 8, n=20, ns=len(ln), cols=dict(SubLen=ln, SubOffset=off, SubParentHalo=par))
        o.write(fname(s.base, s.isnap, ifile, "sub_tab"))
        ngroups = 20
        which = np.concatenate([w[a:a + l] for a, l in zip(off, ln)] + [np.zeros(0, int)]).astype(int)
        first = [np.repeat(np.arange(len(ln)), ln), np.repeat(par, ln)]
    o = Out(e)
    for k in range(4):
        o.a("h%d" % k, [ngroups, m, 5, s.nfile][k], "i4")
    o.d("ids", ids, "i8")
    o.write(fname(s.base, s.isnap, ifile, "sub_ids"))
    if prog == "fofgroups":
        name = "readfofgroupsexample"
        tx = "%d\n%s\n%s\n%d\n%s\n" % (ifile, s.base, s.name, s.isnap, out)
    else:
        name = "readgroupsexample"
        tx = "%d\n%s\n%s\n%d\n%d\n%d\n%s\n" % (ifile, s.base, s.name, s.isnap, s.nhash, s.nfile, out)
    # the tables of groups give the number of files, too
    for kind in ("group_tab", "sub_tab"):
        p = fname(s.base, s.isnap, ifile, kind)
        if os.path.exists(p):
            x = bytearray(open(p, "rb").read())
            x[12:16] = np.array(s.nfile, "i4").astype(e + "i4").tobytes()
            open(p, "wb").write(x)
    c.d(program=name, particles=s.n, grouped=m, files=s.nfile)
    c.go()
    try:
        res = start([os.path.join(d, name)], scratch, name, tx.encode())
    except Bad as x:
        if len(which) or not closes(x):
            raise
        c.soft("no-particles-closes", "%s closes a file which is not open when there are no particles to read: %s" % (name, x))
        return
    finish(*res, name)
    table(out, [np.asarray(x, int) for x in first] + [s.pos[which, k] for k in range(3)], 0, 6e-6, "particles in groups")
    c.n("rows", len(which))
    c.n("grouped", len(which))


# -- sorting and keys ---------------------------------------------------------
SORTS = ["r4", "r8", "i4", "i8", "ch"]


def c_sort(c, rng, tier, index, scratch, opts):
    e = "<>"[int(rng.integers(2))]
    sc = Script(e)
    todo = []
    for _ in range(int(rng.integers(4, 12))):
        if rng.random() < .3:
            bits = int(rng.integers(1, 11))
            xyz = [int(x) for x in rng.integers(0, 2**bits, size=3)]
            if rng.random() < .5:
                sc.call("peano_hilbert_key", 11).i(bits, *xyz)
                todo.append(("key", bits, xyz))
            else:
                k = ref_key(*xyz, bits)
                sc.call("peano_hilbert_key_inverse", 12).i(bits, k)
                todo.append(("inverse", bits, xyz))
            continue
        t, kind = int(rng.integers(5)), int(rng.choice([4, 8]))
        n = int(rng.choice([0, 1, 2, 3, 5, 99, 100, 101, int(rng.integers(0, 99)), int(rng.integers(100, 400)), int(rng.integers(100, 3000))]))
        slen = int(rng.integers(1, 9))
        step = int(rng.choice([1, 1, 1, 2]))
        few = rng.random() < .4
        tt = SORTS[t]
        if tt == "ch":
            al = np.frombuffer(b"ab" if few else b"abcXYZ 0189_", dtype="u1")
            a = al[rng.integers(0, len(al), size=(n * step, slen))].astype("u1")
        elif tt[0] == "i":
            dt = tt
            ii = np.iinfo(dt)
            a = rng.integers(-3, 4, size=n * step).astype(dt) if few else rng.integers(ii.min, ii.max, size=n * step, dtype=dt, endpoint=True)
        else:
            dt = "f" + tt[1]
            a = (rng.normal(size=n * step) * 10.0 ** rng.integers(-20, 20, size=n * step)).astype(dt)
            if few:
                a = np.round(rng.normal(size=n * step)).astype(dt)
            a[rng.random(n * step) < .02] = np.inf
        how = int(rng.integers(4))
        if how == 1 and tt != "ch":
            a = np.sort(a)
        elif how == 2 and tt != "ch":
            a = np.sort(a)[::-1].copy()
        c.f("sort:%s:%d" % (tt, kind), "size:%s" % ("0" if n == 0 else "1" if n == 1 else "small" if n < 100 else "large"))
        if step == 2:
            c.f("section")
        sc.call("sort_index (%s, %d elements, index of %d bytes)" % (tt, n, kind), 13).i(t, kind, slen, n, step).raw(a)
        todo.append(("sort", tt, kind, slen, n, step, a))
    c.d(byte_order=e, calls=[t[:2] for t in todo])
    c.go()
    r = sc.run(os.path.join(opts["mill"][e], "driver"), scratch)
    for t in todo:
        r.next()
        if t[0] == "key":
            k = int(r.get("i4", 1)[0])
            expect(k == ref_key(*t[2], t[1]), "key of cell %s with %d bits is %d instead of %d" % (t[2], t[1], k, ref_key(*t[2], t[1])), "key")
            c.n("keys")
        elif t[0] == "inverse":
            x = r.get("i4", 3).tolist()
            expect(x == t[2], "cell of the key of %s with %d bits is %s" % (t[2], t[1], x), "inverse")
            c.n("keys")
        else:
            _, tt, kind, slen, n, step, a = t
            b = r.get(a.dtype, a.size)
            expect(b.tobytes() == a.tobytes(), "%s changed the array" % r.what, "changed")
            idx = r.get("i%d" % kind, n * step)
            expect(np.all(idx.reshape((n, step))[:, 1:] == -7), "%s wrote beside the index" % r.what, "beside")
            idx = idx[::step]
            expect(np.array_equal(np.sort(idx), np.arange(1, n + 1)), lambda: "%s: the index is no permutation: %s" % (r.what, short(idx)), "permutation")
            if tt == "ch":
                v = [bytes(x) for x in a.reshape((n * step, slen))[::step]]
                v = [v[int(i) - 1].rstrip(b" ") for i in idx]
                # the language compares strings as if padded with blanks
                ok = all(x.ljust(slen) <= y.ljust(slen) for x, y in zip(v, v[1:]))
            else:
                v = a[::step][idx.astype(int) - 1]
                ok = bool(np.all(v[1:] >= v[:-1]))
            expect(ok, "%s: the order is wrong" % r.what, "order")
            c.n("sorts")
            c.n("sorted_elements", n)
    r.end()


# -- readers of single files ----------------------------------------------------
def floats(rng, *s):
    a = (rng.normal(size=s) * 10.0 ** rng.integers(-6, 7, size=s)).astype("f4")
    return a


def c_readers(c, rng, tier, index, scratch, opts):
    which = ["m2c", "m2f", "mr7c", "mr7f"][int(rng.integers(4))]
    n = int(rng.choice([0, 1, 2, int(rng.integers(0, 50)), int(rng.integers(0, 2000))]))
    c.f("reader:" + which, "empty" if n == 0 else "some")
    path = os.path.join(scratch, "snap_%03d.%d" % (int(rng.integers(100)), int(rng.integers(512))))
    if rng.random() < .3:
        path = os.path.join(scratch, "x" * int(rng.integers(1, 100)), "y" * int(rng.integers(1, 100)))
        os.makedirs(os.path.dirname(path), exist_ok=True)
    pos, vel = floats(rng, n, 3), floats(rng, n, 3)
    ids = rng.integers(0, 10**15, size=n).astype("u8")
    box = round(float(rng.uniform(1, 1000)), 3)
    if which.startswith("m2"):
        npart = [0, n, 0, 0, 0, 0]
        tot = int(rng.choice([n, 10**10, 2**31, 2**32 - 1, 2**32, 3 * 10**12, 2**32 + 2**31, int(rng.integers(1, 2**40))]))
        o = Out("<")
        o.begin()
        o.raw(npart, "i4")
        o.raw(rd(rng, "f8", 6), "f8")
        o.raw(rng.random(2), "f8")
        o.raw([0, 0], "i4")
        o.raw([0, tot & 0xffffffff, 0, 0, 0, 0], "u4")
        o.raw([0, 512], "i4")
        o.raw([box, .25, .75, .73], "f8")
        o.raw([0, 0], "i4")
        o.raw([0, tot >> 32, 0, 0, 0, 0], "u4")
        o.raw(rd(rng, "u1", 64), "u1")
        o.end()
        for x, t in ((pos, "f4"), (vel, "f4"), (ids, "u8")):
            o.begin()
            o.raw(x, t)
            o.end()
        # fields which some files have and these programs need not
        if rng.random() < .5:
            o.begin()
            o.raw(rd(rng, "f4", n), "f4")
            o.end()
        o.write(path)
    else:
        import h5py
        big = rng.random() < .3
        with h5py.File(path, "w") as f:
            h = f.create_group("Header")
            t = "u4" if which == "mr7c" and rng.random() < .5 else "i4"
            h.attrs["NumPart_ThisFile"] = np.array([0, n, 0, 0, 0, 0], (">" if big else "<") + t)
            h.attrs["BoxSize"] = box
            for nm, x in (("Coordinates", pos), ("Velocities", vel), ("ParticleIDs", ids)):
                kw = dict(compression="gzip", shuffle=True) if rng.random() < .3 and n > 0 else {}
                f.create_dataset("PartType1/" + nm, data=x if nm != "ParticleIDs" or rng.random() < .5 else x.astype("i8"), dtype=None if not big else x.dtype.newbyteorder(">"), **kw)
        c.f("big-endian" if big else "little-endian")
    c.d(reader=which, particles=n)
    c.go()
    rc, out, err = start([opts["readers"][which], path], scratch, which)
    finish(rc, out, err, which)
    lines = out.split("\n")
    at = [i for i, x in enumerate(lines) if "vx" in x]
    expect(len(at) == 1, "%s printed no heading" % which, "heading")
    got = [x.replace(",", " ").split() for x in lines[at[0] + 1:] if x.strip()]
    expect(len(got) == n and all(len(g) == 7 for g in got), "%s printed %d lines of particles instead of %d" % (which, len(got), n), "lines")
    for k, col in enumerate([pos[:, 0], pos[:, 1], pos[:, 2], vel[:, 0], vel[:, 1], vel[:, 2]]):
        expect(near([float(g[k]) for g in got], col, 6e-6), lambda: "%s printed wrong values in column %d" % (which, k + 1), "column")
    expect([int(g[6]) for g in got] == [int(x) for x in ids], "%s printed wrong IDs" % which, "ids")
    head = "\n".join(lines[:at[0]])
    import re
    if "ox size" in head:
        v = float(re.search(r"ox size =\s*([-+.\dEe]+)", head).group(1))
        expect(abs(v - box) <= 2e-6 * box + 1e-6, "%s printed box size %r instead of %r" % (which, v, box), "box")
    if which == "m2f":
        v = int(re.search(r"particles =\s*(\d+)", head).group(1))
        expect(v == tot, "%s printed a total of %d particles instead of %d" % (which, v, tot), "total")
    elif which in ("m2c", "mr7c"):
        v = int(re.search(r"(?:in this file|to read) =\s*(\d+)", head).group(1))
        expect(v == n, "%s printed %d particles instead of %d" % (which, v, n), "number")
    c.n("files_read")
    c.n("particles", n)


# -- the library for IDL --------------------------------------------------------
def wrap(x, box):
    return x - box * np.floor(x / box + .5)


def c_grouplib(c, rng, tier, index, scratch, opts):
    bits = int(rng.choice([1, 2, 2, 3, 3, 4]))
    big = rng.random() < .03
    s = make_snap(c, rng, scratch, e="<", bits=bits, big=big)
    if s.n > 1500:
        c.f("large" if s.n < 65536 else "very-large")
    d = os.path.dirname(fname(s.base, s.isnap, 0, "snap"))
    nf = int(rng.integers(1, 6))
    minlen = int(rng.integers(0, 21))
    tabs, perm, at = [], rng.permutation(s.n), 0
    for f in range(nf):
        ng = int(rng.choice([0, 1, int(rng.integers(0, 12))]))
        ln = []
        for _ in range(ng):
            k = int(min(s.n - at, rng.choice([1, 2, int(rng.integers(1, 40)), int(rng.integers(1, 200))])))
            if k > 0:
                ln.append(k)
                at += k
        tabs.append(ln)
    tot = sum(len(t) for t in tabs)
    at, groups, counts, nids = 0, [], np.zeros(minlen, "i8"), 0
    for f in range(nf):
        ln = np.array(tabs[f], "i4")
        # particles which are in no group may lie between the groups of a file
        gap = rng.integers(0, 3, size=len(ln)) if rng.random() < .3 and s.n else np.zeros(len(ln), int)
        off, ids, x = [], [], 0
        for k, g in zip(ln, gap):
            ids.append(rng.choice(s.n, size=int(g)) if g else np.zeros(0, int))
            x += len(ids[-1])
            off.append(x)
            ids.append(perm[at:at + k])
            groups.append((int(k), f, len(off) - 1, perm[at:at + k]))
            at += k
            x += int(k)
        ids = np.concatenate(ids + [np.zeros(0, int)]).astype(int)
        cnt = rng.integers(0, 1000 if rng.random() < .8 else 2**31, size=minlen)
        counts = counts + cnt
        nids += len(ids)
        o = Out("<")
        for k, v in enumerate([len(ln), len(ids), tot, nf]):
            o.a("h%d" % k, v, "i4")
        o.d("len", ln, "i4")
        o.d("off", np.array(off, "i4"), "i4")
        o.a("min", minlen, "i4")
        o.d("count", cnt, "i4")
        o.write(fname(s.base, s.isnap, f, "group_tab"))
        o = Out("<")
        for k, v in enumerate([len(ln), len(ids), tot, nf]):
            o.a("h%d" % k, v, "i4")
        o.d("ids", (s.id[ids] | (s.cell[ids].astype("i8") << 34)), "i8")
        o.write(fname(s.base, s.isnap, f, "group_ids"))
    sc = Script("<")
    sc.call("start", 0).s(d).s(s.name).i(s.isnap)
    sc.call("get_total_number_of_groups", 1)
    sc.call("get_minimum_group_len", 2)
    sc.call("get_groupcount_below_minimum_len", 3).i(minlen)
    sc.call("get_group_catalogue", 4).i(tot)
    sc.call("get_hash_table_size", 5)
    sc.call("get_hash_table", 6)
    todo = []
    base = 2**bits
    size = s.box / base
    for _ in range(int(rng.integers(1, 8))):
        k = ["cubes", "group", "group", "sphere", "sphere", "tables", "key"][int(rng.integers(7))]
        if k == "group" and not groups or k == "sphere" and (bits == 1 or big):
            continue
        c.f("call:" + k)
        if k == "cubes":
            n = 2**int(rng.integers(0, 3 * bits + 1))
            sc.call("get_particles_in_cubes", 7).i(n)
            todo.append((k, n))
        elif k == "group":
            g = groups[int(rng.integers(len(groups)))]
            sc.call("get_group_coordinates", 8).i(g[2], g[1], g[0])
            todo.append((k, g))
        elif k == "sphere":
            x = (rng.random(3) * s.box).astype("f4")
            if rng.random() < .2:
                x[int(rng.integers(3))] = 0
            x = np.minimum(x, np.nextafter(np.float32(s.box), np.float32(0)))
            most = base // 2 - 1 if base % 2 == 0 else base // 2
            r = np.float32(rng.random() * .99 * most * size)
            # the number of cells to either side is the radius in cells, rounded up, and the cells must fit in the box once
            sc.call("get_spherical_region", 9).raw(np.array([*x, r], "f4"))
            todo.append((k, x, r))
        elif k == "tables":
            sc.call("the tables", 10)
            todo.append((k,))
        else:
            b = int(rng.integers(1, 11))
            xyz = [int(q) for q in rng.integers(0, 2**b, size=3)]
            sc.call("peano_hilbert_key", 11).i(b, *xyz)
            sc.call("peano_hilbert_key_inverse", 12).i(b, ref_key(*xyz, b))
            todo.append((k, b, xyz))
    sc.call("the tables", 10)
    todo.append(("tables",))
    c.d(particles=s.n, cells=s.nhash, files=s.nfile, catalogue_files=nf, groups=tot, calls=[t[0] for t in todo])
    c.go()
    r = sc.run(opts["grouplib"], scratch)
    r.next()
    r.next()
    r.same(np.array([tot], "i4"), "number of groups")
    r.next()
    r.same(np.array([minlen], "i4"), "minimum length")
    r.next()
    r.same(np.array([minlen], "i4"), "minimum length")
    r.same(counts.astype("f8"), "counts")
    r.same(np.array([nids], "f8"), "number of ids")
    r.next()
    r.same(np.array([tot], "i4"), "number of groups")
    cat = np.stack([r.get("i4", tot) for _ in range(3)], axis=1).reshape((-1, 3))
    want = np.array([g[:3] for g in groups], "i4").reshape((-1, 3))
    expect(np.all(np.diff(cat[:, 0]) <= 0), lambda: "get_group_catalogue: not in order of length: %s" % short(cat[:, 0]), "order")
    expect(sorted(map(tuple, cat.tolist())) == sorted(map(tuple, want.tolist())), "get_group_catalogue: not the groups of the files", "groups")
    r.next()
    r.same(np.array([s.nhash, s.nfile], "i4"), "sizes of the tables")
    start_ = np.cumsum(s.npc) - s.npc
    filetab = (np.searchsorted(s.first, np.arange(s.nhash), side="right") - 1).astype("i4")
    hashtab = (start_ - start_[s.first][filetab]).astype("i4")
    ninf = np.bincount(s.infile, minlength=s.nfile).astype("i4")

    def tables():
        r.same(hashtab, "hash table")
        r.same(filetab, "table of files")
        r.same(s.last.astype("i4"), "last cells")
        r.same(ninf, "numbers of particles in files")
    r.next()
    r.same(np.array([0], "i4"), "result")
    tables()
    for t in todo:
        r.next()
        if t[0] == "cubes":
            r.same(np.array([0], "i4"), "result")
            r.same(s.npc.reshape((t[1], -1)).sum(axis=1).astype("i4"), "numbers of particles in cubes")
            c.n("cubes")
        elif t[0] == "tables":
            tables()
        elif t[0] == "key":
            r.same(np.array([ref_key(*t[2], t[1])], "i4"), "key")
            r.next()
            r.same(np.array(t[2], "i4"), "cell")
            c.n("keys")
        elif t[0] == "group":
            n, _, _, w = t[1]
            r.same(np.array([0], "i4"), "result")
            p = r.get("f4", 3 * n).reshape((n, 3)).astype("f8")
            x0 = r.get("f4", 3).astype("f8")
            w = w[np.argsort(s.id[w])]
            true = s.pos[w].astype("f8")
            expect(np.all((x0 >= 0) & (x0 <= s.box)), "get_group_coordinates: the centre %s is outside the box" % x0, "centre")
            expect(np.all(np.abs(wrap(p + x0 - true, s.box)) < 3e-6 * s.box), "get_group_coordinates: wrong coordinates of a group of %d particles" % n, "coordinates")
            rel = wrap(true - true[0], s.box)
            if np.all(np.abs(np.abs(rel) - s.box / 2) > 1e-5 * s.box):
                expect(np.all(np.abs(wrap(true[0] + rel.mean(axis=0) - x0, s.box)) < 3e-6 * s.box), "get_group_coordinates: wrong centre", "centre")
                expect(np.all(np.abs(p - (rel - rel.mean(axis=0))) < 3e-6 * s.box), "get_group_coordinates: coordinates are not relative to the centre", "relative")
            c.n("groups")
            c.n("grouped", n)
        else:
            x, rad = t[1].astype("f8"), float(t[2])
            n, res = r.get("i4", 2).tolist()
            expect(res == 0 and n >= 0, "get_spherical_region_coordinates failed", "result")
            p = r.get("f4", 3 * n).reshape((n, 3)).astype("f8")
            dist = np.sqrt((wrap(s.pos.astype("f8") - x, s.box)**2).sum(axis=1))
            inside = np.flatnonzero(dist < rad * (1 - 1e-5))
            expect(n <= s.n and len(inside) <= n, "get_spherical_region_count: %d particles, of %d inside and %d in all" % (n, len(inside), s.n), "count")
            # each particle returned is one of the snapshot's, and none is there twice
            if n:
                which = np.array([int(np.argmin(np.abs(wrap(q + x - s.pos, s.box)).max(axis=1))) for q in p])
                err = np.abs(wrap(p + x - s.pos[which], s.box)).max()
                expect(err < 3e-6 * s.box, "get_spherical_region_coordinates: coordinates which no particle has", "coordinates")
                expect(np.abs(p).max() <= s.box * .500001, "get_spherical_region_coordinates: not the nearest image", "image")
                dup = len(which) - len(set(which.tolist()))
                near_ = s.n - len(np.unique(np.round(s.pos / (s.box * 1e-4)), axis=0))
                expect(dup <= near_, "get_spherical_region_coordinates: %d particles more than once" % dup, "twice")
                if dup == 0:
                    expect(set(inside.tolist()) <= set(which.tolist()), "get_spherical_region_coordinates: particles in the sphere are missing", "missing")
            c.n("spheres")
            c.n("in_spheres", len(inside))
    r.end()
