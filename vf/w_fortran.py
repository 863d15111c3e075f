"""
The Fortran HDF5 wrapper: random histories of calls on a few files, carried out by a driver built with sanitizers, against a
model and the files as h5py sees them. opts["exe"]: the driver; opts["variant"]: data | part | attr | files
"""
import os, struct, subprocess
import numpy as np
from vf.serialworker import expect, Bad
from vf.fdriver import TYPES

NP = dict(i4="i4", i8="i8", r4="f4", r8="f8")
RO = "readonly"


class Dset:
    def __init__(self, t, slen, shape, ext, gzip=None):
        self.t, self.slen, self.ext, self.gzip = t, slen, ext, gzip
        self.data = np.zeros(shape, dtype=self.dtype())
        if t == "ch":
            self.data[...] = b""
        self.known = np.zeros(shape, dtype=bool)     # elements which were written: HDF5 leaves others as they happen to be
        self.attrs = {}

    def dtype(self):
        return np.dtype("S%d" % self.slen) if self.t == "ch" else np.dtype(NP[self.t])


class File:
    def __init__(self, path):
        self.path = path
        self.d = {}                      # canonical path -> Dset
        self.g = {"": {}}                # groups: canonical path -> attributes


def canon(name):
    return name.strip("/")


def values(rng, t, slen, shape):
    n = int(np.prod(shape, dtype=int))
    if t == "ch":
        al = np.frombuffer(b"abcXYZ 0129_-", dtype="u1")
        x = al[rng.integers(0, len(al), size=(n, slen))].astype("u1")
        return np.frombuffer(x.tobytes(), dtype="S%d" % slen).reshape(shape) if n else np.zeros(shape, "S%d" % slen)
    dt = np.dtype(NP[t])
    if dt.kind == "i":
        i = np.iinfo(dt)
        x = rng.integers(i.min, i.max, size=n, dtype=dt, endpoint=True)
    else:
        x = (rng.normal(size=n) * 10.0 ** rng.integers(-20, 20, size=n)).astype(dt)
        x[rng.random(n) < .02] = np.inf
    return x.reshape(shape)


def raw(a, t, slen):
    """Bytes of an array as Fortran has it (column-major, strings padded with blanks)."""
    a = np.asarray(a)
    if t != "ch":
        return a.tobytes(order="F")
    f = a.ravel(order="F")
    return b"".join(bytes(x).ljust(slen) for x in f)


def unraw(b, t, slen, shape):
    if t != "ch":
        return np.frombuffer(b, dtype=NP[t]).reshape(shape, order="F")
    return np.array([b[i:i + slen].replace(b"\0", b" ").rstrip() for i in range(0, len(b), slen)] or [], dtype="S%d" % max(slen, 1)).reshape(shape, order="F")


def norm(a):
    a = np.asarray(a)
    if a.dtype.kind == "S":
        return np.array([bytes(x).replace(b"\0", b" ").rstrip() for x in a.ravel()], dtype=object).reshape(a.shape)
    return a


def eq(a, b):
    a, b = norm(a), norm(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object:
        return bool(np.all(a == b)) if a.size else True
    return a.dtype.kind == b.dtype.kind and a.astype(a.dtype.newbyteorder("=")).tobytes() == b.astype(a.dtype.newbyteorder("=")).tobytes()


class Script:
    def __init__(self):
        self.b = b""

    def i(self, *x):
        self.b += struct.pack("<%di" % len(x), *x)
        return self

    def s(self, x):
        x = x.encode()
        self.i(len(x))
        self.b += x
        return self

    def opt(self, x):
        return self.i(-999 if x is None else x)

    def log(self, x):
        return self.i(-1 if x is None else int(x))

    def arr(self, x):
        return self.i(-1) if x is None else self.i(len(x), *[int(k) for k in x])


def layout(rng, d, plain):
    """Dimensions of the array behind a section of dimensions d, with offsets and steps (from 1)."""
    b, o, s = list(d), [1] * len(d), [1] * len(d)
    if not plain:
        for k in range(len(d)):
            if rng.random() < .5 and np.prod(b) < 3000:
                s[k] = int(rng.choice([1, 1, 2, 3]))
                o[k] = int(rng.integers(1, 4))
                b[k] = max(o[k] + (d[k] - 1) * s[k], o[k] - s[k], 1) + int(rng.integers(0, 3))
    return b, o, s


def section(b, o, s, d):
    return tuple(slice(o[k] - 1, o[k] - 1 + d[k] * s[k], s[k]) if d[k] else slice(0, 0) for k in range(len(d)))


def where(d, count):
    """Part of an array of dimensions d which corresponds to a selection of the given counts, with the shape to give to it."""
    if len(d) == len(count) and all(x >= y for x, y in zip(d, count)):
        return tuple(slice(0, y) for y in count)
    cs = [y for y in count if y != 1]
    out, k = [], 0
    for x in d:
        if x == 1:
            out.append(slice(0, 1))
        else:
            out.append(slice(0, cs[k]))
            k += 1
    return tuple(out)


def memshape(rng, count, r=None):
    """Dimensions of an array which can hold a selection."""
    u = rng.random()
    if u < .35:
        return list(count)
    if u < .65:                                     # larger
        return [int(x + rng.integers(0, 4)) for x in count]
    if 0 in count:
        return list(count)
    d = [int(x + rng.integers(0, 3)) for x in count if x != 1]      # dimensions of one left out
    while len(d) < 7 and rng.random() < .3:
        d.insert(int(rng.integers(0, len(d) + 1)), 1)
    return d


class Hist:
    def __init__(self, rng, scratch, c, variant):
        self.rng, self.dir, self.c, self.variant = rng, scratch, c, variant
        self.sc = Script()
        self.checks = []                # (what, reader of the output)
        self.files = []                 # File
        self.open = {}                  # slot -> (File, readonly)
        self.ops = []
        self.ended = False
        self.last = None                # name, spelling and file of the last read

    def note(self, **k):
        self.ops.append(k)

    # -- pieces ----------------------------------------------------------
    def dims(self, r, zero=False, most=400):
        for _ in range(50):
            d = [int(x) for x in self.rng.integers(1, [60, 60, 12, 7, 5, 4, 3, 3][r] + 1, size=r)]
            for k in range(r):
                if self.rng.random() < .15:
                    d[k] = 1
            if np.prod(d, dtype=int) <= most:
                break
        if zero and r and self.rng.random() < .06:
            d[int(self.rng.integers(r))] = 0
        return d

    def rank(self):
        return int(self.rng.choice(8, p=[.12, .22, .2, .14, .1, .08, .07, .07]))

    def ctype(self):
        t = ["i4", "i8", "r4", "r8", "ch"][int(self.rng.integers(5))]
        return t, (int(self.rng.integers(1, 13)) if t == "ch" else 0)

    def name(self, f, new=True):
        rng = self.rng
        if not new:
            return sorted(f.d)[int(rng.integers(len(f.d)))]
        others = sorted({p for g, _ in self.open.values() if g is not f for p in g.d if p not in f.d and p not in f.g
                         and not any("/".join(p.split("/")[:k]) in f.d for k in range(1, p.count("/") + 1))})
        if others and rng.random() < .6:
            return others[int(rng.integers(len(others)))]
        for _ in range(30):
            depth = int(rng.choice([0, 0, 1, 2, 3]))
            p = "/".join(["G%d" % rng.integers(3) for _ in range(depth)] + ["d%d" % rng.integers(40)])
            if p not in f.d and p not in f.g:
                return p
        return "x%d" % len(f.d)

    def spell(self, name):
        return ("/" if self.rng.random() < .4 else "") + name

    def pick(self, write=False, have=False):
        o = [h for h, (f, ro) in self.open.items() if not (write and ro) and not (have and not f.d)]
        return o[int(self.rng.integers(len(o)))] if o else None

    def out(self, what, fn):
        self.checks.append((what, fn))

    def plain(self, what):
        self.out(what, lambda rd: rd.ok())

    # -- operations -------------------------------------------------------
    def create(self):
        if len(self.open) >= 4:
            return
        p = os.path.join(self.dir, "f%d.hdf5" % int(self.rng.integers(5)))
        if any(f.path == p for f, _ in self.open.values()):
            return
        f = File(p)
        self.files = [x for x in self.files if x.path != p] + [f]
        h = min(set(range(1, 9)) - set(self.open))
        self.open[h] = (f, False)
        self.sc.i(1, h).s(p)
        self.note(op="create", file=os.path.basename(p))
        self.handle(h, "create")

    def handle(self, h, what):
        live = dict(self.open)
        self.out(what, lambda rd: rd.handle(h, live))

    def reopen(self):
        if len(self.open) >= 4:
            return
        c = [f for f in self.files if not any(g.path == f.path for g, _ in self.open.values())]
        if not c:
            return self.create()
        f = c[int(self.rng.integers(len(c)))]
        ro = [None, False, True][int(self.rng.integers(3))]
        h = min(set(range(1, 9)) - set(self.open))
        self.open[h] = (f, bool(ro))
        self.sc.i(2, h).s(f.path).log(ro)
        self.note(op="open", file=os.path.basename(f.path), readonly=ro)
        self.handle(h, "open")

    def close(self, h=None):
        if h is None:
            h = self.pick()
        if h is None:
            return
        self.sc.i(3, h)
        self.note(op="close", file=os.path.basename(self.open[h][0].path))
        del self.open[h]
        self.plain("close")

    def groups_for(self, f, p):
        q = p.split("/")[:-1]
        for k in range(1, len(q) + 1):
            f.g.setdefault("/".join(q[:k]), {})

    def data_args(self, cmd, h, name, t, slen, d, a):
        """Array argument: a (dimensions d) in some layout. Returns what is needed to read it back."""
        r = len(d)
        plain = self.rng.random() < .5
        b, o, s = layout(self.rng, d, plain)
        back = values(self.rng, t, slen, b).copy()
        sec = section(b, o, s, d)
        if r:
            back[sec] = a if a is not None else back[sec]
        elif a is not None:
            back[...] = a
        self.sc.i(cmd, h).s(name).i([x for x, _ in TYPES].index(t), r, slen)
        if r:
            self.sc.i(*d).i(*b).i(*o).i(*s)
        self.sc.b += raw(back, t, slen)
        self.c.f("layout:" + ("plain" if b == list(d) else "section"), "type:" + t, "rank:%d" % r)
        return back, sec

    def write_new(self, over=False):
        rng = self.rng
        h = self.pick(write=True, have=over)
        if h is None:
            return
        f = self.open[h][0]
        name = self.name(f, new=not over)
        t, slen = self.ctype()
        r = self.rank()
        part = self.variant == "part" and r and rng.random() < .6
        ext = [None, False, True][int(rng.choice(3, p=[.5, .1, .4]))] if r and self.variant in ("part", "data") else None
        gz = int(rng.integers(0, 20)) if r and rng.random() < .3 else None
        if gz is not None and gz % 10 == 0:
            gz += 1
        shape = self.dims(r, zero=not ext and gz is None and not part)
        cs = [int(x) for x in rng.integers(1, 9, size=r)] if r and rng.random() < .25 else None
        st = ct = init = None
        if part:
            ct = [int(rng.integers(1, x + 1)) for x in shape]
            st = [int(rng.integers(1, x - y + 2)) for x, y in zip(shape, ct)]
            if rng.random() < .5:
                init = shape
            else:
                shape = [x + y - 1 for x, y in zip(st, ct)]
            d = memshape(rng, ct)
        else:
            d = shape
            if rng.random() < .1 and r:
                st, ct = [1] * r, list(shape)
        if part and len(d) != r:
            # a new dataset has the rank of the array
            d = [int(x + rng.integers(0, 3)) for x in ct]
        a = values(rng, t, slen, d)
        self.data_args(4, h, self.spell(name), t, slen, d, a)
        ov = True if over else (None if rng.random() < .7 else bool(rng.integers(2)))
        self.sc.opt(gz).log(ov).log(ext).arr(st).arr(ct).arr(init).arr(cs)
        ds = Dset(t, slen, shape, bool(ext), gz)
        if part:
            ds.data[tuple(slice(x - 1, x - 1 + y) for x, y in zip(st, ct))] = a[where(d, ct)].reshape(ct, order="F")
            ds.known[tuple(slice(x - 1, x - 1 + y) for x, y in zip(st, ct))] = True
        else:
            ds.data[...] = a
            ds.known[...] = True
        f.d[name] = ds
        self.groups_for(f, name)
        self.note(op="write", file=os.path.basename(f.path), name=name, type=t, shape=shape, start=st, count=ct, initial=init, gzip=gz, extensible=ext, overwrite=ov)
        self.plain("write")
        self.c.n("overwrites" if over else "writes")

    def write_part(self):
        rng = self.rng
        h = self.pick(write=True, have=True)
        if h is None:
            return
        f = self.open[h][0]
        name = self.name(f, new=False)
        ds = f.d[name]
        sh = ds.data.shape
        if 0 in sh:
            return
        grow = ds.ext and rng.random() < .6 and ds.data.size < 2000
        st, ct = [], []
        for x in sh:
            b = int(rng.integers(1, x + 1 + (3 if grow else 0)))
            top = x + (4 if grow else 0)
            st.append(b)
            ct.append(int(rng.integers(1, max(top - b, 0) + 2)))
        if not grow:
            ct = [min(y, x - b + 1) for x, b, y in zip(sh, st, ct)]
        d = memshape(rng, ct)
        slen = int(rng.integers(1, ds.slen + 1)) if ds.t == "ch" else 0
        a = values(rng, ds.t, slen, d)
        self.data_args(4, h, self.spell(name), ds.t, slen, d, a)
        self.sc.opt(None).log(None if rng.random() < .7 else False).log(None if rng.random() < .5 else True).arr(st).arr(ct).arr(None).arr(None)
        new = [max(x, b + y - 1) for x, b, y in zip(sh, st, ct)]
        if new != list(sh):
            self.c.n("extensions")
            old = ds.data
            ds.data = np.zeros(new, dtype=old.dtype)
            ds.data[tuple(slice(0, x) for x in sh)] = old
            old = ds.known
            ds.known = np.zeros(new, dtype=bool)
            ds.known[tuple(slice(0, x) for x in sh)] = old
        ds.known[tuple(slice(b - 1, b - 1 + y) for b, y in zip(st, ct))] = True
        ds.data[tuple(slice(b - 1, b - 1 + y) for b, y in zip(st, ct))] = a[where(d, ct)].reshape(ct, order="F")
        self.note(op="write part", file=os.path.basename(f.path), name=name, start=st, count=ct, array=d)
        self.plain("write part")
        self.c.n("part_writes")

    def read(self, part=None):
        rng = self.rng
        h = self.pick(have=True)
        if h is None:
            return
        # often the name which was read last, from this or another file
        again = [k for k, (f, ro) in sorted(self.open.items()) if self.last and self.last[0] in f.d]
        if again and rng.random() < .5:
            other = [k for k in again if self.open[k][0].path != self.last[2]]
            again = other or again
            h = again[int(rng.integers(len(again)))]
            f = self.open[h][0]
            name, spelled = self.last[:2]
            self.c.n("same_name_other_file" if other else "same_name_again")
        else:
            f = self.open[h][0]
            name = self.name(f, new=False)
            spelled = self.spell(name)
        self.last = (name, spelled, f.path)
        ds = f.d[name]
        sh = ds.data.shape
        st = ct = None
        if rng.random() < (.7 if self.variant == "part" else .25) and 0 not in sh:
            ct = [int(rng.integers(1, x + 1)) for x in sh]
            if rng.random() < .3:
                ct = [1 if rng.random() < .6 else x for x in ct]
            st = [int(rng.integers(1, x - y + 2)) for x, y in zip(sh, ct)]
        cnt = ct if ct is not None else list(sh)
        d = memshape(rng, cnt)
        slen = ds.slen + int(rng.integers(0, 4)) if ds.t == "ch" else 0
        back, sec = self.data_args(5, h, spelled, ds.t, slen, d, None)
        self.sc.arr(st).arr(ct)
        part = Ellipsis if ct is None else tuple(slice(b - 1, b - 1 + y) for b, y in zip(st, ct))
        src, known = ds.data[part], ds.known[part]
        want = back.copy()
        mask = np.ones(want.shape, dtype=bool)
        if len(d):
            v = want[sec]
            w = where(d, cnt)
            m = mask[sec]
            m[w] = known.reshape(v[w].shape, order="F")
            v[w] = src.reshape(v[w].shape, order="F")
        else:
            want[...] = src.reshape(())
            mask[...] = known.reshape(())
        t = ds.t
        self.note(op="read", file=os.path.basename(f.path), name=name, start=st, count=ct, array=d, behind=list(back.shape))
        n = len(self.ops)
        self.out("read", lambda rd: rd.array(want, mask, t, slen, "read %d of %s" % (n, name)))
        self.c.n("part_reads" if ct is not None else "reads")

    def parents(self, f):
        return [("d", k) for k in sorted(f.d)] + [("g", k) for k in sorted(f.g) if k]

    def wattr(self):
        rng = self.rng
        h = self.pick(write=True)
        if h is None:
            return
        f = self.open[h][0]
        ps = self.parents(f)
        if not ps:
            return self.mkgroup()
        k, p = ps[int(rng.integers(len(ps)))]
        at = f.d[p].attrs if k == "d" else f.g[p]
        over = bool(at) and rng.random() < .4
        an = sorted(at)[int(rng.integers(len(at)))] if over else "A%d" % rng.integers(1000)
        if not over and (an in at or (p + "/" + an) in f.d or (p + "/" + an) in f.g):
            return
        t, slen = self.ctype()
        r = self.rank()
        d = self.dims(r, most=200)
        a = values(rng, t, slen, d)
        self.data_args(6, h, self.spell(p) + "/" + an, t, slen, d, a)
        self.sc.log(True if over else None if rng.random() < .7 else bool(rng.integers(2)))
        at[an] = (t, slen, a.copy())
        self.note(op="write attribute", file=os.path.basename(f.path), name=p + "/" + an, type=t, shape=d, overwrite=over)
        self.plain("write attribute")
        self.c.n("attribute_overwrites" if over else "attribute_writes")

    def an_attr(self):
        h = self.pick()
        if h is None:
            return None
        f = self.open[h][0]
        all_ = [(p, n, a) for k, p in self.parents(f) for n, a in sorted((f.d[p].attrs if k == "d" else f.g[p]).items())]
        if not all_:
            return None
        return (h, f) + all_[int(self.rng.integers(len(all_)))]

    def rattr(self):
        rng = self.rng
        x = self.an_attr()
        if x is None:
            return
        h, f, p, n, (t, slen, a) = x
        d = list(a.shape)
        if len(d) == 1 and rng.random() < .5:
            d = [d[0] + int(rng.integers(0, 4))]        # one dimension: may be larger
        sl = slen + int(rng.integers(0, 4)) if t == "ch" else 0
        back, sec = self.data_args(7, h, self.spell(p) + "/" + n, t, sl, d, None)
        want = back.copy()
        if len(d):
            v = want[sec]
            v[tuple(slice(0, x) for x in a.shape)] = a
        else:
            want[...] = a
        self.note(op="read attribute", file=os.path.basename(f.path), name=p + "/" + n, shape=d)
        self.out("read attribute", lambda rd: rd.array(want, np.ones(want.shape, dtype=bool), t, sl, "attribute %s/%s" % (p, n)))
        self.c.n("attribute_reads")

    def info(self):
        """Dimensions and type of a dataset or attribute."""
        rng = self.rng
        x = self.an_attr() if rng.random() < .4 else None
        if x is not None:
            h, f, p, n, (t, slen, a) = x
            name, shape = p + "/" + n, a.shape
        else:
            h = self.pick(have=True)
            if h is None:
                return
            f = self.open[h][0]
            name = self.name(f, new=False)
            ds = f.d[name]
            t, slen, shape = ds.t, ds.slen, ds.data.shape
        self.sc.i(8, h).s(self.spell(name))
        self.note(op="dimensions", name=name)
        self.out("dimensions", lambda rd: rd.dims(shape, name))
        self.sc.i(9, h).s(self.spell(name))
        self.note(op="type", name=name)
        size = slen if t == "ch" else int(t[1])
        self.out("type", lambda rd: rd.type(t, size, name))
        self.c.n("queries", 2)

    def mkgroup(self):
        h = self.pick(write=True)
        if h is None:
            return
        f = self.open[h][0]
        depth = int(self.rng.integers(1, 5)) if self.rng.random() < .9 else int(self.rng.integers(8, 20))
        p = "/".join("G%d" % self.rng.integers(3) for _ in range(depth))
        self.sc.i(10, h).s(self.spell(p) + ("/" if self.rng.random() < .2 else ""))
        self.groups_for(f, p + "/x")
        self.note(op="group", name=p)
        self.plain("create group")
        self.c.n("groups")

    def listing(self):
        h = self.pick()
        if h is None:
            return
        f = self.open[h][0]
        g = sorted(f.g)[int(self.rng.integers(len(f.g)))]
        kind = int(self.rng.integers(2))
        src = f.d if kind == 0 else f.g
        want = sorted(k.split("/")[-1] for k in src if k and "/".join(k.split("/")[:-1]) == g)
        withnames = int(self.rng.random() < .8)
        self.sc.i(11 + kind, h).s("/" + g if g == "" else self.spell(g)).i(withnames)
        self.note(op="list", group=g, what="datasets" if kind == 0 else "groups")
        self.out("list", lambda rd: rd.names(want, withnames, g))
        self.c.n("listings")

    def nattrs(self):
        """The number of attributes."""
        h = self.pick()
        if h is None:
            return
        f = self.open[h][0]
        ps = self.parents(f)
        if not ps:
            return
        k, p = ps[int(self.rng.integers(len(ps)))]
        want = len(f.d[p].attrs if k == "d" else f.g[p])
        self.sc.i(13, h).s(self.spell(p)).i(0)
        self.note(op="count attributes", name=p)
        self.out("count attributes", lambda rd: rd.number(want, p))
        self.c.n("listings")

    def fileid(self):
        h = self.pick()
        if h is None:
            return
        p = self.open[h][0].path
        self.sc.i(14, h)
        self.note(op="file id")
        self.out("file id", lambda rd: rd.path(p))

    def error(self):
        """A call which must end the program with a message, as the last one."""
        rng = self.rng
        k = ["missing-file", "missing-dataset", "type", "precision", "too-small", "read-only", "closed-handle", "no-start", "not-extensible",
             "missing-attribute", "duplicate-attribute", "attribute-parent"][int(rng.integers(12))]
        h = self.pick(write=k in ("no-start", "not-extensible", "duplicate-attribute"), have=k not in ("missing-file", "closed-handle"))
        if k == "missing-file":
            self.sc.i(2, 9).s(os.path.join(self.dir, "nothing.hdf5")).log([None, True, False][int(rng.integers(3))])
        elif k == "closed-handle":
            if not any(o["op"] == "close" for o in self.ops):
                return False
            free = sorted({1, 2, 3, 4} - set(self.open))
            used = [x for x in free if self.was_open(x)]
            if not used:
                return False
            self.sc.i(8, used[0]).s("x")
        else:
            if h is None:
                return False
            f, ro = self.open[h]
            name = self.name(f, new=False)
            ds = f.d[name]
            sh = list(ds.data.shape)
            if 0 in sh:
                return False

            def rd(nm, t, slen, d, st=None, ct=None):
                self.data_args(5, h, self.spell(nm), t, slen, d, None)
                self.sc.arr(st).arr(ct)

            def wr(nm, t, slen, d, st=None, ct=None, ov=None):
                self.data_args(4, h, self.spell(nm), t, slen, d, values(rng, t, slen, d))
                self.sc.opt(None).log(ov).log(None).arr(st).arr(ct).arr(None).arr(None)
            if k == "missing-dataset":
                rd("nowhere/x" if rng.random() < .5 else "nothing", ds.t, ds.slen, sh)
            elif k == "type":
                t = {"i": "r4", "r": "ch", "c": "i8"}[ds.t[0]]
                (rd if rng.random() < .5 or ro else lambda *x: wr(*x, st=[1] * len(sh), ct=sh))(name, t, 5 if t == "ch" else 0, sh)
            elif k == "precision":
                if ds.t == "ch":
                    return False
                t = {"i4": "i8", "i8": "i4", "r4": "r8", "r8": "r4"}[ds.t]
                (rd if rng.random() < .5 or ro else lambda *x: wr(*x, st=[1] * len(sh), ct=sh))(name, t, 0, sh)
            elif k == "too-small":
                big = [i for i, x in enumerate(sh) if x > 2]
                if not big:
                    return False
                d = list(sh)
                d[big[int(rng.integers(len(big)))]] -= 1
                rd(name, ds.t, ds.slen, d)
            elif k == "read-only":
                if not ro:
                    return False
                if rng.random() < .5:
                    wr(name, ds.t, ds.slen, sh, ov=True)
                else:
                    self.sc.i(10, h).s("NewGroup")
            elif k == "no-start":
                wr(name, ds.t, ds.slen, sh)
            elif k == "not-extensible":
                if ds.ext or not sh:
                    return False
                wr(name, ds.t, ds.slen, sh, st=[2] + [1] * (len(sh) - 1), ct=sh)
            elif k == "missing-attribute":
                self.data_args(7, h, self.spell(name) + "/NoSuch", "i4", 0, [3], None)
            elif k == "duplicate-attribute":
                if not ds.attrs:
                    return False
                n = sorted(ds.attrs)[0]
                self.data_args(6, h, self.spell(name) + "/" + n, "i4", 0, [3], values(rng, "i4", 0, [3]))
                self.sc.log([None, False][int(rng.integers(2))])
            elif k == "attribute-parent":
                if ro:
                    return False
                self.data_args(6, h, "nowhere/at/all", "i4", 0, [3], values(rng, "i4", 0, [3]))
                self.sc.log(None)
        self.note(op="error", kind=k)
        self.c.f("error:" + k)
        self.ended = k
        return True

    def was_open(self, h):
        return h in self.ever


class Reader:
    def __init__(self, b, st):
        self.b, self.p, self.st = b, 0, st
        self.handles = {}

    def take(self, n, what=""):
        expect(self.p + n <= len(self.b), "the results end early %s" % what, "early")
        x = self.b[self.p:self.p + n]
        self.p += n
        return x

    def ints(self, n):
        return struct.unpack("<%di" % n, self.take(4 * n))

    def ok(self):
        expect(self.ints(1)[0] == 1, "no result", "result")

    def handle(self, h, live):
        self.ok()
        v = self.ints(1)[0]
        others = {self.handles[x] for x in live if x != h}
        expect(v not in others, "two open files have the handle %d" % v, "handle")
        self.handles[h] = v

    def array(self, want, mask, t, slen, what):
        self.ok()
        n = int(want.size) * (slen if t == "ch" else int(t[1]))
        got = unraw(self.take(n), t, slen, want.shape)
        expect(eq(got[mask], want[mask]), lambda: "%s: got %s, should be %s" % (what, str(got.ravel(order="F")[:12]), str(want.ravel(order="F")[:12])), "values")

    def dims(self, shape, name):
        self.ok()
        v = self.ints(21)
        expect(v[0] == len(shape) and v[1:1 + len(shape)] == tuple(shape), "dimensions of %s are %s, should be %s" % (name, v[:8], shape), "dimensions")
        expect(all(x == -7 for x in v[1 + len(shape):]), "more dimensions were set than there are", "dimensions")

    def type(self, t, size, name):
        self.ok()
        s = self.take(20).decode().strip()
        n = self.ints(1)[0]
        want = {"i": ("INTEGER",), "r": ("REAL",), "c": ("CHARACTER", "STRING")}[t[0]]
        expect(s in want and n == size, "type of %s is %s of %d bytes, should be %s of %d" % (name, s, n, want[0], size), "type")

    def names(self, want, withnames, g):
        self.ok()
        n = self.ints(1)[0]
        nm = self.take(64 * 200).decode()
        nm = [nm[i:i + 64].strip() for i in range(0, len(nm), 64)]
        expect(n == len(want), "%d members of %s, should be %d" % (n, g, len(want)), "names")
        if withnames:
            expect(sorted(nm[:n]) == want and all(x == "-" for x in nm[n:]), "members of %s are %s, should be %s" % (g, nm[:n], want), "names")

    def number(self, want, p):
        self.ok()
        n = self.ints(1)[0]
        self.take(64 * 200)
        expect(n == want, "%d attributes of %s, should be %d" % (n, p, want), "names")

    def path(self, p):
        self.ok()
        s = self.take(1000).decode().strip()
        expect(s == p, "the file behind the handle is %s, should be %s" % (s, p), "file id")


def check_file(f, c):
    import h5py
    with h5py.File(f.path, "r") as x:
        seen = set()

        def visit(name, o):
            seen.add(name)
        x.visititems(visit)
        want = set(f.d) | {g for g in f.g if g}
        expect(seen == want, "%s holds %s, should hold %s" % (os.path.basename(f.path), sorted(seen - want), sorted(want - seen)), "members")
        for name, ds in f.d.items():
            o = x[name]
            expect(isinstance(o, h5py.Dataset), "%s is no dataset" % name, "members")
            d = ds.data
            expect(o.shape == d.shape[::-1], "%s has shape %s, should be %s" % (name, o.shape, d.shape[::-1]), "shape")
            expect(o.dtype.kind == d.dtype.kind and o.dtype.itemsize == (ds.slen if ds.t == "ch" else d.dtype.itemsize), "%s has type %s" % (name, o.dtype), "type")
            expect(eq(o[...][ds.known.T], d.T[ds.known.T]), lambda: "%s holds %s, should be %s" % (name, str(np.ravel(o[...])[:10]), str(np.ravel(d.T)[:10])), "stored values")
            if len(d.shape) and getattr(ds, "made", True):
                expect(all(m is None for m in o.maxshape) == ds.ext, "%s: extensible %s, should be %s" % (name, o.maxshape, ds.ext), "extensible")
                if ds.gzip:
                    expect(o.compression == "gzip" and o.compression_opts == ds.gzip % 10 and o.shuffle == (ds.gzip > 9),
                           "%s: compression %s %s shuffle %s, asked for %d" % (name, o.compression, o.compression_opts, o.shuffle, ds.gzip), "compression")
                else:
                    expect(o.compression is None, "%s is compressed" % name, "compression")
            check_attrs(name, o.attrs, ds.attrs)
            c.n("datasets_checked")
        for g, at in f.g.items():
            expect(isinstance(x["/" + g], h5py.Group), "%s is no group" % g, "members")
            check_attrs(g, x["/" + g].attrs, at)


def check_attrs(name, got, want):
    expect(set(got) == set(want), "attributes of %s are %s, should be %s" % (name, sorted(got), sorted(want)), "attributes")
    for k, (t, slen, a) in want.items():
        v = np.asarray(got[k])
        expect(eq(v, a.T) if v.dtype.kind in "Sif" else False, lambda: "attribute %s of %s is %s, should be %s" % (k, name, str(v)[:200], str(a.T)[:200]), "attributes")


def premade(h, f):
    """A file made by h5py: byte orders, storage, strings of other kinds."""
    import h5py
    rng = h.rng
    with h5py.File(f.path, "w") as x:
        for i in range(int(rng.integers(1, 6))):
            t, slen = h.ctype()
            name = h.name(f)
            ds = Dset(t, slen, h.dims(h.rank()), False)
            ds.made = False
            ds.data[...] = values(rng, t, slen, ds.data.shape)
            ds.known[...] = True
            dt = ds.dtype()
            if t != "ch" and rng.random() < .4:
                dt = dt.newbyteorder(">")
                h.c.f("swapped")
            kw = {}
            if ds.data.ndim and rng.random() < .4:
                kw = dict(chunks=True, maxshape=(None,) * ds.data.ndim)
                ds.ext = True
                if rng.random() < .5:
                    kw["compression"] = "gzip"
            o = x.create_dataset(name, data=ds.data.T.astype(dt), **kw)
            for k in range(int(rng.integers(0, 3))):
                at, sl = h.ctype()
                a = values(rng, at, sl, h.dims(h.rank(), most=100))
                o.attrs["B%d" % k] = a.T
                ds.attrs["B%d" % k] = (at, sl, a)
            f.d[name] = ds
            h.groups_for(f, name)


def case(c, rng, tier, index, scratch, opts):
    h = Hist(rng, scratch, c, opts["variant"])
    h.ever = set()
    n = int(rng.integers(4, 26))
    v = opts["variant"]
    W = dict(data=[("write_new", 5), ("overwrite", 1.5), ("read", 6), ("close", .7), ("reopen", 1), ("create", .5), ("info", .5)],
             part=[("write_new", 3), ("write_part", 5), ("overwrite", .5), ("read", 5), ("close", .5), ("reopen", .8), ("create", .3), ("info", .5)],
             attr=[("write_new", 1), ("mkgroup", 1), ("wattr", 5), ("rattr", 5), ("close", .5), ("reopen", .8), ("create", .3), ("info", 1.5), ("nattrs", .5)],
             files=[("write_new", 2), ("overwrite", .7), ("read", 3), ("wattr", 1), ("rattr", 1), ("mkgroup", 2), ("listing", 2), ("info", 1.5), ("close", 2), ("reopen", 2), ("create", 1), ("fileid", .7), ("nattrs", .5), ("write_part", 1)])[v]
    if rng.random() < .35:
        for i in range(int(rng.integers(1, 3))):
            f = File(os.path.join(scratch, "f%d.hdf5" % i))
            premade(h, f)
            h.files.append(f)
        c.f("premade")
        h.reopen()
    else:
        h.create()
    names, p = [x for x, _ in W], np.array([y for _, y in W])
    p = p / p.sum()
    for _ in range(n):
        op = names[int(rng.choice(len(names), p=p))]
        if not h.open and op not in ("create", "reopen"):
            op = "reopen"
        if op == "overwrite":
            h.write_new(over=True)
        else:
            getattr(h, op)()
        h.ever |= set(h.open)
    if v == "files" and rng.random() < .4:
        mark = len(h.sc.b)
        if not h.error():
            h.sc.b = h.sc.b[:mark]
    if not h.ended:
        for x in sorted(h.open):
            if rng.random() < .9:
                h.close(x)
        h.sc.i(0)
    c.d(ops=h.ops)
    open(os.path.join(scratch, "script"), "wb").write(h.sc.b)
    c.go()
    p = subprocess.run([opts["exe"], os.path.join(scratch, "script"), os.path.join(scratch, "out")], cwd=scratch, capture_output=True, timeout=100,
                       env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=1"))
    txt = (p.stdout + p.stderr).decode(errors="replace")
    for mark, key in (("AddressSanitizer", "sanitizer"), ("runtime error:", "sanitizer"), ("Fortran runtime error", "runtime"), ("SIGSEGV", "crash")):
        if mark in txt:
            raise Bad("%s: %s" % (key, txt[max(txt.find(mark) - 200, 0):][:1500]), key)
    out = open(os.path.join(scratch, "out"), "rb").read() if os.path.exists(os.path.join(scratch, "out")) else b""
    rd = Reader(out, h)
    done = 0
    for what, fn in h.checks:
        if rd.p >= len(out):
            raise Bad("the program ended in operation %d (%s): %s" % (done, what, " ".join(txt.split())[-700:]), "ended:" + what)
        fn(rd)
        done += 1
    c.n("calls", done)
    if h.ended:
        expect(rd.p == len(out), "a call which is an error (%s) returned" % h.ended, "no error:" + h.ended)
        expect("Abort" in txt, "a call which is an error (%s) gave no message: %s" % (h.ended, txt[-300:]), "no message")
    else:
        expect(rd.take(4) == struct.pack("<i", 77777) and p.returncode == 0, "the program ended with %s: %s" % (p.returncode, txt[-500:]), "end")
    for f in h.files:
        check_file(f, c)
        c.n("files_checked")
