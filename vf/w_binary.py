"""
BinaryFile: random files made with struct/tobytes, described through the
public interface, and every way of reading them compared with the bytes.
opts["variant"]: decode | export | cache
"""
import os, sys, hashlib, struct, resource
import numpy as np
from vf.serialworker import expect, Bad

SCALARS = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "S1", "S7", "c8", "b1"]


def rand_dtype(rng, rec=True):
    r = rng.random()
    if rec and r < .2:
        n = int(rng.integers(1, 5))
        fields = []
        for i in range(n):
            t = SCALARS[int(rng.integers(13))]
            fields.append(("f%d" % i, t, tuple(int(x) for x in rng.integers(1, 4, size=int(rng.integers(1, 3))))) if rng.random() < .3 else ("f%d" % i, t))
        return np.dtype(fields, align=bool(rng.random() < .3))
    return np.dtype(SCALARS[int(rng.integers(len(SCALARS)))])


def rand_data(rng, dt, shape):
    n = int(np.prod(shape, dtype=int))
    if dt.names:
        a = np.zeros(n, dt)
        for f in dt.names:
            b = dt[f]
            a[f] = rand_data(rng, b.base, (n,) + b.shape)
        return a.reshape(shape)
    if dt.kind == "b":
        return rng.integers(0, 2, size=n).astype(bool).reshape(shape)
    if dt.kind == "S":
        return np.array([bytes(int(x) for x in rng.integers(97, 120, size=dt.itemsize)) for _ in range(n)], dt).reshape(shape)
    if dt.kind in "fc":
        a = rng.normal(size=n) * 10.0 ** rng.integers(-20, 20, size=n)
        if n and rng.random() < .3:
            a[int(rng.integers(n))] = [0.0, -0.0, np.inf, -np.inf, np.nan][int(rng.integers(5))]
        return (a + 1j * rng.normal(size=n)).astype(dt).reshape(shape) if dt.kind == "c" else a.astype(dt).reshape(shape)
    ii = np.iinfo(dt)
    return rng.integers(ii.min, ii.max, size=n, dtype=dt, endpoint=True).reshape(shape)


def rand_shape(rng):
    nd = int(rng.choice([0, 1, 1, 1, 2, 3]))
    return tuple(int(x) for x in (rng.integers(0, 12, size=nd) if rng.random() < .8 else rng.integers(0, 200, size=min(nd, 1))))


def same(a, b):
    """Equal type (up to nothing), shape and bytes."""
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype.newbyteorder("=") == b.dtype.newbyteorder("=") and a.shape == b.shape and \
        canon(a) == canon(b)


def canon(a):
    a = np.ascontiguousarray(a).reshape(a.shape)
    if a.dtype.names:
        return [canon(a[f]) for f in a.dtype.names]
    return a.astype(a.dtype.newbyteorder("<")).tobytes()


def rand_key(rng, shape):
    """An index numpy understands; None if any."""
    if not shape:
        return () if rng.random() < .5 else Ellipsis
    r = rng.random()
    if r < .15:
        return Ellipsis
    if r < .25 and shape[0]:
        m = rng.integers(0, shape[0], size=int(rng.integers(0, 6)))
        return m if rng.random() < .5 else (rng.random(shape[0]) < .4)
    key = []
    for n in shape[:int(rng.integers(1, len(shape) + 1))]:
        if n and rng.random() < .35:
            key.append(int(rng.integers(-n, n)))
        else:
            a, b = (int(x) for x in rng.integers(-n - 2, n + 3, size=2))
            st = [None, 1, 2, -1, 3][int(rng.integers(5))]
            key.append(slice(a if rng.random() < .7 else None, b if rng.random() < .7 else None, st))
    return tuple(key) if len(key) > 1 or rng.random() < .5 else key[0]


class Layout:
    """A random sequence of blocks and the bytes of the file which has them."""

    def __init__(self, rng, endian, gaps=True, records=True, rec=True, zero=True):
        self.e = endian
        self.blocks = []       # (kind, path, dtype, shape, data, offset)
        self.buf = bytearray()
        self.steps = []
        names = set()
        nb = int(rng.integers(1, 9))
        dsets = []
        inrec = None
        for i in range(nb):
            if records and inrec is None and rng.random() < .35:
                inrec = len(self.steps)
                self.steps.append(["start", None])
                self.buf += b"\0\0\0\0"
                mark = len(self.buf)
            if gaps and rng.random() < .2:
                k = int(rng.integers(0, 20))
                self.buf += rng.integers(0, 256, size=k).astype(np.uint8).tobytes()
                self.steps.append(["skip", k])
            dt = rand_dtype(rng, rec)
            shape = rand_shape(rng)
            if not zero:
                shape = tuple(max(1, s) for s in shape)
            data = rand_data(rng, dt, shape)
            off = len(self.buf)
            self.buf += np.ascontiguousarray(data.astype(dt.newbyteorder(endian))).tobytes()
            kind = ["dataset", "attr", "read"][int(rng.choice(3, p=[.6, .3, .1]))]
            depth = int(rng.integers(0, 3))
            path = "/".join("g%d" % int(rng.integers(2)) for _ in range(depth)) + ("/" if depth else "") + ("d%d" % i if kind == "dataset" else "a%d" % i)
            if kind == "attr" and dsets and rng.random() < .5:
                path = dsets[int(rng.integers(len(dsets)))] + "/a%d" % i
            if kind == "dataset":
                dsets.append(path)
            self.blocks.append((kind, path, dt, shape, data, off))
            self.steps.append([kind, len(self.blocks) - 1])
            if inrec is not None and rng.random() < .6:
                self._end(inrec, mark)
                inrec = None
        if inrec is not None:
            self._end(inrec, mark)

    def _end(self, at, mark):
        n = len(self.buf) - mark
        m = struct.pack(("<" if self.e == "<" else ">") + "i", n)
        self.buf[mark - 4:mark] = m
        self.buf += m
        self.steps[at][1] = n
        self.steps.append(["end", n])

    def describe_file(self, f, rng, c, shapetypes=True):
        """Replay the description through the public interface."""
        for kind, i in self.steps:
            if kind == "skip":
                f.skip_bytes(i)
            elif kind == "start":
                f.start_fortran_record(auto_byteswap=False)
            elif kind == "end":
                f.end_fortran_record()
            else:
                _, path, dt, shape, data, off = self.blocks[i]
                if shapetypes and rng.random() < .3:
                    t = [np.int32, np.uint32, np.int64, np.uint64][int(rng.integers(4))]
                    shape = tuple(t(s) for s in shape)
                if kind == "dataset":
                    f.add_dataset(path, dt, shape)
                elif kind == "attr":
                    f.add_attribute(path, dt, shape)
                else:
                    got = f.read_and_skip(dt, shape)
                    expect(same(got, data), "read_and_skip gave wrong data for %s%s" % (dt, shape), "read_and_skip")


def find(f, kind, path):
    if kind == "dataset":
        return f[path]
    head, _, name = path.rpartition("/")
    return (f[head] if head else f).attrs[name]


def setup_endian(f, rng, e):
    """Set the byte order to e, by any sequence of the calls which set or reverse it."""
    native = "<" if sys.byteorder == "little" else ">"
    now = native
    for _ in range(int(rng.choice([0, 0, 0, 1, 3]))):
        r = int(rng.integers(4))
        if r == 0:
            now = "<>"[int(rng.integers(2))]
            f.set_endian(now)
        elif r == 1:
            f.set_endian("=")
            now = native
        elif r == 2:
            swap = bool(rng.integers(2))
            f.enable_byteswap(swap)
            now = native if not swap else ("<" if native == ">" else ">")
        else:
            f.toggle_byteswap()
            now = "<" if now == ">" else ">"
    r = int(rng.integers(5))
    if r == 0:
        f.set_endian(e)
    elif r == 1:
        f.enable_byteswap(e != native)
    elif r == 2 and e == native:
        f.set_endian("=")
    elif now != e:
        f.toggle_byteswap()


def case(c, rng, tier, index, scratch, opts):
    from virgo.util.read_binary import BinaryFile
    v = opts["variant"]
    if v == "decode":
        return decode(c, rng, scratch, BinaryFile, tier)
    if v == "export":
        return export(c, rng, scratch, BinaryFile)
    return cache(c, rng, scratch, BinaryFile, tier)


def decode(c, rng, scratch, BinaryFile, tier):
    e = "<>"[int(rng.integers(2))]
    mode = ["plain", "plain", "late-endian", "bounds", "far", "auto"][int(rng.integers(6))]
    L = Layout(rng, e, records=mode != "late-endian")
    name = os.path.join(scratch, "file")
    c.f("order:" + e, "mode:" + mode, *("kind:" + b[0] for b in L.blocks))
    c.f(*("records" for b in L.blocks if b[2].names), *("type:" + b[2].str[1:] for b in L.blocks if not b[2].names))
    c.d(order=e, mode=mode, blocks=[(b[0], b[1], str(b[2]), b[3]) for b in L.blocks])
    if not any(b[4].size for b in L.blocks):
        c.f("trivial")
    if not L.buf:
        L.buf += b"x"
        L.steps.append(["skip", 1])
    base = 0
    if mode == "far":
        # beyond 4 GB in a sparse file
        base = int(rng.integers(2**31, 2**33)) + int(rng.integers(0, 5))
    with open(name, "wb") as fo:
        fo.seek(base)
        fo.write(L.buf)
    c.go()
    if mode == "auto":
        return autoswap(c, rng, scratch, BinaryFile)
    f = BinaryFile(name)
    if mode != "late-endian":
        setup_endian(f, rng, e)
    if base:
        f.skip_bytes(base)
    if mode == "late-endian":
        L2 = [s for s in L.steps if s[0] != "read"]
        for kind, i in L.steps:
            if kind == "skip":
                f.skip_bytes(i)
            elif kind == "read":
                f.skip_bytes(L.blocks[i][4].nbytes)
            elif kind == "dataset":
                f.add_dataset(L.blocks[i][1], L.blocks[i][2], L.blocks[i][3])
            else:
                f.add_attribute(L.blocks[i][1], L.blocks[i][2], L.blocks[i][3])
        setup_endian(f, rng, e)
    else:
        L.describe_file(f, rng, c)
    gap = base > 0 or any(s[0] == "skip" and s[1] > 0 for s in L.steps) or (mode == "late-endian" and any(s[0] == "read" and L.blocks[s[1]][4].nbytes for s in L.steps))
    expect(f.all_bytes_used() == (not gap), "all_bytes_used is %s for a file with%s unused bytes" % (f.all_bytes_used(), "" if gap else "out"), "all_bytes_used")
    todo = [b for b in L.blocks if b[0] != "read"]
    if mode == "bounds":
        # the last block does not fit in the file: it must not be returned, the others must
        last = L.blocks[-1]
        if last[4].nbytes:
            cut = last[5] + int(rng.integers(0, last[4].nbytes))
            f.close()
            if cut == 0:
                return
            with open(name, "r+b") as fo:
                fo.truncate(cut)
            g = BinaryFile(name)
            g.set_endian(e)
            for kind, path, dt, shape, data, off in L.blocks:
                g.skip_bytes(off - g.offset)
                g.add_dataset("x%d" % len(g.datasets), dt, shape)
            for i, (kind, path, dt, shape, data, off) in enumerate(L.blocks):
                inside = off + data.nbytes <= cut
                for key in (Ellipsis, rand_key(rng, shape)):
                    try:
                        got = g["x%d" % i][key]
                    except (IOError, TypeError, ValueError):
                        expect(not inside, "block inside a truncated file is refused", "bounds")
                    else:
                        expect(inside, "block reaching %d bytes past the end of the file was returned" % (off + data.nbytes - cut), "bounds")
                        expect(same(got, data[key]), "truncated file: wrong data", "bounds")
                    c.n("reads")
            g2 = BinaryFile(name)
            g2.skip_bytes(-4)
            g2.add_dataset("neg", np.int32)
            try:
                g2["neg"][...]
            except (IOError, ValueError, TypeError):
                pass
            else:
                raise Bad("a negative offset was accepted", "bounds")
            return
    order = rng.permutation(len(todo))
    for i in order:
        kind, path, dt, shape, data, off = todo[int(i)]
        if kind == "attr":
            got = find(f, kind, path)
            expect(same(got, data), "attribute %s: %r instead of %r" % (path, got, data), "attr")
            c.n("reads")
            continue
        d = find(f, kind, ("/" if rng.random() < .2 else "") + path)
        expect(d.shape == shape and d.dtype == dt, "dataset reports shape %s type %s" % (d.shape, d.dtype), "meta")
        expect(d.size == data.size and d.nbytes == data.nbytes, "dataset reports a wrong size", "meta")
        expect(all(isinstance(x, int) for x in d.shape), "shape is not made of integers", "meta")
        for _ in range(4):
            key = rand_key(rng, shape)
            try:
                want = data[key]
            except IndexError:
                continue
            got = d[key]
            expect(same(got, want), lambda: "dataset[%r] of %s %s gave\n%r\ninstead of\n%r" % (key, dt, shape, got, want), "slice")
            c.n("reads")
            if isinstance(got, np.ndarray) and got.size and got.flags.writeable:
                # what was returned belongs to the caller
                got[...] = np.zeros((), got.dtype)
        got = d[...]
        expect(same(got, data), "dataset changed after what it returned was changed", "alias")
        expect(same(np.asarray(d), data), "asarray gives other data", "array")
        if shape:
            expect(len(d) == shape[0] and d.len() == shape[0], "wrong length", "meta")
            its = list(d)
            expect(len(its) == shape[0] and all(same(a, b) for a, b in zip(its, data)), "iteration gives other data", "iter")
        if dt.names:
            fld = dt.names[int(rng.integers(len(dt.names)))]
            expect(same(d[fld], data[fld]), "field %s of records is wrong" % fld, "field")
        if rng.random() < .2:
            keep = d[...]
            f.close()
            expect(same(keep, data), "data changed when the file was closed", "close")
            expect(same(d[...], data), "reading after closing gives other data", "close")
            c.f("reopened")
    # everything is reachable by iterating the groups
    found = set()

    def walk(g, pre):
        for k in g:
            if hasattr(g[k], "datasets"):
                walk(g[k], pre + k + "/")
                found.update(pre + k + "/@" + a for a in g[k].attrs)
            else:
                found.add(pre + k)
                found.update(pre + k + "/@" + a for a in g[k].attrs)
    walk(f, "")
    found.update("@" + a for a in f.attrs)
    want = set()
    for b in todo:
        h, _, n = b[1].rpartition("/")
        want.add(b[1] if b[0] == "dataset" else (h + "/@" + n if h else "@" + n))
    expect(found == want, "iterating the file gives %s instead of %s" % (sorted(found), sorted(want)), "iter")


def autoswap(c, rng, scratch, BinaryFile):
    """Byte order found from the record markers; inconsistent markers refused."""
    e = "<>"[int(rng.integers(2))]
    name = os.path.join(scratch, "auto")
    n = int(rng.integers(1, 3000))
    a = rng.integers(0, 2**31, size=n, dtype=np.int32)
    m1 = m2 = 4 * n
    fault = ["none", "none", "first", "second", "both", "length"][int(rng.integers(6))]
    if fault in ("first", "both"):
        m1 += int(rng.integers(1, 100))
    if fault == "second":
        m2 += int(rng.integers(1, 100))
    if fault == "both":
        m2 = m1
    b = rng.normal(size=5)
    with open(name, "wb") as fo:
        fo.write(struct.pack(e + "i", m1) + a.astype(e + "i4").tobytes() + struct.pack(e + "i", m2) + b.astype(e + "f8").tobytes())
    known = ["no", "no", "right", "wrong"][int(rng.integers(4))]
    use_auto = rng.random() < .8
    c.f("auto:" + fault, "order-known:" + known)
    c.d(n=n, fault=fault, order=e, known=known, auto=use_auto)
    f = BinaryFile(name)
    start = {"no": "<" if sys.byteorder == "little" else ">", "right": e, "wrong": "<" if e == ">" else ">"}[known]
    if known != "no":
        setup_endian(f, rng, start)
    want_ok = fault == "none" and (use_auto or start == e)
    try:
        f.start_fortran_record(auto_byteswap=use_auto)
        f.add_dataset("a", np.int32, (n - (1 if fault == "length" and n > 1 else 0),))
        if fault == "length" and n > 1:
            f.end_fortran_record()
        else:
            if fault == "length":
                f.skip_bytes(-1)
            f.end_fortran_record()
        f.add_dataset("b", np.float64, (5,))
    except IOError as ex:
        expect(not want_ok, "a good record was refused: %s" % ex, "record")
        return
    expect(want_ok, "a record with inconsistent markers was accepted (%s)" % fault, "record")
    expect(same(f["a"][...], a) and same(f["b"][...], b), "data wrong after the byte order was found", "record")
    for bad in ("end", "start"):
        try:
            if bad == "end":
                f.end_fortran_record()
            else:
                g = BinaryFile(name)
                g.start_fortran_record()
                g.start_fortran_record()
        except IOError:
            continue
        raise Bad("%s of a record in the wrong place was accepted" % bad, "record")


def export(c, rng, scratch, BinaryFile):
    import h5py
    e = "<>"[int(rng.integers(2))]
    L = Layout(rng, e, gaps=False, zero=rng.random() < .5)
    if not L.buf:
        L.buf += b"y"
        L.blocks.append(("dataset", "only", np.dtype("u1"), (1,), np.frombuffer(b"y", "u1"), 0))
        L.steps.append(["dataset", len(L.blocks) - 1])
    name = os.path.join(scratch, "in")
    open(name, "wb").write(L.buf)
    c.f("order:" + e, *("kind:" + b[0] for b in L.blocks))
    c.d(order=e, blocks=[(b[0], b[1], str(b[2]), b[3]) for b in L.blocks])
    if any(b[2].names for b in L.blocks):
        c.f("records")
    c.go()
    f = BinaryFile(name)
    setup_endian(f, rng, e)
    L.describe_file(f, rng, c)
    expect(f.all_bytes_used(), "all_bytes_used is False although every byte is described", "all_bytes_used")
    nop = any(b[2].names and has_pad(b[2]) for b in L.blocks)   # padding bytes have no defined content
    # hash: that of the little endian bytes
    little = b"".join(np.ascontiguousarray(x).tobytes() for x in pieces(L, "<"))
    for ht in ("sha1", "md5"):
        if not nop:
            expect(f.hash(ht) == hashlib.new(ht, little).hexdigest(), "hash differs from that of the little endian file", "hash")
    # write_binary in each byte order
    for we in (None, "<", ">"):
        out = os.path.join(scratch, "out%s" % we)
        f.write_binary(out, endian=we)
        want = b"".join(np.ascontiguousarray(x).tobytes() for x in pieces(L, we or "="))
        got = open(out, "rb").read()
        if not nop:
            expect(got == want, lambda: "write_binary(endian=%s) wrote %d bytes, expected %d%s" % (
                we, len(got), len(want), "" if len(got) != len(want) else ", first difference at %d" % next(i for i in range(len(want)) if want[i] != got[i])), "write_binary")
        c.n("bytes_written", len(got))
        try:
            f.write_binary(out, endian=we)
        except OSError:
            pass
        else:
            raise Bad("write_binary overwrote an existing file in its default mode", "write_binary")
    expect(open(name, "rb").read() == bytes(L.buf), "the input file was changed", "input")
    # HDF5
    h5 = os.path.join(scratch, "out.hdf5")
    gz = int(rng.choice([0, 1, 6]))
    into = rng.random() < .3
    if into:
        with h5py.File(h5, "w") as h:
            f.write_hdf5(h5group=h.create_group("sub"), gzip=gz)
    else:
        f.write_hdf5(h5, gzip=gz)
    c.f("gzip:%d" % gz)
    with h5py.File(h5, "r") as h:
        top = h["sub"] if into else h
        nobj = [0]
        natt = [len(top.attrs)]

        def visit(n, o):
            nobj[0] += isinstance(o, h5py.Dataset)
            natt[0] += len(o.attrs)
        top.visititems(visit)
        wantd = [b for b in L.blocks if b[0] == "dataset"]
        wanta = [b for b in L.blocks if b[0] == "attr"]
        for kind, path, dt, shape, data, off in wantd:
            expect(path in top, "dataset %s is not in the HDF5 file" % path, "hdf5")
            got = top[path][...]
            expect(same(got, data), lambda: "dataset %s in the HDF5 file is\n%r\ninstead of\n%r" % (path, got, data), "hdf5")
            c.n("datasets_exported")
        for kind, path, dt, shape, data, off in wanta:
            head, _, nm = path.rpartition("/")
            o = top[head] if head else top
            expect(nm in o.attrs, "attribute %s is not in the HDF5 file" % path, "hdf5")
            got = o.attrs[nm]
            if data.size == 0:
                continue
            expect(same(got, data), "attribute %s in the HDF5 file is %r instead of %r" % (path, got, data), "hdf5")
            c.n("attributes_exported")
        expect(nobj[0] == len(wantd) and natt[0] == len(wanta), "the HDF5 file has %d datasets and %d attributes instead of %d and %d" % (nobj[0], natt[0], len(wantd), len(wanta)), "hdf5")


def has_pad(dt):
    dt = dt.base
    return dt.names is not None and (sum(dt[n].itemsize for n in dt.names) != dt.itemsize or any(has_pad(dt[n]) for n in dt.names))


def pieces(L, e):
    for kind, i in L.steps:
        if kind in ("start", "end"):
            yield np.asarray([i], np.dtype("i4").newbyteorder(e))
        else:
            b = L.blocks[i]
            yield b[4].astype(b[2].newbyteorder(e))


def cache(c, rng, scratch, BinaryFile, tier):
    """Many files at once, in random order, with closing, deleting, replacing and changing directory."""
    import gc
    nf = int(rng.choice([1, 5, 31, 33, 60, 120], p=[.05, .1, .1, .25, .25, .25]))
    relative = rng.random() < .4
    dirs = [os.path.join(scratch, "d%d" % i) for i in range(2 if relative else 1)]
    content = {}
    for d in dirs:
        os.makedirs(d)
        for i in range(nf):
            content[d, i] = rng.integers(0, 2**60, size=int(rng.integers(1, 40)))
            content[d, i].tofile(os.path.join(d, "f%d" % i))
    os.chdir(dirs[0])
    cur = dirs[0]
    c.f("files:%d" % nf, "relative" if relative else "absolute")
    c.d(files=nf, relative=relative)
    c.go()
    objs = {}
    nops = int(rng.integers(100, 400))
    base = nmaps(scratch)
    most = 0
    live = []
    for op in range(nops):
        r = rng.random()
        i = int(rng.integers(nf))
        if r < .08:
            if objs:
                k = list(objs)[int(rng.integers(len(objs)))]
                objs[k][0].close()
        elif r < .16 and objs:
            k = list(objs)[int(rng.integers(len(objs)))]
            del objs[k]
        elif r < .2 and relative:
            cur = dirs[int(rng.integers(2))]
            os.chdir(cur)
            objs.clear()
        elif r < .25:
            # replace a file by another of the same name; objects made for the old one are dropped
            d, j = cur, i
            objs.pop(j, None)
            content[d, j] = rng.integers(0, 2**60, size=int(rng.integers(1, 40)))
            t = os.path.join(d, "tmp")
            content[d, j].tofile(t)
            os.replace(t, os.path.join(d, "f%d" % j))
            c.f("replaced")
        else:
            if i not in objs:
                f = BinaryFile("f%d" % i if relative else os.path.join(cur, "f%d" % i))
                n = len(content[cur, i])
                f.add_dataset("a", np.int64, (n,))
                f.add_attribute("x", np.int8)
                f.offset = 0
                f.add_dataset("b", np.int32, (2 * n,))
                objs[i] = (f, cur)
            f = objs[i][0]
            want = content[cur, i]
            if rng.random() < .5:
                got = f["a"][...]
                expect(same(got, want), "file %d of %d: data of another file or none: %r instead of %r" % (i, nf, got[:3], want[:3]), "cache")
            else:
                got = f["b"][::2]
                expect(same(got, want.view(np.int32)[::2]), "file %d of %d: data of another file or none" % (i, nf), "cache")
            c.n("reads")
        m = nmaps(scratch) - base
        most = max(most, m)
        expect(m <= 80, "%d file descriptors are open at once" % m, "open-files")   # two for each of 32 files, and some room
    c.f("evicted" if len(objs) > 32 else "fits")
    for f, _ in list(objs.values()):
        f.close()
    objs.clear()
    f = None
    gc.collect()
    left = nmaps(scratch) - base
    expect(left <= 0, "%d files still open after all were closed" % left, "open-files")
    c.n("most_open", 0)
    os.chdir("/")


def nmaps(scratch):
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            if os.readlink("/proc/self/fd/" + fd).startswith(scratch):
                n += 1
        except OSError:
            pass
    return n
