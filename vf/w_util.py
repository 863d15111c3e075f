"""Utilities: match, ranges, peano, formatter, read_multi. opts["variant"] picks one."""
import os, ctypes, subprocess, string
import numpy as np
from vf.serialworker import expect, Bad
from vf import arrays as A


def case(c, rng, tier, index, scratch, opts):
    globals()["c_" + opts["variant"]](c, rng, tier, index, scratch, opts)


# -- match -------------------------------------------------------------------
ITYPES = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]


def exact(a):
    """Elements as python numbers, compared exactly."""
    return [int(x) if a.dtype.kind in "iu" else (float(x) if a.dtype.kind == "f" else bytes(x)) for x in a]


def c_match(c, rng, tier, index, scratch, opts):
    from virgo.util.match import match
    kind = ["int", "int", "mixed", "float", "str", "swapped", "int-float"][int(rng.integers(7))]
    cap = int(rng.choice([0, 3, 40, 400, 3000]))
    n1, n2 = int(rng.integers(0, cap + 1)), int(rng.integers(0, cap + 1))
    if kind == "mixed":
        t1, t2 = ITYPES[int(rng.integers(8))], ITYPES[int(rng.integers(8))]
        if rng.random() < .5:
            t1, t2 = [("i8", "u8"), ("u8", "i8"), ("u8", "i4"), ("i4", "u8")][int(rng.integers(4))]
    elif kind == "float":
        t1 = t2 = ["f4", "f8"][int(rng.integers(2))]
        if rng.random() < .4:
            t1, t2 = ["f4", "f8"][::int(rng.choice([1, -1]))]
    elif kind == "int-float":
        t1, t2 = [(["f4", "f8"][int(rng.integers(2))], ITYPES[int(rng.integers(8))])][0][::int(rng.choice([1, -1]))]
    elif kind == "str":
        t1, t2 = ["S5", "S5", "S3", "S8"][int(rng.integers(4))], "S5"
    else:
        t1 = t2 = ITYPES[int(rng.integers(8))]
    if kind == "str":
        mk = lambda n, t: np.array([b"%x" % int(x) for x in rng.integers(0, max(1, cap) * int(rng.choice([1, 300])), size=n)], dtype=t)
        a2, a1 = mk(n2, t2), mk(n1, t1)
    elif kind == "int-float":
        # exact in both types, apart from the numbers between two integers
        top = int(min([2**23] + [np.iinfo(t).max for t in (t1, t2) if t[0] != "f"] + [int(rng.choice([30, 10**9]))]))
        low = 0 if "u" in t1 + t2 else -top
        some = lambda t, v: (v + (rng.choice([0, 0, .5], size=len(v)) if t[0] == "f" else 0)).astype(t)
        whole = rng.integers(low, top + 1, size=n2)
        a2 = some(t2, whole)
        a1 = some(t1, whole[rng.integers(n2, size=n1)] if n2 else rng.integers(low, top + 1, size=n1))
    elif kind == "float":
        a2 = A.values(rng, n2, t2)[0]
        a1 = A.values(rng, n1, t1)[0]
        if n2:
            k = rng.random(n1) < .6
            a1[k] = a2[rng.integers(n2, size=int(k.sum()))]
        if n1 and rng.random() < .2:
            a1[int(rng.integers(n1))] = np.nan
    else:
        a2 = A.values(rng, n2, t2)[0]
        lo, hi = int(np.iinfo(t1).min), int(np.iinfo(t1).max)
        pool = [int(x) for x in a2[:300]] or [0, 1]
        a1 = np.array([min(hi, max(lo, pool[int(k)] + int(d))) for k, d in zip(rng.integers(len(pool), size=n1), rng.choice([0, 0, 0, 1, -1], size=n1))], dtype=t1)
        if rng.random() < .3:
            a1 = A.values(rng, n1, t1)[0]
    if kind == "swapped" or (kind in ("mixed", "float", "int-float") and rng.random() < .35):
        kind = kind if kind == "swapped" else kind + "-swapped"
        if rng.random() < .7:
            a1 = a1.astype(a1.dtype.newbyteorder())
        if rng.random() < .7:
            a2 = a2.astype(a2.dtype.newbyteorder())
    if rng.random() < .4 and n2:
        a2 = np.unique(a2) if rng.random() < .5 else rng.permutation(np.unique(a2))
        n2 = len(a2)
    how = ["plain", "sorted", "index"][int(rng.integers(3))]
    if how == "sorted":
        a2 = np.sort(a2)
    c.f("kind:" + kind, "how:" + how, "types:%s/%s" % (a1.dtype.str, a2.dtype.str))
    c.d(types=(a1.dtype.str, a2.dtype.str), n=(n1, n2), how=how)
    if n1 == 0 or n2 == 0:
        c.f("trivial")
    k1, k2 = a1.copy(), a2.copy()
    c.go()
    if how == "plain":
        p = match(a1, a2)
    elif how == "sorted":
        p = match(a1, a2, arr2_sorted=True)
    else:
        ix = np.argsort(a2, kind="stable")
        p = match(a1, a2, arr2_index=ix)
    expect(isinstance(p, np.ndarray) and p.shape == (n1,) and p.dtype.kind == "i", "result is not an index array of the length of arr1", "shape")
    e1, e2 = exact(k1), exact(k2)
    have = set(e2)
    for i in range(n1):
        j = int(p[i])
        if j == -1:
            expect(e1[i] not in have, lambda: "%r (%s) is in arr2 (%s) but no match was found" % (e1[i], a1.dtype, a2.dtype), "missed")
        else:
            expect(0 <= j < n2 and e2[j] == e1[i], lambda: "%r (%s) was matched to element %d which is %r (%s)" % (e1[i], a1.dtype, j, e2[j] if 0 <= j < n2 else None, a2.dtype), "wrong")
            c.n("matches")
    expect(np.array_equal(k1, a1, equal_nan=kind.startswith("float")) and np.array_equal(k2, a2), "an input was changed", "input")


# -- ranges -------------------------------------------------------------------

def c_ranges(c, rng, tier, index, scratch, opts):
    from virgo.util.ranges import assign_ranges, sum_ranges
    n = int(rng.choice([1, 5, 30, 300]))
    nr = int(rng.integers(0, min(n, 12) + 1))
    cuts = np.sort(rng.integers(0, n + 1, size=2 * nr))
    off, end = cuts[0::2], cuts[1::2]
    ln = end - off
    style = int(rng.integers(4))
    if style == 0 and nr:
        # ranges which fill the whole array
        b = np.concatenate([[0], np.sort(rng.integers(0, n + 1, size=nr - 1)), [n]]).astype(int)
        off, ln = b[:-1], np.diff(b)
    elif style == 1 and nr:
        ln = np.where(rng.random(nr) < .4, 0, ln)
    tail = [(), (), (3,), (2, 2)][int(rng.integers(4))]
    ot = ["i4", "i8", "u4", "u8", "list"][int(rng.integers(5))]
    o = list(map(int, off)) if ot == "list" else off.astype(ot)
    l = list(map(int, ln)) if ot == "list" else ln.astype(ot)
    what = ["assign", "sum", "sum", "bad"][int(rng.integers(4))]
    t = ["f8", "f4", "i4", "i8", "u1"][int(rng.integers(5))]
    a = rng.integers(0, 5, size=(n,) + tail).astype(t)
    big = rng.random() < .5
    if big:
        # values whose products and sums need all of the type which was asked for
        a = rng.random((n,) + tail).astype(t) if t[0] == "f" else rng.integers(0, min(2**30, np.iinfo(t).max), size=(n,) + tail).astype(t)
    c.f("do:" + what, "ranges:" + ("none" if nr == 0 else "one" if nr == 1 else "many"), "type:" + t, "dims:%d" % (1 + len(tail)))
    if nr and np.any(ln == 0):
        c.f("zero-length-ranges")
    c.d(n=n, offset=list(map(int, off)), length=list(map(int, ln)), what=what, type=t, tail=tail)
    if nr == 0:
        c.f("trivial")
    if what == "assign":
        v = rng.integers(50, 100, size=(nr,) + tail).astype(t)
        want = a.copy()
        for i in range(nr):
            want[off[i]:off[i] + ln[i]] = v[i]
        c.go()
        assign_ranges(a, o, l, v)
        expect(np.array_equal(a, want), lambda: "assign_ranges gave %s instead of %s" % (a.tolist(), want.tolist()), "assign")
        return
    if what == "bad":
        # overlapping ranges, ranges out of order or past the end have to be refused, and disagreeing lengths
        if nr < 2:
            return
        bad = ["overlap", "past-end", "lengths", "order", "dims"][int(rng.integers(5))]
        o2, l2 = np.array(off), np.array(ln)
        k = int(rng.integers(nr - 1))
        v = np.arange(nr)
        if bad == "overlap":
            l2[k] = o2[k + 1] - o2[k] + 1 + int(rng.integers(2))
        elif bad == "past-end":
            l2[-1] = n - o2[-1] + 1 + int(rng.integers(3))
        elif bad == "lengths":
            v = v[:-1]
        elif bad == "dims":
            both = rng.random() < .4
            if both or rng.random() < .5:
                o2 = np.repeat(o2[:, None], 1 + int(rng.integers(2)), axis=1)
            if both or o2.ndim == 1:
                l2 = np.repeat(l2[:, None], 1 + int(rng.integers(2)), axis=1)
        else:
            if ln[0] == 0 and ln[-1] == 0 or off[0] == off[-1]:
                return
            o2, l2 = o2[::-1].copy(), l2[::-1].copy()
            if np.all(o2[1:] >= o2[:-1] + l2[:-1]):
                return
        c.f("bad:" + bad)
        b = np.zeros(n, int)
        c.go()
        try:
            assign_ranges(b, o2, l2, v)
        except ValueError:
            return
        raise Bad("assign_ranges accepted bad ranges (%s): offset %s length %s for %d elements" % (bad, o2.tolist(), l2.tolist(), n), "bad:" + bad)
    dt = None if rng.random() < .5 else np.dtype(["f8", "i8"][int(rng.integers(2))])
    w = rng.integers(1, 4, size=n).astype(["f8", "i4", "f4"][int(rng.integers(3))]) if rng.random() < .5 else None
    if w is not None and big:
        w = (rng.random(n) + .1).astype(w.dtype) if w.dtype.kind == "f" else rng.integers(1, 2**20, size=n).astype("i4")
    norm = rng.random() < .4
    use = np.dtype(t) if dt is None else dt
    if norm and use.kind != "f":
        norm = False
    keep = a.copy()
    c.go()
    if nr == 0 and w is None and norm:
        norm = False
    kw = dict(dtype=dt, weight=w, normalize=norm)
    for k in list(kw):
        if (kw[k] is None or kw[k] is False) and rng.random() < .5:
            del kw[k]       # its default
    got = sum_ranges(a, o, l, **kw)
    want = np.zeros((nr,) + tail, use)
    for i in range(nr):
        s = slice(off[i], off[i] + ln[i])
        if ln[i] == 0:
            continue
        x = a[s].astype(use)
        if w is not None:
            x = (x.T * w[s].astype(use)).T
        x = x.sum(axis=0, dtype=use)
        if norm:
            x = x / (ln[i] if w is None else w[s].astype(use).sum())
        want[i] = x
    c.f("weighted" if w is not None else "unweighted", "normalized" if norm else "sum")
    expect(got.shape == want.shape and got.dtype == use, "result has shape %s type %s instead of %s %s" % (got.shape, got.dtype, want.shape, use), "sum")
    ok = np.array_equal(got, want) if use.kind != "f" else np.allclose(got, want, rtol=1e-5 if use.itemsize == 4 else 1e-12, atol=0)
    expect(ok, lambda: "sum_ranges gave %s instead of %s" % (got.tolist(), want.tolist()), "sum")
    expect(np.array_equal(a, keep), "the input was changed", "input")


# -- peano-hilbert keys -------------------------------------------------------
# Gadget's definition of the curve, as independent reference.
Q = [0, 7, 1, 6, 3, 4, 2, 5, 7, 4, 6, 5, 0, 3, 1, 2, 4, 3, 5, 2, 7, 0, 6, 1, 3, 0, 2, 1, 4, 7, 5, 6, 1, 0, 6, 7, 2, 3, 5, 4, 0, 3, 7, 4, 1, 2,
     6, 5, 3, 2, 4, 5, 0, 1, 7, 6, 2, 1, 5, 6, 3, 0, 4, 7, 6, 1, 7, 0, 5, 2, 4, 3, 1, 2, 0, 3, 6, 5, 7, 4, 2, 5, 3, 4, 1, 6, 0, 7, 5, 6, 4, 7,
     2, 1, 3, 0, 7, 6, 0, 1, 4, 5, 3, 2, 6, 5, 1, 2, 7, 4, 0, 3, 5, 4, 2, 3, 6, 7, 1, 0, 4, 7, 3, 0, 5, 6, 2, 1, 6, 7, 5, 4, 1, 0, 2, 3, 7, 0,
     4, 3, 6, 1, 5, 2, 0, 1, 3, 2, 7, 6, 4, 5, 1, 6, 2, 5, 0, 7, 3, 4, 2, 3, 1, 0, 5, 4, 6, 7, 3, 4, 0, 7, 2, 5, 1, 6, 4, 5, 7, 6, 3, 2, 0, 1,
     5, 2, 6, 1, 4, 3, 7, 0]
RX = [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0, 1, 2, 3, 17, 18, 19, 16, 23, 20, 21, 22]
RY = [1, 2, 3, 0, 16, 17, 18, 19, 11, 8, 9, 10, 22, 23, 20, 21, 14, 15, 12, 13, 4, 5, 6, 7]
NX, NY, SE = [3, 0, 0, 2, 2, 0, 0, 1], [0, 1, 1, 2, 2, 3, 3, 0], [-1, -1, -1, 1, 1, -1, -1, -1]


def ref_key(x, y, z, bits):
    key, rot, sense = 0, 0, 1
    for b in range(bits - 1, -1, -1):
        q = Q[rot * 8 + 4 * ((x >> b) & 1) + 2 * ((y >> b) & 1) + ((z >> b) & 1)]
        key = key * 8 + (q if sense == 1 else 7 - q)
        sense *= SE[q]
        for _ in range(NX[q]):
            rot = RX[rot]
        for _ in range(NY[q]):
            rot = RY[rot]
    return key


def c_lib(scratch):
    """The C routine of the examples (keys of up to 10 bits per dimension), under UBSan."""
    from vf.core import REPO
    out = os.path.join(os.path.dirname(scratch), "peano.so")
    if not os.path.exists(out):
        p = subprocess.run(["gcc", "-O1", "-w", "-fsanitize=undefined", "-fno-sanitize-recover=undefined", "-static-libubsan", "-shared", "-fPIC", "-o", out,
                            os.path.join(REPO, "examples/millennium/fortran/peano_keys.c")], capture_output=True, text=True)
        if p.returncode:
            raise Bad("examples/millennium/fortran/peano_keys.c does not compile: " + p.stderr[-300:], "build")
    return ctypes.CDLL(out)


def cells(P, k, bits):
    out = P.peano_hilbert_key_inverses(k, bits)
    expect(len(out) == 3 and all(q.shape == k.shape and q.dtype.kind in "iu" for q in out),
           lambda: "cells of keys have types %s" % [str(q.dtype) for q in out], "type")
    return out


def c_peano(c, rng, tier, index, scratch, opts):
    from virgo.util import peano as P
    mode = ["random", "random", "whole", "curve", "coords", "cexample", "blocks"][int(rng.integers(7))]
    bits = int(rng.integers(1, 22))
    c.f("mode:" + mode)
    if mode == "whole":
        bits = int(rng.integers(1, 5 if tier == "quick" else 7))
        g = np.indices((2**bits,) * 3).reshape(3, -1)
        x, y, z = g
        c.go()
        k = P.peano_hilbert_keys(x, y, z, bits)
        expect(np.array_equal(np.sort(k), np.arange(8**bits)), "the keys of all cells are not a permutation (%d bits)" % bits, "bijection")
        o = np.argsort(k)
        d = np.abs(np.diff(x[o])) + np.abs(np.diff(y[o])) + np.abs(np.diff(z[o]))
        expect(np.all(d == 1), "cells with consecutive keys are not neighbours (%d bits)" % bits, "adjacent")
        a, b, e = cells(P, k, bits)
        expect(np.array_equal(a, x) and np.array_equal(b, y) and np.array_equal(e, z), "inverse of the key is another cell", "inverse")
        n = len(k)
    elif mode == "curve":
        n = int(rng.integers(2, 500))
        start = int(rng.integers(0, max(1, 8**bits - n)))
        k = np.arange(start, min(8**bits, start + n), dtype=np.int64)
        c.go()
        x, y, z = (q.astype(int) for q in cells(P, k, bits))
        d = np.abs(np.diff(x)) + np.abs(np.diff(y)) + np.abs(np.diff(z))
        expect(np.all(d == 1), "cells with consecutive keys are not neighbours (%d bits)" % bits, "adjacent")
        expect(np.array_equal(P.peano_hilbert_keys(x, y, z, bits), k), "key of the inverse is another key (%d bits)" % bits, "inverse")
        c.n("keys", len(k))
    elif mode == "coords":
        n = int(rng.integers(1, 300))
        box = float(10.0 ** rng.uniform(-2, 4))
        t = ["f4", "f8"][int(rng.integers(2))]
        pos = (rng.random((n, 3)) * box).astype(t)
        bits = min(bits, 20)
        c.go()
        k = P.peano_hilbert_keys_from_coords(pos, box, bits)
        cell = box / 2.0**bits
        for i in range(min(n, 40)):
            # a position within rounding error (of its own type) of a face may go to either cell
            g = []
            for v in pos[i]:
                q = float(v) / cell
                e = 4 * float(np.finfo(t).eps) * q
                g.append(sorted({f(int(np.floor(u))) for u in (q - e, q, q + e) for f in (lambda v: min(max(v, 0), 2**bits - 1), lambda v: v % 2**bits)}))
            alt = {ref_key(a, b, d, bits) for a in g[0] for b in g[1] for d in g[2]}
            expect(int(k[i]) in alt, lambda: "key of position %s (box %r, %d bits) is %d, not %s" % (pos[i], box, bits, k[i], alt), "coords")
    elif mode == "cexample":
        lib = c_lib(scratch)
        bits = int(rng.integers(1, 11))
        n = 50
        I = ctypes.c_int
        x, y, z = rng.integers(0, 2**bits, size=(3, n))
        c.go()
        k = P.peano_hilbert_keys(x, y, z, bits)
        a, b, e = cells(P, k, bits)
        for i in range(n):
            kk = lib.peano_hilbert_key_(ctypes.byref(I(int(x[i]))), ctypes.byref(I(int(y[i]))), ctypes.byref(I(int(z[i]))), ctypes.byref(I(bits)))
            expect(kk == k[i], "the C example gives key %d and Python %d for cell %s of %d bits" % (kk, k[i], (x[i], y[i], z[i]), bits), "c-example")
            u, v, w = I(), I(), I()
            lib.peano_hilbert_key_inverse_(ctypes.byref(I(int(k[i]))), ctypes.byref(I(bits)), ctypes.byref(u), ctypes.byref(v), ctypes.byref(w))
            expect((u.value, v.value, w.value) == (a[i], b[i], e[i]) == (x[i], y[i], z[i]), "inverse of key %d differs: C %s, Python %s, cell %s" % (
                k[i], (u.value, v.value, w.value), (a[i], b[i], e[i]), (x[i], y[i], z[i])), "c-example")
        c.n("keys", n)
    else:
        n = int(rng.integers(1, 100)) if mode == "random" else int(rng.integers(9990, 20020))
        x, y, z = rng.integers(0, 2**bits, size=(3, n))
        t = [np.int32, np.int64, np.uint32][int(rng.integers(3))]
        x, y, z = x.astype(t), y.astype(t), z.astype(t)
        kx = x.copy()
        c.go()
        k = P.peano_hilbert_keys(x, y, z, bits)
        expect(k.shape == (n,) and k.dtype == np.int64, "keys have the wrong shape or type", "type")
        for i in (range(n) if mode == "random" else [0, 9998, 9999] + [int(q) for q in rng.integers(0, n, size=60)]):
            if i < n:
                w = ref_key(int(x[i]), int(y[i]), int(z[i]), bits)
                expect(int(k[i]) == w, lambda: "key of cell %s with %d bits is %d, not %d" % ((x[i], y[i], z[i]), bits, k[i], w), "value")
        a, b, e = cells(P, k, bits)
        expect(np.array_equal(a, x) and np.array_equal(b, y) and np.array_equal(e, z), "inverse of the key is another cell (%d bits)" % bits, "inverse")
        if mode == "random":
            j = int(rng.integers(n))
            s = P.peano_hilbert_keys_block(int(x[j]), int(y[j]), int(z[j]), bits)
            expect(int(s) == int(k[j]), "a single cell has another key than in an array", "scalar")
            r = P.peano_hilbert_key_inverses_block(int(k[j]), bits)
            expect(tuple(int(q) for q in r) == (int(x[j]), int(y[j]), int(z[j])), "inverse of a single key differs", "scalar")
        expect(np.array_equal(kx, x), "the input was changed", "input")
        c.n("keys", n)
    c.f("bits:%d" % bits)
    c.d(mode=mode, bits=bits)


# -- partial formatter ---------------------------------------------------------

class Obj:
    def __init__(self, v):
        self.val = v
        self.items = [v, str(v)]

    def __repr__(self):
        return "Obj<%s>" % self.val
    __str__ = __repr__


def c_formatter(c, rng, tier, index, scratch, opts):
    from virgo.util.partial_formatter import PartialFormatter
    names = ["a", "snap_nr", "file_nr", "x1", "Ω"]
    vals = dict(a=int(rng.integers(-5, 200)), snap_nr=int(rng.integers(0, 1000)), file_nr=float(rng.normal() * 100), x1="text", Ω=Obj(3))
    if rng.random() < .4:
        # values which are false are values all the same
        vals.update(a=0, snap_nr=False if rng.random() < .3 else 0, file_nr=0.0, x1=["", "", "None"][int(rng.integers(3))])
        c.f("false-values")
    ignore = bool(rng.random() < .5)
    status = {}
    for n in names:
        status[n] = ["given", "none", "absent"][int(rng.choice(3, p=[.5, .25, .25]))] if ignore else ["given", "none"][int(rng.random() < .4)]
    pos = [int(rng.integers(100)), "p"]
    fmt, want = "", ""
    absent_used = False
    auto = rng.random() < .5
    nauto = 0
    for _ in range(int(rng.integers(1, 9))):
        r = rng.random()
        if r < .35:
            t = ["/path/", "snap_", " ", ".", "{{", "}}", "{{{{lit}}}}", "%d", "é", ".hdf5", "0"][int(rng.integers(11))]
            fmt += t
            want += t.replace("{{", "{").replace("}}", "}")
            continue
        if r < .45:
            if auto and nauto < 2:
                fmt += "{}"
                want += str(pos[nauto])
                nauto += 1
            elif not auto:
                k = int(rng.integers(2))
                fmt += "{%d}" % k
                want += str(pos[k])
            continue
        n = names[int(rng.integers(len(names)))]
        field = n
        v = vals[n]
        conv = ["", "", "", "!r", "!s", "!a"][int(rng.integers(6))]
        acc = ""
        if n == "Ω":
            acc = ["", ".val", ".items[0]", ".items[1]"][int(rng.integers(4))]
        specs = {"a": ["", ":03d", ":x", ":>6"], "snap_nr": ["", ":04d", ":03d", ":<5d"], "file_nr": ["", ":.2f", ":10.3e", ":+.1f"], "x1": ["", ":>8", ":s"], "Ω": [""]}[n]
        spec = specs[int(rng.integers(len(specs)))]
        if conv and spec:
            spec = ":>12"
        whole = "{" + field + acc + conv + spec + "}"
        fmt += whole
        if status[n] == "given":
            want += whole.format(**{n: v})
            c.n("substituted")
        else:
            want += whole
            c.n("left")
            c.f("left:" + ("conversion" if conv else "access" if acc else "spec" if spec else "plain"))
    kw = {n: vals[n] for n in names if status[n] == "given"}
    kw.update({n: None for n in names if status[n] == "none"})
    c.f("ignore_missing" if ignore else "strict")
    c.d(format=fmt, status=status, expected=want)
    c.go()
    p = PartialFormatter(ignore_missing=ignore) if ignore or rng.random() < .5 else PartialFormatter()
    got = p.format(fmt, *pos, **kw)
    expect(got == want, lambda: "format(%r) with %s gave %r instead of %r" % (fmt, status, got, want), "format")
    # what is left can be filled in later
    if "{{" not in fmt and "}}" not in fmt and all(status[n] != "given" for n in ()):
        later = got.format(*pos, **vals)
        full = fmt.format(*pos, **vals)
        expect(later == full, "filling in the rest later gave %r instead of %r" % (later, full), "later")
        c.f("two-steps")
    if not ignore:
        try:
            p.format("{not_there}", **kw)
        except KeyError:
            pass
        else:
            raise Bad("a missing key did not raise KeyError with ignore_missing=False", "strict")


# -- read_multi ------------------------------------------------------------------

def c_multi(c, rng, tier, index, scratch, opts):
    import h5py
    from virgo.util.read_multi import read_multi
    from virgo.util.read_binary import BinaryFile
    nf = int(rng.integers(1, 8))
    binary = rng.random() < .5
    axis = int(rng.choice([0, 0, 0, 1]))
    names = ["p", "g/q", "r"]
    tails = {n: ([(), (3,), (2, 2)][int(rng.integers(3))] if axis == 0 else (int(rng.integers(1, 4)),)) for n in names}
    types = {n: np.dtype(["i4", "f8", "u8", "f4"][int(rng.integers(4))]) for n in names}
    fixed = {n: int(rng.integers(1, 6)) for n in names}
    data = {}
    first = int(rng.integers(0, 3))
    fmt = os.path.join(scratch, ["f.%(i)d", "snap_%(i)03d.x"][int(rng.integers(2))])
    for i in range(first, first + nf):
        data[i] = {}
        for n in names:
            if rng.random() < .3 and not (i == first + nf - 1 and all(n not in data[k] for k in data if k != i)):
                continue
            m = int(rng.integers(0, 8))
            shape = ((m,) + tails[n]) if axis == 0 else (fixed[n], m)
            data[i][n] = (rng.random(shape) * 100).astype(types[n])
    e = "<>"[int(rng.integers(2))]
    for i in data:
        if binary:
            with open(fmt % {"i": i}, "wb") as fo:
                fo.write(np.asarray([77], e + "i4").tobytes())
                for n in names:
                    if n in data[i]:
                        fo.write(data[i][n].astype(types[n].newbyteorder(e)).tobytes())
        else:
            with h5py.File(fmt % {"i": i}, "w") as h:
                for n in data[i]:
                    h[n] = data[i][n]

    class F(BinaryFile):
        def __init__(self, fname, *args, endian="="):
            BinaryFile.__init__(self, fname)
            expect(args == xargs, "positional arguments were not passed on: %r" % (args,), "args")
            self.set_endian(endian)
            i = [k for k in data if fmt % {"i": k} == fname][0]
            self.add_attribute("n", np.int32)
            for n in names:
                if n in data[i]:
                    self.add_dataset(n, types[n], data[i][n].shape)
    xargs = (5, "x") if rng.random() < .3 else ()
    idx = [int(x) for x in rng.permutation(list(data))] if rng.random() < .5 else list(data)
    if rng.random() < .3:
        idx = idx[:max(1, len(idx) - 1)]
    ask = [n for n in names if any(n in data[i] for i in idx)]
    ask = [ask[int(k)] for k in rng.permutation(len(ask))]
    c.f("binary" if binary else "hdf5", "axis:%d" % axis)
    if any(n not in data[i] for i in idx for n in ask):
        c.f("missing-datasets")
    c.d(files=len(idx), datasets=ask, binary=binary, axis=axis)
    if not ask:
        c.f("trivial")
        return
    c.go()
    if binary:
        res = read_multi(fmt, np.asarray(idx) if rng.random() < .5 else idx, ask, F, axis, *xargs, endian=e)
    else:
        res = read_multi(fmt, idx, ask, axis=axis)
    expect(list(res) == ask, "result has keys %s instead of %s" % (list(res), ask), "keys")
    for n in ask:
        want = np.concatenate([data[i][n] for i in idx if n in data[i]], axis=axis)
        expect(res[n].dtype == want.dtype and np.array_equal(res[n], want), lambda: "%s over files %s is %r instead of %r" % (n, idx, res[n], want), "data")
        c.n("elements", want.size)
