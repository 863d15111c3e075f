"""
The simulation file formats, written independently of the readers: each
function builds the bytes of a file (either byte order) and the list of what a
reader must find in it.
"""
import os
import numpy as np
from vf.w_binary import rand_data, same


def gas(n):
    return (n, 3)


class Out:
    """A file under construction: its bytes and what must be read back."""

    def __init__(self, endian):
        self.e, self.buf, self.dsets, self.attrs = endian, bytearray(), {}, {}
        self.marks, self.start, self.ends = [], None, []

    def raw(self, a, dt=None):
        a = np.asarray(a) if dt is None else np.asarray(a, dtype=dt)
        self.buf += np.ascontiguousarray(a).astype(a.dtype.newbyteorder(self.e)).tobytes()
        return a.astype(a.dtype.newbyteorder("="))

    def d(self, name, a, dt=None):
        self.dsets[name] = self.raw(a, dt)

    def a(self, name, a, dt=None):
        self.attrs[name] = self.raw(a, dt)

    def begin(self):
        self.marks.append(len(self.buf))
        self.buf += b"\0\0\0\0"

    def end(self):
        at = self.marks[-1]
        n = np.array(len(self.buf) - at - 4, dtype="i4").astype(self.e + "i4").tobytes()
        self.buf[at:at + 4] = n
        self.marks.append(len(self.buf))
        self.buf += n
        self.ends.append(len(self.buf))

    def rec(self, name, a, dt=None):
        self.begin()
        self.d(name, a, dt)
        self.end()

    def write(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(self.buf)
        return path


def walk(f, at=""):
    """Names of all datasets of an open file."""
    out = set()
    for k in f:
        o = f[k]
        if hasattr(o, "datasets"):
            out |= walk(o, at + k + "/")
        else:
            out.add(at + k)
    return out


def compare(expect, f, out, rng, what):
    names = walk(f)
    for n, w in out.dsets.items():
        expect(n in names, lambda: "%s: dataset %s is missing" % (what, n), "missing")
        g = f[n][...]
        expect(same(g, w), lambda: "%s: dataset %s is read as %s %s %s, the file has %s %s %s" % (
            what, n, g.dtype, g.shape, str(g)[:80], w.dtype, w.shape, str(w)[:80]), "value")
        expect(tuple(f[n].shape) == w.shape, "%s: shape of %s is %s, not %s" % (what, n, f[n].shape, w.shape), "shape")
        if w.shape and w.shape[0] > 1:
            a, b = sorted(int(x) for x in rng.integers(0, w.shape[0] + 1, size=2))
            expect(same(f[n][a:b], w[a:b]), "%s: rows %d to %d of %s are wrong" % (what, a, b, n), "value")
    extra = names - set(out.dsets)
    expect(not extra, lambda: "%s: datasets %s are not in the file" % (what, sorted(extra)), "extra")
    for n, w in out.attrs.items():
        g, k = n.rsplit("/", 1)
        v = f[g].attrs[k]
        v = np.asarray(v, dtype=w.dtype) if w.dtype.kind == "S" and isinstance(v, bytes) else v
        expect(same(np.asarray(v), w), lambda: "%s: attribute %s is read as %r, the file has %r" % (what, n, v, w), "attribute")


def count(rng, lo=0, hi=40):
    r = rng.random()
    return lo if r < .12 else (lo + 1 if r < .2 else int(rng.integers(lo, hi)))


def ntask(rng):
    """Number of files: the readers find the byte order from it."""
    return int(rng.choice([1, 2, 8, 255, 256, 257, 512, 4096, 32768, 65280, 65535])) if rng.random() < .6 else int(rng.integers(1, 65536))


def rd(rng, dt, *shape):
    return rand_data(rng, np.dtype(dt), shape)


U = {4: "u4", 8: "u8"}
F = {4: "f4", 8: "f8"}
SO = ["Mean200", "Crit200", "TopHat200"]


# -- Gadget snapshots --------------------------------------------------------
def gadget_header(o, npart, massarr, total=None, nfiles=1, rng=None, box=100.0, **kw):
    tot = np.asarray(npart if total is None else total, dtype=np.int64)
    o.begin()
    o.a("Header/NumPart_ThisFile", npart, "i4")
    o.a("Header/MassTable", massarr, "f8")
    o.a("Header/Time", rng.random(), "f8")
    o.a("Header/Redshift", rng.random() * 20, "f8")
    o.a("Header/Flag_Sfr", int(rng.integers(2)), "i4")
    o.a("Header/Flag_Feedback", int(rng.integers(2)), "i4")
    o.a("Header/NumPart_Total", tot & 0xffffffff, "u4")
    o.a("Header/Flag_Cooling", int(rng.integers(2)), "i4")
    o.a("Header/NumFilesPerSnapshot", nfiles, "i4")
    o.a("Header/BoxSize", box, "f8")
    o.a("Header/Omega0", rng.random(), "f8")
    o.a("Header/OmegaLambda", rng.random(), "f8")
    o.a("Header/HubbleParam", rng.random(), "f8")
    o.a("Header/Flag_StellarAge", int(rng.integers(2)), "i4")
    o.a("Header/Flag_Metals", int(rng.integers(2)), "i4")
    o.a("Header/NumPart_Total_HighWord", tot >> 32, "u4")
    o.raw(rng.integers(0, 256, size=256 - (24 + 48 + 16 + 8 + 24 + 8 + 32 + 8 + 24)).astype("u1"))
    o.end()


def gadget_block(o, npart, name, ptypes, arrays):
    """One record with the given arrays of the particle types which have it; nothing if there are no such particles."""
    if not any(npart[i] for i in range(6) if ptypes[i]):
        return False
    o.begin()
    for i in range(6):
        if ptypes[i] and npart[i]:
            o.d("PartType%d/%s" % (i, name), arrays[i])
    o.end()
    return True


def gadget_snapshot(rng, e, npart, massarr, total=None, nfiles=1, data=None, blocks=99, extra=(), box=100.0):
    """data: {(type, name): array} to use rather than random values."""
    o = Out(e)
    npart = [int(n) for n in npart]
    gadget_header(o, npart, massarr, total, nfiles, rng, box)
    allp = [True] * 6
    gasp = [True] + [False] * 5
    todo = [("Coordinates", "f", (3,), allp), ("Velocities", "f", (3,), allp), ("ParticleIDs", "i", (), allp),
            ("Masses", "f", (), [m == 0 for m in massarr]), ("InternalEnergy", "f", (), gasp), ("Density", "f", (), gasp),
            ("SmoothingLength", "f", (), gasp)] + [(n, {"float": "f", "int": "i"}[t], tuple(s), [bool(p) for p in pt]) for n, t, s, pt in extra]
    done = 0
    for name, k, shape, pt in todo:
        if done >= max(3, blocks):
            break
        dt = k + str([4, 8][int(rng.integers(2))])
        arrs = {}
        for i in range(6):
            if pt[i] and npart[i]:
                a = None if data is None else data.get((i, name))
                if a is None:
                    a = rd(rng, dt, npart[i], *shape)
                elif data is not None and (i, name) in data:
                    dt = a.dtype
                arrs[i] = a
        done += gadget_block(o, npart, name, pt, arrs)
    return o


# -- L-Gadget2 (Millennium) --------------------------------------------------
def lg2_group_tab(rng, e, n=None, cols=None):
    n = count(rng) if n is None else n
    cols = cols or {}
    o = Out(e)
    m = int(rng.integers(0, 30))
    o.d("Ngroups", n, "i4")
    o.d("Nids", cols.get("Nids", rd(rng, "i4")), "i4")
    o.d("TotNgroups", rd(rng, "i4"), "i4")
    o.d("NTask", ntask(rng), "i4")
    o.d("GroupLen", cols.get("GroupLen", rd(rng, "i4", n)), "i4")
    o.d("GroupOffset", cols.get("GroupOffset", rd(rng, "i4", n)), "i4")
    o.d("GroupMinLen", m, "i4")
    o.d("Count", rd(rng, "i4", m), "i4")
    return o


def lg2_ids(rng, e, idb, files, ids=None):
    n = count(rng) if ids is None else len(ids)
    o = Out(e)
    o.d("Ngroups", rd(rng, "i4"), "i4")
    o.d("Nids", n, "i4")
    o.d("TotNgroups", rd(rng, "i4"), "i4")
    o.d(files, ntask(rng), "i4")
    o.d("GroupIDs", rd(rng, U[idb], n) if ids is None else ids, U[idb])
    return o


def lg2_sub_tab(rng, e, idb, n=None, ns=None, cols=None):
    n = count(rng) if n is None else n
    ns = count(rng) if ns is None else ns
    cols = cols or {}
    o = Out(e)
    g = lambda k, t, *s: cols[k] if k in cols else rd(rng, t, *s)
    o.d("Ngroups", n, "i4")
    o.d("Nids", g("Nids", "i4"), "i4")
    o.d("TotNgroups", rd(rng, "i4"), "i4")
    o.d("NFiles", ntask(rng), "i4")
    o.d("Nsubhalos", ns, "i4")
    for k in ("NsubPerHalo", "FirstSubOfHalo"):
        o.d(k, g(k, "i4", n), "i4")
    for k in ("SubLen", "SubOffset", "SubParentHalo"):
        o.d(k, g(k, "i4", ns), "i4")
    for s in SO:
        for q in "MR":
            o.d("Halo_%s_%s" % (q, s), g("Halo_%s_%s" % (q, s), "f4", n), "f4")
    for k, v in (("SubPos", 3), ("SubVel", 3), ("SubVelDisp", 0), ("SubVmax", 0), ("SubSpin", 3)):
        o.d(k, g(k, "f4", *([ns, v] if v else [ns])), "f4")
    o.d("SubMostBoundID", g("SubMostBoundID", U[idb], ns), U[idb])
    o.d("SubHalfMass", g("SubHalfMass", "f4", ns), "f4")
    return o


def lg2_snapshot(rng, e, n=None, first=0, blockid=None, cols=None, nfiles=1, box=None, nhash=None, total=None):
    cols = cols or {}
    n = count(rng) if n is None else n
    o = Out(e)
    tot = n if total is None else total
    o.begin()
    o.a("Header/NumPart_ThisFile", [0, n, 0, 0, 0, 0], "u4")
    o.a("Header/MassTable", rd(rng, "f8", 6), "f8")
    o.a("Header/Time", rng.random(), "f8")
    o.a("Header/Redshift", rng.random(), "f8")
    o.a("Header/Flag_Sfr", int(rng.integers(2)), "i4")
    o.a("Header/Flag_Feedback", int(rng.integers(2)), "i4")
    o.a("Header/NumPart_Total", [0, tot & 0xffffffff, tot >> 32, 0, 0, 0], "u4")
    o.a("Header/Flag_Cooling", int(rng.integers(2)), "i4")
    o.a("Header/NumFilesPerSnapshot", nfiles, "i4")
    o.a("Header/BoxSize", rng.random() * 1000 if box is None else box, "f8")
    for k in ("Omega0", "OmegaLambda", "HubbleParam"):
        o.a("Header/" + k, rng.random(), "f8")
    o.a("Header/Flag_StellarAge", int(rng.integers(2)), "i4")
    o.a("Header/Flag_Metals", int(rng.integers(2)), "i4")
    o.a("Header/HashTabSize", 8**int(rng.integers(1, 8)) if nhash is None else nhash, "i4")
    o.a("Header/fill", rd(rng, "u1", 84), "u1")
    o.end()
    o.rec("PartType1/Coordinates", cols.get("Coordinates", rd(rng, "f4", n, 3)), "f4")
    o.rec("PartType1/Velocities", cols.get("Velocities", rd(rng, "f4", n, 3)), "f4")
    o.rec("PartType1/ParticleIDs", cols.get("ParticleIDs", rd(rng, "u8", n)), "u8")
    b = np.sort(rng.integers(0, n + 1, size=int(rng.integers(1, 20)))) if blockid is None else blockid
    o.begin()
    o.d("first_hash_cell", first, "i4")
    o.d("last_hash_cell", first + len(b) - 1, "i4")
    o.end()
    o.rec("blockid", b, "i4")
    return o


# -- L-Gadget3 (MXXL, P-Millennium) ------------------------------------------
def lg3_sub_tab(rng, e, fb, disp, shapes, n=None, ns=None, cols=None):
    n = count(rng) if n is None else n
    ns = count(rng) if ns is None else ns
    cols = cols or {}
    f = F[fb]
    o = Out(e)

    def put(k, t, *s):
        o.d(k, cols[k] if k in cols else rd(rng, t, *s), t)
    o.d("Ngroups", n, "i4")
    put("TotNgroups", "i8")
    put("Nids", "i4")
    put("TotNids", "i8")
    o.d("NTask", ntask(rng), "i4")
    o.d("Nsubgroups", ns, "i4")
    put("TotNsubgroups", "i8")
    put("GroupLen", "i4", n)
    put("GroupOffset", "i4", n)
    put("GroupNr", "i8", n)
    for k in ("GroupCofM", "GroupVel", "GroupPos"):
        put(k, f, n, 3)
    for s in SO:
        put("Halo_M_" + s, f, n)
    put("GroupVelDisp", f, n)
    if disp:
        for s in SO:
            put("VelDisp_" + s, f, n)
    put("Nsubs", "i4", n)
    put("FirstSub", "i4", n)
    put("SubLen", "i4", ns)
    put("SubOffset", "i4", ns)
    put("SubGrNr", "i8", ns)
    put("SubNr", "i8", ns)
    for k in ("SubPos", "SubVel", "SubCofM", "SubSpin"):
        put(k, f, ns, 3)
    for k in ("SubVelDisp", "SubVmax", "SubRVmax", "SubHalfMass"):
        put(k, f, ns)
    if shapes:
        put("SubShape", f, ns, 6)
    put("SubBindingEnergy", f, ns)
    put("SubPotentialEnergy", f, ns)
    put("SubProfile", f, ns, 9)
    return o


def lg3_ids(rng, e, idb, ids=None):
    n = count(rng) if ids is None else len(ids)
    o = Out(e)
    o.d("Ngroups", rd(rng, "i4"), "i4")
    o.d("TotNgroups", rd(rng, "i8"), "i8")
    o.d("Nids", n, "i4")
    o.d("TotNids", rd(rng, "i8"), "i8")
    o.d("NTask", ntask(rng), "i4")
    o.d("NidsPrevious", rd(rng, "i8"), "i8")
    o.d("GroupIDs", rd(rng, U[idb], n) if ids is None else ids, U[idb])
    return o


# -- P-Gadget3 (Millennium-2, Aquarius, Phoenix) ------------------------------
def pg3_ids(rng, e, idb, ids=None):
    n = count(rng) if ids is None else len(ids)
    o = Out(e)
    o.d("Ngroups", rd(rng, "i4"), "i4")
    o.d("TotNgroups", rd(rng, "i4"), "i4")
    o.d("Nids", n, "i4")
    o.d("TotNids", rd(rng, "i8"), "i8")
    o.d("NTask", ntask(rng), "i4")
    o.d("SendOffset", rd(rng, "i4"), "i4")
    o.d("GroupIDs", rd(rng, U[idb], n) if ids is None else ids, U[idb])
    return o


def pg3_group_tab(rng, e, fb, n=None, cols=None):
    n = count(rng) if n is None else n
    cols = cols or {}
    f = F[fb]
    o = Out(e)

    def put(k, t, *s):
        o.d(k, cols[k] if k in cols else rd(rng, t, *s), t)
    o.d("Ngroups", n, "i4")
    put("TotNgroups", "i4")
    put("Nids", "i4")
    put("TotNids", "i8")
    o.d("NTask", ntask(rng), "i4")
    put("GroupLen", "i4", n)
    put("GroupOffset", "u4", n)
    put("GroupMass", f, n)
    put("GroupCofM", f, n, 3)
    put("GroupVel", f, n, 3)
    put("GroupLenType", "i4", n, 6)
    put("GroupMassType", f, n, 6)
    return o


def pg3_sub_tab(rng, e, idb, fb, disp, n=None, ns=None, cols=None, nt=None):
    n = count(rng) if n is None else n
    ns = count(rng) if ns is None else ns
    cols = cols or {}
    f = F[fb]
    o = Out(e)

    def put(k, t, *s):
        o.d(k, cols[k] if k in cols else rd(rng, t, *s), t)
    o.d("Ngroups", n, "i4")
    put("TotNgroups", "i4")
    put("Nids", "i4")
    put("TotNids", "i8")
    o.d("NTask", ntask(rng) if nt is None else nt, "i4")
    o.d("Nsubgroups", ns, "i4")
    put("TotNsubgroups", "i4")
    put("GroupLen", "i4", n)
    put("GroupOffset", "u4", n)
    put("GroupMass", f, n)
    put("GroupPos", f, n, 3)
    for s in SO:
        put("Halo_M_" + s, f, n)
        put("Halo_R_" + s, f, n)
    if disp:
        for s in SO:
            put("VelDisp_" + s, f, n)
    put("ContaminationLen", "i4", n)
    put("ContaminationMass", f, n)
    put("Nsubs", "i4", n)
    put("FirstSub", "i4", n)
    put("SubLen", "i4", ns)
    put("SubOffset", "i4", ns)
    put("SubParent", "i4", ns)
    put("SubMass", f, ns)
    for k in ("SubPos", "SubVel", "SubCofM", "SubSpin"):
        put(k, f, ns, 3)
    for k in ("SubVelDisp", "SubVmax", "SubRVmax", "SubHalfMass"):
        put(k, f, ns)
    put("SubMostBoundID", U[idb], ns)
    put("SubGrNr", "i4", ns)
    return o


# -- Gadget-4 (COCO) ---------------------------------------------------------
def g4_sub_tab(rng, e, idb, dp, n=None, ns=None, cols=None, nfiles=None):
    n = count(rng) if n is None else n
    ns = count(rng) if ns is None else ns
    cols = cols or {}
    f = "f8" if dp else "f4"
    o = Out(e)
    o.begin()
    o.d("Ngroups", n, "i4")
    o.d("Nsubgroups", ns, "i4")
    for k in ("Nids", "TotNgroups", "TotNsubgroups", "TotNids"):
        o.d(k, rd(rng, "i4"), "i4")
    o.d("NFiles", ntask(rng) if nfiles is None else nfiles, "i4")
    o.d("padding1", rd(rng, "i4"), "i4")
    for k in ("Time", "Redshift", "HubbleParam", "BoxSize", "Omega0", "OmegaLambda"):
        o.d(k, rd(rng, "f8"), "f8")
    o.d("flag_dp", int(rng.integers(1, 3)) if dp else 0, "i4")
    o.d("padding2", rd(rng, "i4"), "i4")
    o.end()

    def put(k, t, *s):
        o.rec(k, cols[k] if k in cols else rd(rng, t, *s), t)
    if n:
        put("GroupLen", "i4", n)
        put("GroupMass", f, n)
        put("GroupPos", f, n, 3)
        put("GroupVel", f, n, 3)
        put("GroupLenType", "i4", n, 6)
        put("GroupMassType", f, n, 6)
        for s in SO:
            put("Halo_M_" + s, f, n)
            put("Halo_R_" + s, f, n)
        put("Nsubs", "i4", n)
        put("FirstSub", "i4", n)
    if ns:
        put("SubLen", "i4", ns)
        put("SubMass", f, ns)
        put("SubPos", f, ns, 3)
        put("SubVel", f, ns, 3)
        put("SubLenType", "i4", ns, 6)
        put("SubMassType", f, ns, 6)
        put("SubCofM", f, ns, 3)
        put("SubSpin", f, ns, 3)
        for k in ("SubVelDisp", "SubVmax", "SubRVmax", "SubHalfMassRad"):
            put(k, f, ns)
        put("SubHalfMassRadType", f, ns, 6)
        put("SubMassInRad", f, ns)
        put("SubMassInRadType", f, ns, 6)
        put("SubMostBoundID", U[idb], ns)
        put("SubGrNr", "i4", ns)
        put("SubParent", "i4", ns)
    return o


# -- structures --------------------------------------------------------------
def struct_dtype(fields, align):
    """The memory layout of a C structure, worked out by hand. fields: [(name, type, shape)]"""
    at, names, fmts, offs, big = 0, [], [], [], 1
    for name, t, *shape in fields:
        s = tuple(shape[0]) if shape else ()
        d = np.dtype(t)
        if align:
            big = max(big, d.itemsize)
            at += -at % d.itemsize
        names.append(name)
        fmts.append((d, s) if s else d)
        offs.append(at)
        at += d.itemsize * int(np.prod(s, dtype=int))
    if align:
        at += -at % big
    return np.dtype(dict(names=names, formats=fmts, offsets=offs, itemsize=at))


def struct_rows(rng, dt, n, cols=None):
    a = np.zeros(n, dt)
    for k in dt.names:
        b = dt[k]
        a[k] = cols[k] if cols and k in cols else rand_data(rng, b.base, (n,) + b.shape)
    return a


def put_rows(o, name, a, dt):
    """Structured rows byte for byte, with random bytes in the padding."""
    o.buf += a.tobytes()
    o.dsets[name] = a


def mpa_tree(rng, idb, masstab):
    nt, nh = count(rng), count(rng)
    o = Out("<")
    o.d("Ntrees", nt, "i4")
    o.d("Nhalos", nh, "i4")
    o.d("NPerTree", rd(rng, "i4", nt), "i4")
    fl = [(k, "i4") for k in ("Descendant", "FirstProgenitor", "NextProgenitor", "FirstHaloInFOFgroup", "NextHaloInFOFgroup", "Len")]
    fl += [(k, "f4") for k in ("M_Mean200", "M_Crit200", "M_TopHat")]
    fl += [("Pos", "f4", (3,)), ("Vel", "f4", (3,)), ("VelDisp", "f4"), ("VMax", "f4"), ("Spin", "f4", (3,)), ("MostBoundID", U[idb])]
    fl += [(k, "i4") for k in ("SnapNum", "FileNr", "SubhaloIndex")] + [("SubhalohalfMass", "f4")]
    if masstab:
        fl.append(("SubMassTab", "f4", (6,)))
    dt = struct_dtype(fl, False)
    put_rows(o, "HaloList", struct_rows(rng, dt, nh), dt)
    return o


def mpa_desc(rng):
    n = count(rng)
    o = Out("<")
    o.d("TotNsubhalos", n, "i4")
    o.d("HaloIndex", rd(rng, "i4", n), "i4")
    o.d("SnapNum", rd(rng, "i4", n), "i4")
    return o


def mpa_aux(rng, idb):
    h, u, t, s = (count(rng, 0, 12) for _ in range(4))
    o = Out("<")
    for k, v in (("TotHalos", h), ("Totunique", u), ("Ntrees", t), ("TotSnaps", s)):
        o.d(k, v, "i4")
    o.d("CountID_Snap", rd(rng, "i4", s), "i4")
    o.d("OffsetID_Snap", rd(rng, "i4", s), "i4")
    o.d("CountID_SnapTree", rd(rng, "i4", s, t), "i4")
    o.d("OffsetID_SnapTree", rd(rng, "i4", s, t), "i4")
    o.d("Nunique", rd(rng, "i4", h), "i4")
    o.d("OffsetID_Halo", rd(rng, "i4", h), "i4")
    o.d("IDs", rd(rng, U[idb], u), U[idb])
    o.d("Pos", rd(rng, "f4", u, 3), "f4")
    o.d("Vel", rd(rng, "f8", u, 3), "f8")
    return o


def rockstar(rng, hydro, revision, n=None, cols=None, ids=None):
    n = count(rng) if n is None else n
    npart = count(rng) if ids is None else len(ids)
    o = Out("<")
    H = lambda k, t, v=None, *s: o.a("Header/" + k, rd(rng, t, *s) if v is None else v, t)
    H("magic", "u8")
    H("snap", "i8")
    H("chunk", "i8")
    for k in ("scale", "om", "ol", "h0"):
        H(k, "f4")
    H("bounds", "f4", None, 6)
    H("num_halos", "i8", n)
    H("num_particles", "i8", npart)
    H("box_size", "f4")
    H("particle_mass", "f4")
    H("particle_type", "i8")
    H("format_revision", "i4", revision)
    o.a("Header/rockstar_version", np.array(b"0.99.9-RC3+"[:int(rng.integers(1, 12))], dtype="S12"))
    o.buf += b"\0" * (256 - len(o.buf))
    fl = [("id", "i8"), ("pos", "f4", (6,)), ("corevel", "f4", (3,)), ("bulkvel", "f4", (3,))]
    fl += [(k, "f4") for k in "m r child_r vmax_r mgrav vmax rvmax rs klypin_rs vrms".split()]
    fl += [("J", "f4", (3,)), ("energy", "f4"), ("spin", "f4"), ("alt_m", "f4", (4,)), ("Xoff", "f4"), ("Voff", "f4"), ("b_to_a", "f4"), ("c_to_a", "f4"),
           ("A", "f4", (3,)), ("b_to_a2", "f4"), ("c_to_a2", "f4"), ("A2", "f4", (3,)), ("bullock_spin", "f4"), ("kin_to_pot", "f4"), ("m_pe_b", "f4"), ("m_pe_d", "f4")]
    if revision >= 2:
        fl.append(("halfmass_radius", "f4"))
    fl += [(k, "i8") for k in "num_p num_child_particles p_start desc flags n_core".split()]
    fl += [(k, "f4") for k in "min_pos_err min_vel_err min_bulkvel_err".split()]
    if hydro:
        fl += [("type", "i4")] + [(k, "f4") for k in "sm gas bh peak_density av_density".split()]
    dt = struct_dtype(fl, True)
    put_rows(o, "Halo", struct_rows(rng, dt, n, cols), dt)
    o.d("IDs", rd(rng, "i8", npart) if ids is None else ids, "i8")
    return o


def velociraptor(rng, keepfof):
    n = count(rng)
    hs = int(rng.integers(0, 60))
    o = Out("<")
    o.a("Header/ThisTask", rd(rng, "i4"), "i4")
    o.a("Header/NProcs", rd(rng, "i4"), "i4")
    o.a("Header/ng", n, "u8")
    o.a("Header/ngtot", rd(rng, "u8"), "u8")
    o.a("Header/hsize", hs, "i8")
    for i in range(hs):
        o.a("Header/entry%03d" % i, np.array(b"Name_%d" % i, dtype="S40"))
    v3, m3 = (3,), (3, 3)
    fl = [(k, "u8") for k in "haloid ibound hostid numsubs num".split()] + [("stype", "u4")]
    if keepfof:
        fl += [("directhostid", "u8"), ("hostfofid", "u8")]
    fl += [(k, "f8", s) for k, s in [("gMvir", ()), ("gcm", v3), ("gpos", v3), ("gcmvel", v3), ("gvel", v3)]]
    fl += [(k, "f8") for k in "gmass gMFOF gM200m gM200c gMvir_again Efrac gRvir gsize gR200m gR200c gRvir_again gRhalfmass gRmaxvel gmaxvel gsigma_v".split()]
    fl += [("gveldisp", "f8", m3), ("glambda_B", "f8"), ("gJ", "f8", v3), ("gq", "f8"), ("gs", "f8"), ("geigvec", "f8", m3), ("cNFW", "f8"), ("Krot", "f8"),
           ("T", "f8"), ("Pot", "f8"), ("RV_sigma_v", "f8"), ("RV_veldisp", "f8", m3), ("RV_lambda_B", "f8"), ("RV_J", "f8", v3), ("RV_q", "f8"),
           ("RV_s", "f8"), ("RV_eigvec", "f8", m3)]
    dt = struct_dtype(fl, False)
    put_rows(o, "Halo", struct_rows(rng, dt, n), dt)
    return o


# -- MXXL --------------------------------------------------------------------
def mxxl_desc(rng):
    n = count(rng)
    o = Out("<")
    o.d("Nsubgroups", n, "i4")
    o.d("SubMostBoundID", rd(rng, "u8", n), "u8")
    o.d("Desc_FileNr", rd(rng, "i4", n), "i4")
    o.d("Desc_SubIndex", rd(rng, "i4", n), "i4")
    return o


def mxxl_field(rng, e):
    nn, sl = int(rng.integers(1, 12)), int(rng.integers(0, 6))
    o = Out(e)
    o.raw(8, "i4")
    o.d("NTask", rd(rng, "i4"), "i4")
    o.d("BoxSize", rd(rng, "f8"), "f8")
    o.d("nn", nn, "i4")
    o.d("isw_slabs_per_task", sl, "i4")
    o.raw(8, "i4")
    o.rec("grid", rd(rng, "f4", sl, nn, nn), "f4")
    return o
