"""
Readers of simulation files against files written by vf.fmt.
opts["variant"]: gadget | lgadget2 | lgadget3 | pgadget3 | trees | gadget4 | ordered | regions | sanity | sims
"""
import os
import numpy as np
from vf import fmt
from vf.fmt import compare, count, rd, F, U
from vf.serialworker import expect, Bad
from vf.w_binary import same


def case(c, rng, tier, index, scratch, opts):
    globals()["c_" + opts["variant"]](c, rng, tier, index, scratch, opts)


def end(rng):
    return "<>"[int(rng.integers(2))]


def pick(rng, *a):
    return a[int(rng.integers(len(a)))]


def check_file(c, rng, o, scratch, what, opener, whole=True):
    path = o.write(os.path.join(scratch, "f"))
    c.f("endian:" + o.e)
    c.d(what=what, bytes=len(o.buf), datasets={k: list(v.shape) for k, v in list(o.dsets.items())[:8]})
    c.n("datasets", len(o.dsets))
    if not any(v.size for v in o.dsets.values() if v.ndim):
        c.f("trivial")
    c.go()
    f = opener(path)
    compare(expect, f, o, rng, what)
    if whole:
        expect(f.all_bytes_used(), "%s: the file is not wholly described (a valid file would be rejected)" % what, "all-bytes")
    # a file cut short must not be read as if it were whole
    if rng.random() < .3 and len(o.buf) > 1:
        cut = int(rng.integers(1, len(o.buf)))
        ends = [x for x in o.ends if x < len(o.buf)]
        if ends and rng.random() < .5:
            cut = int(pick(rng, *ends))      # between two records
        p2 = os.path.join(scratch, "short")
        open(p2, "wb").write(o.buf[:cut])
        c.f("cut")
        try:
            g = opener(p2)
            used = g.all_bytes_used() if whole else False
            for k in fmt.walk(g):
                g[k][...]
        except (IOError, ValueError):
            return
        expect(any(0 <= cut - x < 4 for x in (o.ends[3:] if not whole else ())) or whole and used and fmt.walk(g) != set(o.dsets),
               "%s: a file cut from %d to %d bytes is read without an error" % (what, len(o.buf), cut), "truncated")


# -- Gadget snapshots --------------------------------------------------------
def random_extra(rng):
    ex = []
    for i in range(int(rng.integers(0, 4))):
        t = pick(rng, "float", "int")
        ex.append(("Extra%d" % i, t, pick(rng, (), (3,), (1,), (2, 2), (9,)), tuple(bool(b) for b in rng.random(6) < .6)))
    return ex


def huge_gadget(c, rng, scratch):
    """A snapshot with records of 2 to 4 GB (a sparse file), of which a few particles are read."""
    from virgo.formats import gadget_snapshot as G
    e = end(rng)
    n1 = int(rng.integers(90 * 10**6, 170 * 10**6))
    n4 = int(rng.integers(90 * 10**6, 175 * 10**6))
    npart = [0, n1, 0, 0, n4, 0]
    o = fmt.Out(e)
    fmt.gadget_header(o, npart, [0, 1.0, 0, 0, 1.0, 0], rng=rng)
    path = os.path.join(scratch, "f")
    probes = []
    with open(path, "wb") as f:
        f.write(o.buf)
        for name, w, dt in (("Coordinates", 3, "f4"), ("Velocities", 3, "f4"), ("ParticleIDs", 1, "i8")):
            size = (n1 + n4) * w * np.dtype(dt).itemsize
            mark = np.array(size, e + "u4").tobytes()
            f.write(mark)
            at = f.tell()
            for t, first, n in ((1, 0, n1), (4, n1, n4)):
                for i in (0, n - 1, int(rng.integers(n))):
                    v = rd(rng, dt, w)
                    f.seek(at + (first + i) * w * v.itemsize)
                    f.write(v.astype(v.dtype.newbyteorder(e)).tobytes())
                    probes.append(("PartType%d/%s" % (t, name), i, v, n))
            f.seek(at + size)
            f.write(mark)
    c.f("huge")
    c.d(particles=npart)
    c.go()
    s = G.open(path)
    last = {(k, i): v for k, i, v, n in probes}
    for k, i, v, n in probes:
        expect(s[k].shape[0] == n, "%s has %d rows, not %d" % (k, s[k].shape[0], n), "huge")
        g = np.atleast_1d(s[k][i])
        expect(same(g, last[k, i]), lambda: "element %d of %s (%d particles) is %s, not %s" % (i, k, n, g, v), "huge")


def c_gadget(c, rng, tier, index, scratch, opts):
    from virgo.formats import gadget_snapshot as G
    from virgo.sims import coco, mxxl, millennium2
    if rng.random() < .02:
        return huge_gadget(c, rng, scratch)
    e = end(rng)
    npart = [0 if rng.random() < .35 else int(rng.integers(1, 40)) for _ in range(6)]
    if rng.random() < .1:
        npart = [0, int(rng.integers(20000, 60000)), 0, 0, 0, 0]
        c.f("large")
    mass = [0.0 if rng.random() < .5 else float(rng.random()) for _ in range(6)]
    extra = random_extra(rng)
    hdf5 = rng.random() < .1
    nblocks = 99 if rng.random() < .7 else int(rng.integers(3, 7))
    tot = np.array(npart) + rng.integers(0, 2**40, size=6)
    nfiles = int(rng.integers(1, 5000))
    o = fmt.gadget_snapshot(rng, e, npart, mass, total=tot, nfiles=nfiles, blocks=nblocks, extra=extra)
    ex = None if not extra and rng.random() < .5 else pick(rng, list, tuple)(extra)
    if hdf5:
        import h5py
        path = os.path.join(scratch, "f")
        with h5py.File(path, "w") as h:
            h.create_group("Header")
            for k, v in o.attrs.items():
                h["Header"].attrs[k.split("/")[1]] = v
            for k, v in o.dsets.items():
                h[k] = v
        c.f("hdf5")
        c.go()
        f = G.open(path, extra=ex)
        for k, v in o.dsets.items():
            expect(same(f[k][...], v), "HDF5 snapshot: %s is wrong" % k, "hdf5")
        expect(same(f["Header"].attrs["NumPart_ThisFile"], o.attrs["Header/NumPart_ThisFile"]), "HDF5 snapshot: header is wrong", "hdf5")
        return
    bad = rng.random()
    if bad < .25 and len(o.marks) > 2:
        # a record marker which does not agree with the header must be refused
        m = o.marks[int(rng.integers(0, len(o.marks)))]
        old = int(np.frombuffer(bytes(o.buf[m:m + 4]), o.e + "u4")[0])
        new = pick(rng, old + 1, old - 1, old + 4, 2 * old + 4, 0, 12345677, 2**32 - 1, old ^ (1 << int(rng.integers(32))))
        if new != old and 0 <= new < 2**32:
            o.buf[m:m + 4] = np.array(new, o.e + "u4").tobytes()
            path = o.write(os.path.join(scratch, "f"))
            c.f("bad-marker")
            c.d(marker=m, old=old, new=new, npart=npart)
            c.go()
            for opener in (lambda: G.GadgetBinarySnapshotFile(path, extra=ex), lambda: G.open(path, extra=ex)):
                try:
                    opener()
                except IOError:
                    continue
                raise Bad("a snapshot whose record marker at byte %d is %d and not %d is accepted (particles %s)" % (m, new, old, npart), "bad-marker")
            return
    cls = pick(rng, lambda p: G.open(p, extra=ex), lambda p: G.GadgetBinarySnapshotFile(p, extra=ex))
    if not extra and rng.random() < .3:
        cls = pick(rng, coco, mxxl, millennium2).SnapshotFile
    if extra:
        c.f("extra")
    if any(npart):
        c.n("records", len(o.marks) // 2)
    check_file(c, rng, o, scratch, "Gadget snapshot of %s particles" % npart, cls, whole=False)


# -- others ------------------------------------------------------------------
def c_lgadget2(c, rng, tier, index, scratch, opts):
    from virgo.formats import subfind_lgadget2 as M
    e, idb = end(rng), pick(rng, 4, 8)
    k = pick(rng, "group_tab", "group_ids", "sub_tab", "sub_ids", "snapshot")
    c.f(k)
    kw = dict(id_bytes=idb) if idb == 4 or rng.random() < .5 else {}
    if k == "group_tab":
        o, f = fmt.lg2_group_tab(rng, e), M.GroupTabFile
    elif k == "group_ids":
        o, f = fmt.lg2_ids(rng, e, idb, "NTask"), lambda p: M.GroupIDsFile(p, **kw)
    elif k == "sub_ids":
        o, f = fmt.lg2_ids(rng, e, idb, "NFiles"), lambda p: M.SubIDsFile(p, **kw)
    elif k == "sub_tab":
        o, f = fmt.lg2_sub_tab(rng, e, idb), lambda p: M.SubTabFile(p, **kw)
    else:
        o, f = fmt.lg2_snapshot(rng, e, first=int(rng.integers(0, 1000))), M.SnapshotFile
    check_file(c, rng, o, scratch, "L-Gadget2 " + k, f)


def c_lgadget3(c, rng, tier, index, scratch, opts):
    from virgo.formats import subfind_lgadget3 as M
    e, idb, fb = end(rng), pick(rng, 4, 8), pick(rng, 4, 8)
    if rng.random() < .25:
        c.f("ids")
        kw = dict(id_bytes=idb) if idb == 8 or rng.random() < .5 else {}
        o, f = fmt.lg3_ids(rng, e, idb), lambda p: M.SubIDsFile(p, **kw)
    else:
        d, s = bool(rng.integers(2)), bool(rng.integers(2))
        c.f("tab", "dispersions:%d" % d, "shapes:%d" % s)
        o, f = fmt.lg3_sub_tab(rng, e, fb, d, s), lambda p: M.SubTabFile(p, SO_VEL_DISPERSIONS=d, SUB_SHAPES=s, id_bytes=idb, float_bytes=fb)
    check_file(c, rng, o, scratch, "L-Gadget3 file", f)


def c_pgadget3(c, rng, tier, index, scratch, opts):
    from virgo.formats import subfind_pgadget3 as M
    e, idb, fb = end(rng), pick(rng, 4, 8), pick(rng, 4, 8)
    k = pick(rng, "group_ids", "group_tab", "sub_tab", "sub_ids", "catalogue", "catalogue")
    c.f(k)
    if k == "group_ids":
        o, f = fmt.pg3_ids(rng, e, idb), lambda p: M.GroupIDsFile(p, id_bytes=idb)
    elif k == "sub_ids":
        o, f = fmt.pg3_ids(rng, e, idb), lambda p: M.SubIDsFile(p, id_bytes=idb)
    elif k == "group_tab":
        o, f = fmt.pg3_group_tab(rng, e, fb), lambda p: M.GroupTabFile(p, id_bytes=idb, float_bytes=fb)
    else:
        d = bool(rng.integers(2))
        if k == "catalogue":
            from virgo.sims import millennium2
            cls = pick(rng, M, millennium2).GroupCatalogue
            nf = int(rng.integers(1, 9))
            outs = [fmt.pg3_sub_tab(rng, e, idb, fb, d, nt=nf) for _ in range(nf)]
            return catalogue(c, rng, scratch, outs, "subhalo_tab", lambda b, s, ds: cls(
                b, s, datasets=ds, SO_VEL_DISPERSIONS=d, id_bytes=idb, float_bytes=fb), always=True)
        o = fmt.pg3_sub_tab(rng, e, idb, fb, d)
        f = lambda p: M.SubTabFile(p, SO_VEL_DISPERSIONS=d, id_bytes=idb, float_bytes=fb)
    check_file(c, rng, o, scratch, "P-Gadget3 " + k, f)


def catalogue(c, rng, scratch, outs, name, opener, always):
    """A whole catalogue: every dataset is that of file 0, then of file 1, ..."""
    snap = int(rng.integers(0, 1200))
    for i, o in enumerate(outs):
        o.write(os.path.join(scratch, "groups_%03d" % snap, "%s_%03d.%d" % (name, snap, i)))
    want = {}
    for o in outs:
        for k, v in o.dsets.items():
            if v.ndim:
                want.setdefault(k, []).append(v)
    want = {k: np.concatenate(v) for k, v in want.items()}
    c.f("files:%d" % len(outs))
    if len(outs) > 1:
        c.f("several-files")
    c.d(files=len(outs), snap=snap, rows=[o.dsets["Ngroups"].item() for o in outs])
    ds = None
    if rng.random() < .5:
        ks = sorted(want)
        ds = [ks[int(i)] for i in rng.permutation(len(ks))[:int(rng.integers(1, 8))]]
        ds = pick(rng, list, tuple)(ds)
    if not want or (not always and (sum(o.dsets["Ngroups"].item() for o in outs) == 0 or sum(o.dsets["Nsubgroups"].item() for o in outs) == 0)):
        c.f("trivial")
        return
    c.go()
    cat = opener(scratch, snap, ds)
    expect(set(cat) == set(want if ds is None else ds) and len(cat) == len(set(cat)), lambda: "the catalogue has datasets %s, not %s" % (sorted(cat), sorted(want)), "names")
    for k in cat:
        expect(same(cat[k], want[k]), lambda: "catalogue of %d files: %s is %s %s, the files have %s %s" % (
            len(outs), k, cat[k].shape, str(cat[k])[:80], want[k].shape, str(want[k])[:80]), "catalogue")


def c_gadget4(c, rng, tier, index, scratch, opts):
    from virgo.formats import subfind_gadget4 as M
    from virgo.sims import coco
    e, idb, dp = end(rng), pick(rng, 4, 8), bool(rng.integers(2))
    mod = pick(rng, M, coco)
    if rng.random() < .35:
        nf = int(rng.integers(1, 9))
        c.f("catalogue")
        outs = [fmt.g4_sub_tab(rng, e, idb, dp, nfiles=nf) for _ in range(nf)]
        return catalogue(c, rng, scratch, outs, "fof_subhalo_tab", lambda b, s, ds: mod.GroupCatalogue(b, s, id_bytes=idb, datasets=ds), always=False)
    o = fmt.g4_sub_tab(rng, e, idb, dp)
    if rng.random() < .25:
        m = o.marks[int(rng.integers(0, len(o.marks)))]
        old = int(np.frombuffer(bytes(o.buf[m:m + 4]), o.e + "i4")[0])
        new = pick(rng, old + 1, old - 1, old + 4, 0, -1, 77777)
        if new != old:
            o.buf[m:m + 4] = np.array(new, o.e + "i4").tobytes()
            path = o.write(os.path.join(scratch, "f"))
            c.f("bad-marker")
            c.go()
            try:
                mod.SubTabFile(path, id_bytes=idb)
            except IOError:
                return
            except (ValueError, MemoryError):
                return
            raise Bad("a Gadget-4 file whose record marker at byte %d is %d and not %d is accepted" % (m, new, old), "bad-marker")
    c.f("tab")
    check_file(c, rng, o, scratch, "Gadget-4 file", lambda p: mod.SubTabFile(p, id_bytes=idb))


def c_trees(c, rng, tier, index, scratch, opts):
    from virgo.formats import mpa_trees, rockstar, velociraptor
    k = pick(rng, "desc", "aux", "tree", "rockstar", "velociraptor")
    c.f(k)
    idb = pick(rng, 4, 8)
    if k == "desc":
        o, f = fmt.mpa_desc(rng), mpa_trees.SubDescFile
    elif k == "aux":
        o, f = fmt.mpa_aux(rng, idb), lambda p: mpa_trees.TreeAuxFile(p, id_bytes=idb)
    elif k == "tree":
        m = bool(rng.integers(2))
        o, f = fmt.mpa_tree(rng, idb, m), lambda p: mpa_trees.TreeFile(p, id_bytes=idb, SAVE_MASS_TAB=m)
    elif k == "rockstar":
        h, r = bool(rng.integers(2)), int(rng.integers(1, 4))
        o, f = fmt.rockstar(rng, h, r), lambda p: rockstar.HalosFile(p, hydro=h)
    else:
        kf = int(rng.integers(3))
        o, f = fmt.velociraptor(rng, kf), lambda p: velociraptor.PropertiesFile(p, ikeepfof=kf)
    check_file(c, rng, o, scratch, k, f)


def c_sims(c, rng, tier, index, scratch, opts):
    """The classes named after a simulation read that simulation's files with no more than a file name."""
    from virgo.sims import coco, millennium, millennium2, mxxl
    e = end(rng)
    k = pick(rng, "mill.GroupTab", "mill.GroupIDs", "mill.SubTab", "mill.SubIDs", "mill.Snapshot", "mill2.SubTab", "mxxl.SubTab", "mxxl.SubDesc", "mxxl.Field",
             "coco.SubTab")
    c.f(k)
    given = rng.random() < .4
    idb = pick(rng, 4, 8) if given else 8
    fb = pick(rng, 4, 8) if given else 4
    kw = dict(id_bytes=idb) if given else {}
    kf = dict(kw, float_bytes=fb) if given else {}
    if given:
        c.f("parameters")
    d = bool(rng.integers(2)) if given else None
    if k == "mill.GroupTab":
        o, f = fmt.lg2_group_tab(rng, e), millennium.GroupTabFile
    elif k == "mill.GroupIDs":
        o, f = fmt.lg2_ids(rng, e, idb, "NTask"), lambda p: millennium.GroupIDsFile(p, **kw)
    elif k == "mill.SubIDs":
        o, f = fmt.lg2_ids(rng, e, idb, "NFiles"), lambda p: millennium.SubIDsFile(p, **kw)
    elif k == "mill.SubTab":
        o, f = fmt.lg2_sub_tab(rng, e, idb), lambda p: millennium.SubTabFile(p, **kw)
    elif k == "mill.Snapshot":
        o, f = fmt.lg2_snapshot(rng, e), millennium.SnapshotFile
    elif k == "mill2.SubTab":
        o, f = fmt.pg3_sub_tab(rng, e, idb, fb, bool(d)), lambda p: millennium2.SubTabFile(p, **(dict(kf, SO_VEL_DISPERSIONS=d) if given else {}))
    elif k == "mxxl.SubTab":
        o, f = fmt.lg3_sub_tab(rng, e, fb, d if given else True, False), lambda p: mxxl.SubTabFile(p, **(dict(kf, SO_VEL_DISPERSIONS=d) if given else {}))
    elif k == "mxxl.SubDesc":
        o, f = fmt.mxxl_desc(rng), mxxl.SubDescFile
    elif k == "mxxl.Field":
        o, f = fmt.mxxl_field(rng, e), mxxl.FieldFile
    else:
        o, f = fmt.g4_sub_tab(rng, e, idb, bool(rng.integers(2))), lambda p: coco.SubTabFile(p, **kw)
    check_file(c, rng, o, scratch, k, f)


# -- group ordered snapshots -------------------------------------------------
def split(rng, n, parts):
    """n things over parts files, in order."""
    cuts = np.sort(rng.integers(0, n + 1, size=parts - 1))
    if rng.random() < .2 and parts > 1:
        cuts[:] = np.sort(rng.choice([0, n], size=parts - 1))
    return np.diff(np.concatenate([[0], cuts, [n]])).astype(int)


def write_snapshots(rng, e, scratch, snap, n, per, data, idt, pt, hdf5, tot):
    """n files; per[i][t] particles of type t in file i; data[(t, name)]: all of them."""
    at = np.zeros(6, int)
    for i in range(n):
        d = {(t, k): v[at[t]:at[t] + per[i][t]] for (t, k), v in data.items()}
        o = fmt.gadget_snapshot(rng, e, per[i], [1.0] * 6 if rng.random() < .5 else [0.0, 1, 0, 1, 0, 1], total=tot, nfiles=n, data=d, blocks=pick(rng, 3, 99))
        at += per[i]
        path = os.path.join(scratch, "snapdir_%03d" % snap, "snap_%03d.%d" % (snap, i))
        if hdf5:
            import h5py
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with h5py.File(path, "w") as h:
                h.create_group("Header")
                for k, v in o.attrs.items():
                    h["Header"].attrs[k.split("/")[1]] = v
                for k, v in o.dsets.items():
                    h[k] = v
        else:
            o.write(path)


def c_ordered(c, rng, tier, index, scratch, opts):
    from virgo.formats import subfind_gadget4, subfind_pgadget3
    from virgo.sims import coco, millennium2
    g4 = rng.random() < .5
    e, idb = end(rng), pick(rng, 4, 8)
    types = [t for t in range(6) if rng.random() < .6] if g4 else [1]
    nfof = int(rng.integers(1, 25))
    snap = int(rng.integers(0, 1000))
    ft, pt = pick(rng, "f4", "f8"), pick(rng, "i4", "i8")
    c.f("gadget4" if g4 else "pgadget3")
    # groups, in order; each with its subgroups, in order, then the rest; then what is in no group
    nsub = np.where(rng.random(nfof) < .3, 0, rng.integers(0, 6, size=nfof))
    big = rng.random() < .3
    subtype = np.zeros((int(nsub.sum()), 6), int)
    foftype = np.zeros((nfof, 6), int)
    first = np.cumsum(nsub) - nsub
    for t in types:
        subtype[:, t] = rng.integers(0, 60 if big else 6, size=len(subtype))
        for g in range(nfof):
            foftype[g, t] = subtype[first[g]:first[g] + nsub[g], t].sum() + (int(rng.integers(0, 60 if big else 6)) if rng.random() < .7 else 0)
    if not g4:
        foftype[:, 1] = np.maximum(foftype[:, 1], 1)
        subtype[:, 1] = np.maximum(subtype[:, 1], 1)
        for g in range(nfof):
            foftype[g, 1] = max(foftype[g, 1], subtype[first[g]:first[g] + nsub[g], 1].sum())
    tot = foftype.sum(axis=0)
    for t in types:
        tot[t] += int(rng.integers(0, 40)) if rng.random() < .7 else 0
    nf = int(rng.integers(1, 8))
    per = np.zeros((nf, 6), int)
    for t in range(6):
        per[:, t] = split(rng, tot[t], nf)
    data = {}
    for t in range(6):
        data[t, "Coordinates"] = rd(rng, ft, tot[t], 3)
        data[t, "Velocities"] = rd(rng, ft, tot[t], 3)
        data[t, "ParticleIDs"] = rd(rng, pt, tot[t])
    hdf5 = rng.random() < .15
    write_snapshots(rng, e, scratch, snap, nf, per, data, None, pt, hdf5, tot)
    # the catalogue, over another number of files
    nc = int(rng.integers(1, 6))
    gp, sp = split(rng, nfof, nc), split(rng, len(subtype), nc)
    ga, sa = np.cumsum(gp) - gp, np.cumsum(sp) - sp
    fofoff = np.cumsum(foftype, axis=0) - foftype
    fb, d = pick(rng, 4, 8), bool(rng.integers(2))
    for i in range(nc):
        G, S = slice(ga[i], ga[i] + gp[i]), slice(sa[i], sa[i] + sp[i])
        if g4:
            cols = dict(GroupLenType=foftype[G], GroupLen=foftype[G].sum(axis=1), Nsubs=nsub[G], FirstSub=first[G], SubLenType=subtype[S], SubLen=subtype[S].sum(axis=1))
            o = fmt.g4_sub_tab(rng, e, idb, fb == 8, n=int(gp[i]), ns=int(sp[i]), cols=cols, nfiles=nc)
            o.write(os.path.join(scratch, "groups_%03d" % snap, "fof_subhalo_tab_%03d.%d" % (snap, i)))
        else:
            suboff = np.concatenate([fofoff[g, 1] + np.cumsum(subtype[first[g]:first[g] + nsub[g], 1]) - subtype[first[g]:first[g] + nsub[g], 1] for g in range(nfof)]).astype(int)
            cols = dict(GroupLen=foftype[G, 1], GroupOffset=fofoff[G, 1], Nsubs=nsub[G], FirstSub=first[G], SubLen=subtype[S, 1], SubOffset=suboff[S])
            o = fmt.pg3_sub_tab(rng, e, idb, fb, d, n=int(gp[i]), ns=int(sp[i]), cols=cols, nt=nc)
            o.write(os.path.join(scratch, "groups_%03d" % snap, "subhalo_tab_%03d.%d" % (snap, i)))
    c.f("snapfiles:%d" % nf)
    if nf > 1:
        c.f("several-files")
    c.d(groups=nfof, files=nf, catalogue_files=nc, types=types, len=foftype.sum(axis=1).tolist()[:10])
    c.go()
    if g4:
        s = pick(rng, subfind_gadget4, coco).GroupOrderedSnapshot(scratch, "snap", snap, id_bytes=idb)
        for g in [int(x) for x in rng.permutation(nfof)[:10]]:
            ref = g
            if rng.random() < .4:
                fi = int(np.searchsorted(ga + gp, g, side="right"))
                ref = pick(rng, tuple, list, np.array)([fi, g - int(ga[fi])])
                c.f("by-file")
            elif rng.random() < .3:
                ref = np.int64(g)
            r = s.read_fof_group(ref)
            expect(len(r) == 6, "not one element for each type", "types")
            for t in range(6):
                a, n = fofoff[g, t], foftype[g, t]
                if n == 0:
                    expect(all(len(v) == 0 for v in r[t].values()), lambda: "group %s has no particles of type %d, but some are returned" % (g, t), "none")
                    continue
                for k in ("Coordinates", "Velocities", "ParticleIDs"):
                    w = data[t, k][a:a + n]
                    expect(k in r[t] and same(r[t][k], w), lambda: "group %d, type %d of %d files: %s has %s rows, not the %d of the group" % (
                        g, t, nf, k, len(r[t].get(k, [])), n), "particles")
                sl = subtype[first[g]:first[g] + nsub[g], t]
                w = np.concatenate([np.repeat(np.arange(first[g], first[g] + nsub[g]), sl), -np.ones(n - sl.sum(), int)])
                expect(np.array_equal(r[t]["SubNr"], w), lambda: "group %d, type %d: subgroup numbers are %s, not %s" % (g, t, r[t]["SubNr"], w), "subnr")
                c.n("particles", n)
            c.n("groups")
    else:
        s = pick(rng, subfind_pgadget3, millennium2).GroupOrderedSnapshot(scratch, "snap", snap, SO_VEL_DISPERSIONS=d, id_bytes=idb, float_bytes=fb)
        names = ("Coordinates", "Velocities", "ParticleIDs")
        for _ in range(12):
            ds = None if rng.random() < .6 else tuple(np.array(names)[rng.random(3) < .6])
            kind = int(rng.integers(3))
            if kind == 0 or (kind == 1 and not len(subtype)):
                g = int(rng.integers(nfof))
                a, n, what = fofoff[g, 1], foftype[g, 1], "group %d" % g
                r = s.read_fof_group(g, ds) if rng.random() < .5 else s.read_fof_group(g, datasets=ds)
                c.n("groups")
            elif kind == 1:
                g = int(rng.integers(len(subtype)))
                a, n, what = suboff[g], subtype[g, 1], "subgroup %d" % g
                r = s.read_subfind_group(g, ds)
                c.n("subgroups")
            else:
                a = int(rng.integers(0, tot[1]))
                n = int(rng.integers(1, tot[1] - a + 1))
                what = "range"
                r = s.read_particle_range(a, n, ds)
            expect(set(r) == set(ds if ds is not None else names), "%s: datasets %s" % (what, sorted(r)), "names")
            for k in r:
                w = data[1, k][a:a + n]
                expect(same(r[k], w), lambda: "%s at %d of %d particles in %d files: %s has %d rows or wrong values" % (what, a, n, nf, k, len(r[k])), "particles")
            c.n("particles", n)


# -- regions of L-Gadget2 snapshots ------------------------------------------
def c_regions(c, rng, tier, index, scratch, opts):
    from virgo.formats import subfind_lgadget2
    from virgo.sims import millennium
    from vf.w_util import ref_key
    e = end(rng)
    bits = int(rng.integers(1, 4)) if rng.random() < .8 else 4
    nc = 2**bits
    box = float(pick(rng, nc * 1.0, nc * 0.25, 10.0 ** rng.uniform(-1, 3), 500.0))
    cell = box / nc
    n = int(rng.integers(0, 400))
    snap = int(rng.integers(0, 64))
    ic = rng.integers(0, nc, size=(n, 3))
    if rng.random() < .3 and n:
        ic[:] = ic[:max(1, n // 20)][rng.integers(0, max(1, n // 20), size=n)]
    pos = ((ic + rng.uniform(.001, .999, size=(n, 3))) * cell).astype("f4")
    key = np.array([ref_key(int(a), int(b), int(d), bits) for a, b, d in ic], dtype=int).reshape(n)
    o = np.argsort(key, kind="stable")
    pos, ic, key = pos[o], ic[o], key[o]
    vel = rd(rng, "f4", n, 3)
    ids = rng.permutation(n).astype("u8") + np.uint64(int(rng.choice([0, 2**33, 2**63])))
    nf = int(rng.integers(1, min(9, 8**bits + 1)))
    cuts = np.sort(rng.choice(np.arange(1, 8**bits), size=nf - 1, replace=False)) if nf > 1 else np.zeros(0, int)
    edge = np.concatenate([[0], cuts, [8**bits]]).astype(int)
    for i in range(nf):
        s = (key >= edge[i]) & (key < edge[i + 1])
        blk = np.searchsorted(key[s], np.arange(edge[i], edge[i + 1]))
        f = fmt.lg2_snapshot(rng, e, n=int(s.sum()), first=int(edge[i]), blockid=blk, nfiles=nf, box=box, nhash=8**bits,
                             cols=dict(Coordinates=pos[s], Velocities=vel[s], ParticleIDs=ids[s]))
        f.write(os.path.join(scratch, "snapdir_%03d" % snap, "snap_%03d.%d" % (snap, i)))
    c.f("bits:%d" % bits, "files:%d" % nf)
    c.d(particles=n, bits=bits, files=nf, box=box)
    if n == 0:
        c.f("trivial")
    byid = {int(x): j for j, x in enumerate(ids)}
    p8 = pos.astype(float)
    c.go()
    S = pick(rng, subfind_lgadget2, millennium).Snapshot(scratch, "snap", snap)
    for _ in range(4):
        if rng.random() < .3:
            keys = np.unique(rng.integers(0, 8**bits, size=int(rng.integers(1, 30))))
            got = S.read_cells(keys)
            must = may = np.isin(key, keys)
            what = "cells %s" % keys[:10]
            c.f("cells")
        else:
            lo = rng.uniform(-.5, 1.2, size=3) * box
            w = rng.uniform(0, [.1, .5, 1.0][int(rng.integers(3))], size=3) * box
            if rng.random() < .3:
                lo = np.floor(lo / cell) * cell
                c.f("aligned")
            hi = lo + w
            reg = np.array([lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]])
            if np.any(lo < 0) or np.any(hi > box):
                c.f("periodic")
            got = S.read_region(pick(rng, tuple, list, np.array)(reg))
            must, may = np.ones(n, bool), np.ones(n, bool)
            eps = 1e-5 * box
            for a in range(3):
                x = np.mod(p8[:, a] - lo[a], box)
                must &= (x > eps) & (x < w[a] - eps)
                cl = np.arange(int(np.floor((lo[a] - eps) / cell)), int(np.floor((hi[a] + eps) / cell)) + 1)
                may &= np.isin(ic[:, a], cl % nc)
            what = "region %s of a box of %g" % (reg.tolist(), box)
        gp, gv, gi = got
        j = np.array([byid.get(int(x), -1) for x in gi], dtype=int)
        expect(gp.shape == (len(gi), 3) and gv.shape == (len(gi), 3), "%s: shapes %s %s %s" % (what, gp.shape, gv.shape, gi.shape), "shape")
        expect(np.all(j >= 0), "%s: particles which are not in the snapshot" % what, "unknown")
        expect(len(np.unique(j)) == len(j), "%s: a particle is returned twice" % what, "twice")
        expect(same(gp, pos[j]) and same(gv, vel[j]) and same(gi, ids[j]), "%s: position, velocity and ID are not of the same particle" % what, "mixed")
        sel = np.zeros(n, bool)
        sel[j] = True
        expect(np.all(sel[must]), lambda: "%s: %d of %d particles are missing" % (what, (must & ~sel).sum(), must.sum()), "missing")
        expect(not np.any(sel & ~may), lambda: "%s: %d particles from other cells" % (what, (sel & ~may).sum()), "outside")
        c.n("particles", len(j))
        c.n("regions")


# -- sanity checks -----------------------------------------------------------
def c_sanity(c, rng, tier, index, scratch, opts):
    from virgo.formats import subfind_lgadget2 as L2, subfind_lgadget3 as L3, subfind_pgadget3 as P3, rockstar as R
    e, idb, fb = end(rng), pick(rng, 4, 8), pick(rng, 4, 8)
    k = pick(rng, "l2tab", "l2ids", "l2sub", "l2snap", "l3sub", "l3ids", "p3ids", "p3tab", "p3sub", "rockstar")
    bad = rng.random() < .6
    n, ns = int(rng.integers(2, 25)), 0
    c.f(k, "bad" if bad else "good")
    ff = F[fb]
    pos = lambda t, *s: np.abs(rng.normal(size=s)).astype(t) + 0
    val = lambda t, *s: rng.normal(size=s).astype(t)
    what, wrong = "nothing", {}
    length = rng.integers(1, 50, size=n)
    offset = np.cumsum(length) - length
    nids = int(length.sum())
    nsub = np.where(rng.random(n) < .3, 0, rng.integers(0, 4, size=n))
    nsub[int(rng.integers(n))] += 2
    ns = int(nsub.sum())
    first = np.cumsum(nsub) - nsub
    parent = np.repeat(np.arange(n), nsub)
    sublen = np.array([int(rng.integers(1, max(2, length[p] // nsub[p] + 1))) for p in parent])
    sublen = np.minimum(sublen, length[parent])
    suboff = offset[parent]
    r1 = lambda m: int(rng.integers(m))
    opener = None
    if k == "l2tab":
        cols = dict(GroupLen=length.copy(), GroupOffset=offset.copy(), Nids=nids)
        if bad:
            what = pick(rng, "sum", "offset", "chain")
            i = r1(n)
            if what == "sum":
                cols["Nids"] += pick(rng, -1, 1, 100)
            elif what == "offset":
                cols["GroupOffset"][i] = pick(rng, -1, nids, nids + 5)
            else:
                cols["GroupOffset"][i] += 1 if cols["GroupOffset"][i] + 1 < nids else -1
        o, opener = fmt.lg2_group_tab(rng, e, n, cols), L2.GroupTabFile
    elif k == "l2ids":
        m = int(rng.integers(1, 40))
        hashk = rng.integers(0, 256**3, size=m)
        pid = rng.integers(1, 2160**3 + 1, size=m)
        if rng.random() < .5:
            hashk[r1(m)] = pick(rng, 0, 256**3 - 1)
            pid[r1(m)] = 2160**3
        if bad:
            what = pick(rng, "key", "id", "zeros")
            i = r1(m)
            if what == "key":
                hashk[i] = 256**3 + int(rng.choice([0, 1, 1000]))
            elif what == "id":
                pid[i] = 2160**3 + int(rng.integers(1, 10**9))
            else:
                if m < 2:
                    m = 2
                    hashk, pid = np.resize(hashk, 2), np.resize(pid, 2)
                pid[rng.permutation(m)[:2]] = 0
        ids = (hashk.astype("u8") << np.uint64(34)) + pid.astype("u8")
        g = bool(rng.integers(2))
        o = fmt.lg2_ids(rng, e, 8, "NTask" if g else "NFiles", ids)
        opener = L2.GroupIDsFile if g else L2.SubIDsFile
    elif k == "l2sub":
        cols = dict(NsubPerHalo=nsub.copy(), FirstSubOfHalo=first.copy(), SubLen=sublen.copy(), SubOffset=suboff.copy(), SubParentHalo=parent.copy(), Nids=nids)
        for nm in ("Halo_%s_%s" % (q, s) for q in "MR" for s in fmt.SO):
            cols[nm] = pos("f4", n)
        for nm, w in (("SubPos", 3), ("SubVel", 3), ("SubSpin", 3), ("SubVelDisp", 0), ("SubVmax", 0), ("SubHalfMass", 0)):
            cols[nm] = val("f4", ns, 3) if w else val("f4", ns)
        if bad:
            what = pick(rng, "count", "first", "range", "parent", "finite")
            if what == "count":
                cols["NsubPerHalo"][r1(n)] += 1
            elif what == "first":
                cols["FirstSubOfHalo"][pick(rng, *np.flatnonzero(nsub))] = pick(rng, -1, ns)
            elif what == "range":
                i = r1(ns)
                if rng.random() < .5:
                    cols["SubOffset"][i] = -1
                else:
                    cols["SubLen"][i] = nids - cols["SubOffset"][i] + 1
            elif what == "parent":
                i = r1(ns)
                cols["SubParentHalo"][i] = (cols["SubParentHalo"][i] + 1) % n
            else:
                nm = pick(rng, *[x for x in cols if cols[x].__class__ is np.ndarray and cols[x].dtype.kind == "f"])
                cols[nm].reshape(-1)[r1(cols[nm].size)] = pick(rng, np.nan, np.inf, -np.inf)
                what += " " + nm
        o, opener = fmt.lg2_sub_tab(rng, e, idb, n, ns, cols), lambda p: L2.SubTabFile(p, id_bytes=idb)
    elif k == "l2snap":
        from vf.w_util import ref_key
        bits = int(rng.integers(1, 5))
        nc, box = 2**bits, float(pick(rng, 100.0, 500.0, 62.5, 1.0))
        m = int(rng.integers(1, 60))
        ic = rng.integers(0, nc, size=(m, 3))
        p = ((ic + rng.uniform(.01, .99, size=(m, 3))) * box / nc).astype("f4")
        key = np.array([ref_key(int(a), int(b), int(d), bits) for a, b, d in ic])
        q = np.argsort(key)
        p, key = p[q], key[q]
        lo, hi = int(rng.integers(0, key[0] + 1)), int(rng.integers(key[-1], 8**bits))
        blk = np.searchsorted(key, np.arange(lo, hi + 1))
        total = pick(rng, m, 1000, 2160**3, 2**32 + 5)
        total = max(total, m)
        ids = rng.integers(0, total + 1, size=m).astype("u8")
        if rng.random() < .5:
            ids[r1(m)] = total
        v = (rng.normal(size=(m, 3)) * 500).astype("f4")
        if bad:
            what = pick(rng, "finite pos", "range pos", "finite vel", "high vel", "id", "cell")
            i = r1(m)
            if what == "finite pos":
                p[i, r1(3)] = np.nan
            elif what == "range pos":
                p[i, r1(3)] = pick(rng, -.01 * box, 1.01 * box)
            elif what == "finite vel":
                v[i, r1(3)] = pick(rng, np.nan, np.inf)
            elif what == "high vel":
                v[i, r1(3)] = pick(rng, -2e6, 2e6)
            elif what == "id":
                ids[i] = total + 1 + r1(1000)
            else:
                # far enough for any cell size: half a box away along one axis, if there are cells enough
                a = r1(3)
                p[i, a] = np.mod(p[i, a] + box / 2, box)
        f = fmt.lg2_snapshot(rng, e, n=m, first=lo, blockid=blk, box=box, nhash=8**bits, total=total, cols=dict(Coordinates=p, Velocities=v, ParticleIDs=ids))
        o, opener = f, L2.SnapshotFile
    elif k in ("l3ids", "p3ids"):
        m = int(rng.integers(2, 60))
        ids = np.unique(rng.integers(0, 2**32, size=m)).astype(U[idb])
        ids = rng.permutation(ids)
        m = len(ids)
        if bad:
            what = pick(rng, "duplicate", "idsize", "longer")
            if what == "duplicate" and m > 1:
                a, b = rng.permutation(m)[:2]
                ids[a] = ids[b]
        o = fmt.lg3_ids(rng, e, idb, ids) if k == "l3ids" else fmt.pg3_ids(rng, e, idb, ids)
        if what == "longer":
            o.buf += b"\0" * pick(rng, 1, 4, 8)
        use = 12 - idb if what == "idsize" else idb
        cls = L3.SubIDsFile if k == "l3ids" else pick(rng, P3.GroupIDsFile, P3.SubIDsFile)
        opener = lambda p: cls(p, id_bytes=use)
        if what == "duplicate" and m < 2:
            bad = False
    elif k == "p3tab":
        lt = rng.integers(0, 20, size=(n, 6))
        lt[:, 1] += 1
        length = lt.sum(axis=1)
        mt = (np.abs(rng.normal(size=(n, 6))) + .1).astype(ff)
        cols = dict(GroupLen=length.copy(), GroupOffset=np.cumsum(length) - length, GroupLenType=lt, GroupMassType=mt, GroupMass=mt.sum(axis=1, dtype="f8").astype(ff), Nids=int(length.sum()))
        use = dict(float_bytes=fb)
        if bad:
            what = pick(rng, "length", "offset", "mass", "floatsize", "longer")
            i = r1(n)
            if what == "length":
                cols["GroupLenType"][i, r1(6)] += 1
            elif what == "offset":
                cols["GroupOffset"][i] += 1
            elif what == "mass":
                cols["GroupMass"][i] *= 1.01
            elif what == "floatsize":
                use = dict(float_bytes=12 - fb)
        o, opener = fmt.pg3_group_tab(rng, e, fb, n, cols), lambda p: P3.GroupTabFile(p, **use)
        if what == "longer":
            o.buf += b"\0" * pick(rng, 1, 4, 8)
    elif k in ("l3sub", "p3sub"):
        l3 = k == "l3sub"
        disp, shapes = bool(rng.integers(2)), bool(rng.integers(2))
        # this file's part of a catalogue: group and subgroup numbers are those of the whole catalogue
        before = int(rng.integers(0, 50))
        totng, totns, totn = before + n + r1(20), 3 * before + ns + r1(20), nids + 1000 + r1(1000)
        if rng.random() < .1:
            totn = 2**33
        sh = r1(1000)
        cols = dict(TotNgroups=totng, TotNsubgroups=totns, TotNids=totn, Nids=nids, GroupLen=length.copy(), GroupOffset=offset + sh, Nsubs=nsub.copy(), FirstSub=first + 3 * before,
                    SubLen=sublen.copy(), SubOffset=suboff + sh, SubGrNr=parent + before)
        inrange = totn < 2**31
        neg = ["Halo_M_" + s for s in fmt.SO]
        sneg = ["SubVelDisp", "SubVmax", "SubRVmax", "SubHalfMass"]
        fin = ["SubPos", "SubVel", "SubCofM", "SubSpin"]
        if l3:
            neg.append("GroupVelDisp")
        else:
            neg += ["Halo_R_" + s for s in fmt.SO] + ["GroupMass"]
            sneg.append("SubMass")
        for nm in neg:
            cols[nm] = pos(ff, n)
        for nm in sneg:
            cols[nm] = pos(ff, ns)
        for nm in fin:
            cols[nm] = val(ff, ns, 3)
        use = dict(id_bytes=idb, float_bytes=fb, SO_VEL_DISPERSIONS=disp)
        if l3:
            use["SUB_SHAPES"] = shapes
        if bad:
            what = pick(rng, "header", "length", "offset", "nsubs", "first", "finite", "negative", "sublength", "suboffset", "grnr", "order", "floatsize", "disp", "longer",
                        "shapes" if l3 else "idsize")
            i, j = r1(n), r1(ns)
            if what == "header":
                cols[pick(rng, "TotNgroups", "TotNsubgroups", "TotNids")] = -1 - r1(100)
            elif what == "length":
                cols["GroupLen"][i] = -1 - r1(100)
            elif what == "offset" and inrange:
                cols["GroupOffset"][i] = totn - cols["GroupLen"][i] + 1 + r1(100)
            elif what == "nsubs":
                cols["Nsubs"][i] = -1
            elif what == "first":
                i = pick(rng, *np.flatnonzero(nsub))
                cols["FirstSub"][i] = pick(rng, -1, totns, totns - nsub[i] + 1)
            elif what == "finite":
                nm = pick(rng, *(neg + sneg + fin))
                cols[nm].reshape(-1)[r1(cols[nm].size)] = pick(rng, np.nan, np.inf)
                what += " " + nm
            elif what == "negative":
                nm = pick(rng, *(neg + sneg))
                cols[nm][r1(cols[nm].size)] = -1.5
                what += " " + nm
            elif what == "sublength":
                cols["SubLen"][j] = -1
            elif what == "suboffset" and inrange:
                cols["SubOffset"][j] = pick(rng, -1, totn - cols["SubLen"][j] + 1)
            elif what == "grnr":
                cols["SubGrNr"][pick(rng, 0, ns - 1)] = pick(rng, -1, totng)
            elif what == "order":
                a = int(rng.integers(ns - 1))
                cols["SubGrNr"][a], cols["SubGrNr"][a + 1] = before + 1, before
            elif what == "floatsize":
                use["float_bytes"] = 12 - fb
            elif what == "idsize":
                use["id_bytes"] = 12 - idb
            elif what == "disp":
                use["SO_VEL_DISPERSIONS"] = not disp
            elif what == "shapes":
                use["SUB_SHAPES"] = not shapes
            elif not what == "longer":
                bad = False
        if l3:
            o, opener = fmt.lg3_sub_tab(rng, e, fb, disp, shapes, n, ns, cols), lambda p: L3.SubTabFile(p, **use)
        else:
            o, opener = fmt.pg3_sub_tab(rng, e, idb, fb, disp, n, ns, cols), lambda p: P3.SubTabFile(p, **use)
        if what == "longer":
            o.buf += b"\0" * pick(rng, 1, 4, 8)
    else:
        h = bool(rng.integers(2))
        ids = rd(rng, "i8", nids)
        cols = dict(p_start=offset.copy(), num_p=length.copy())
        if bad:
            what = pick(rng, "range", "negative")
            i = r1(n)
            if what == "range":
                cols["num_p"][i] = nids - cols["p_start"][i] + 1
            else:
                cols["p_start"][i] = -1
        o, opener = fmt.rockstar(rng, h, int(rng.integers(1, 3)), n, cols, ids), lambda p: R.HalosFile(p, hydro=h)
    path = o.write(os.path.join(scratch, "f"))
    c.f("wrong:" + what.split()[0])
    c.d(file=k, wrong=what, groups=n)
    c.go()
    if bad:
        try:
            opener(path).sanity_check()
        except Exception as err:
            from virgo.util.exceptions import SanityCheckFailedException
            c.n("refused")
            # it must be refused on purpose, not by accident
            expect(isinstance(err, (SanityCheckFailedException, IOError, ValueError, OverflowError)) or type(err) is Exception,
                   "%s: the file with a wrong %s makes the check fail with %s: %s" % (k, what, type(err).__name__, err), "accident")
            return
        raise Bad("%s: sanity_check accepts a file with a wrong %s" % (k, what), "accepts")
    r = opener(path).sanity_check()
    expect(r is None, "%s: sanity_check returns %r" % (k, r), "return")
    c.n("accepted")
