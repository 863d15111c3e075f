"""
The Python example programs under /repo/examples, run whole on made up simulations. Their paths are fixed, so the directory names in the source are
replaced by a scratch directory; everything else runs as it is. What they print and plot (matplotlib is replaced by a recorder) is compared with what was written.
"""
import os, sys, io, re, types, contextlib, warnings, shutil
import numpy as np
from vf import core, fmt
from vf.fmt import rd
from vf.serialworker import expect
from vf.w_mill import Snap, near

PREFIXES = ["/virgo/data", "/gpfs/data"]


def case(c, rng, tier, index, scratch, opts):
    todo = [region, fofgroup, catalogue, milli_units, m2_units, rvmax, mr7]
    return todo[int(rng.choice(7, p=[.18, .25, .04, .13, .02, .25, .13]))](c, rng, scratch)


class Plot(types.ModuleType):
    """Takes any call; remembers plot()."""

    def __init__(self):
        types.ModuleType.__init__(self, "matplotlib.pyplot")
        self.plots = []

    def plot(self, *a, **k):
        self.plots.append([np.array(x) if not isinstance(x, str) else x for x in a])
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: self

    def __call__(self, *a, **k):
        return self


def print3(src):
    """print statements made calls."""
    out, open_ = [], 0
    for line in src.split("\n"):
        m = re.match(r"(\s*)print (.*)$", line)
        if m and not open_:
            line, open_ = m.group(1) + "print(" + m.group(2), 1
        if open_:
            code = re.sub(r"\"[^\"]*\"", lambda q: "s" * len(q.group()), line).split("#")[0]
            open_ = (0 if m else open_) + code.count("(") + code.count("[") - code.count(")") - code.count("]")
            if open_ == 1:
                line, open_ = line[:len(code)] + ")" + line[len(code):], 0
        out.append(line)
    return "\n".join(out)


def run(c, name, scratch, **names):
    path = os.path.join(core.REPO, "examples", name)
    with open(path) as f:
        src = f.read()
    for p in PREFIXES:
        src = src.replace(p, scratch + p)
    plt = Plot()
    top = types.ModuleType("matplotlib")
    top.pyplot = plt
    keep = {k: sys.modules.get(k) for k in ("matplotlib", "matplotlib.pyplot")}
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = top, plt
    try:
        code = compile(src, path, "exec")
    except SyntaxError as e:
        if "Missing parentheses in call to 'print'" not in str(e):
            raise
        c.soft("python2:" + name, "%s is not valid Python 3: %s" % (name, e))
        code = compile(print3(src), path, "exec")
    ns = dict(names, __name__="__main__", __file__=path)
    out = io.StringIO()
    c.go()
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exec(code, ns)
    finally:
        for k, v in keep.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    c.f("example:" + os.path.splitext(name)[0].replace("/python", ""))
    return ns, out.getvalue(), plt.plots


def run_units(c, name, scratch):
    try:
        return run(c, name, scratch)
    except NameError as e:
        if e.name not in ("np", "sqrt"):
            raise
        c.soft("check_units:names", "%s: %s" % (name, e))
        return run(c, name, scratch, np=np, sqrt=np.sqrt)


def snapshot(c, rng, scratch, isnap=63, bits=None):
    e = "<>"[int(rng.integers(2))]
    bits = int(rng.choice([1, 2, 3]))
    nfile = min(8**bits, int(rng.choice([1, 2, 3, int(rng.integers(1, 14)), 40])))
    c.f("byte-order:" + e, "files:%s" % ("1" if nfile == 1 else "2-9" if nfile < 10 else "10+"))
    s = Snap(rng, e, scratch + "/virgo/data/Millennium", "snap_millennium", isnap, bits, nfile)
    return s


def region(c, rng, scratch):
    s = snapshot(c, rng, scratch)
    c.d(box=s.box, bits=s.bits, files=s.nfile, particles=s.n)
    ns, out, plots = run(c, "millennium/python/read_region.py", scratch)
    if all(k in ns for k in ("pos", "vel", "ids")):
        ids = np.asarray(ns["ids"]).astype("i8")
        # at least what lies in the region, each once, and nothing which is not in the snapshot
        at = {int(k): i for i, k in enumerate(s.id)}
        expect(all(int(k) in at for k in ids), "returned a particle which does not exist", "ids")
        i = np.array([at[int(k)] for k in ids], dtype=int)
        expect(len(set(i.tolist())) == len(i), "a particle is returned twice", "twice")
        expect(np.array_equal(np.asarray(ns["pos"]).reshape((-1, 3)), s.pos[i]) and np.array_equal(np.asarray(ns["vel"]).reshape((-1, 3)), s.vel[i], equal_nan=True), "positions or velocities belong to other particles", "values")
        inside = np.flatnonzero(((s.pos >= 10) & (s.pos <= 20)).all(axis=1))
        expect(set(inside.tolist()) <= set(i.tolist()), lambda: "%d of %d particles in the region are missing" % (len(set(inside.tolist()) - set(i.tolist())), len(inside)), "missing")
        c.n("particles", len(i))
        c.n("compared")


def fofgroup(c, rng, scratch):
    s = snapshot(c, rng, scratch)
    # groups of file 0; the example shows number 10
    n = int(rng.integers(11, 30))
    free = rng.permutation(s.n)
    cut = np.sort(rng.integers(0, len(free) + 1, size=n))
    glen = np.diff(np.concatenate([[0], cut]))
    if rng.random() < .3:
        near10 = np.argsort(((s.pos - s.pos[0]) ** 2).sum(axis=1)) if s.n else free       # a group which is compact
        free = np.concatenate([near10])
    if s.n and not glen[10]:
        glen[10] += 1
        glen[int(np.argmax(glen))] -= glen.sum() > len(free)
    goff = np.cumsum(glen) - glen
    if glen.sum() > len(free):
        glen = np.minimum(glen, np.maximum(0, len(free) - goff))
    ids = (s.id[free[:int(glen.sum())]].astype("u8") | (s.cell[free[:int(glen.sum())]].astype("u8") << np.uint64(34)))
    base = scratch + "/virgo/data/Millennium"
    fmt.lg2_group_tab(rng, s.e, n=n, cols=dict(GroupLen=glen, GroupOffset=goff, Nids=int(glen.sum()))).write(base + "/snapdir_063/group_tab_063.0")
    fmt.lg2_ids(rng, s.e, 8, "NFiles", ids=ids).write(base + "/postproc_063/sub_ids_063.0")
    c.d(box=s.box, bits=s.bits, files=s.nfile, particles=s.n, group=int(glen[10]))
    if not glen[10]:
        c.f("trivial")
        return
    ns, out, plots = run(c, "millennium/python/plot_fof_group.py", scratch)
    p = [a for a in plots if len(a) >= 2]
    expect(len(p) >= 1, "nothing is plotted", "no-plot")
    got = np.stack([np.ravel(p[0][0]), np.ravel(p[0][1])], axis=1).astype("f4")
    want = s.pos[free[goff[10]:goff[10] + glen[10]], :2]
    srt = lambda a: a[np.lexsort(a.T)]
    expect(got.shape == want.shape and np.array_equal(srt(got), srt(want)), lambda: "the points plotted (%d) are not the particles of the group (%d)" % (len(got), len(want)), "points")
    c.n("particles", len(want))
    c.n("compared")


def catalogue(c, rng, scratch):
    e = "<>"[int(rng.integers(2))]
    base = scratch + "/virgo/data/Millennium"
    rows = []
    for i in range(512):
        ns = int(rng.integers(0, 6)) if rng.random() < .7 else 0
        f = lambda *s: (rng.lognormal(size=s) * 100).astype("f4") * np.where(rng.random(s) < .3, -1, 1).astype("f4")
        cols = dict(SubPos=f(ns, 3), SubVel=f(ns, 3), SubLen=rng.integers(20, 10**6, size=ns), SubParentHalo=rng.integers(0, 1000, size=ns))
        fmt.lg2_sub_tab(rng, e, 8, ns=ns, cols=cols).write(base + "/postproc_063/sub_tab_063.%d" % i)
        for k in range(ns):
            rows.append([cols["SubParentHalo"][k], cols["SubLen"][k]] + cols["SubPos"][k].tolist() + cols["SubVel"][k].tolist())
    c.d(rows=len(rows), byte_order=e)
    ns, out, plots = run(c, "millennium/python/read_subhalo_catalogue.py", scratch)
    lines = [l for l in out.split("\n") if l.strip()][1:]
    expect(len(lines) == len(rows), lambda: "%d subhaloes are printed, %d are in the files" % (len(lines), len(rows)), "rows")
    got = np.array([[float(x) for x in l.split(",")] for l in lines]).reshape((-1, 8))
    want = np.array(rows).reshape((-1, 8))
    expect(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-6 + 1e-7 * np.abs(want)), "a line does not match the catalogue", "values")
    c.n("subhaloes", len(rows))
    c.n("compared")


def clumps(rng, box, nsub, lo=1, hi=25):
    """Particles of nsub subhaloes, each compact (some across the periodic boundary)."""
    n = rng.integers(lo, hi, size=nsub)
    cen = rng.random((nsub, 3)) * box
    cen[rng.random((nsub, 3)) < .15] = 0.0
    pos = cen[np.repeat(np.arange(nsub), n)] + rng.normal(size=(int(n.sum()), 3)) * (box / 200)
    return n, cen, (pos % box).astype("f4")


def averages(box, a, off, n, pos, vel):
    """Mean position, mean velocity, specific angular momentum of each subhalo, in double precision."""
    mp, mv, am, scale = [], [], [], []
    for o, k in zip(off, n):
        p, v = pos[o:o + k].astype("f8"), vel[o:o + k].astype("f8")
        p = p[0] + (p - p[0] + box / 2) % box - box / 2
        mp.append(p.mean(axis=0))
        mv.append(v.mean(axis=0) * np.sqrt(a))
        d = (p - p.mean(axis=0)) * a
        w = (v - v.mean(axis=0)) * np.sqrt(a)
        am.append(np.cross(d, w).mean(axis=0))
        scale.append((np.abs(d).max() + 1e-6 * box) * (np.abs(v).max() + 1e-9) + 1e-6 * box * np.abs(v).max())
    return np.array(mp).reshape((-1, 3)), np.array(mv).reshape((-1, 3)), np.array(am).reshape((-1, 3)), np.array(scale)


def header(o, at, box, z):
    """Fix the header of a Gadget snapshot: box size and redshift."""
    o.attrs["Header/BoxSize"], o.attrs["Header/Redshift"] = box, z


def gadget(rng, e, path, nfile, pos, vel, ids, box, mass):
    """Files of a Gadget snapshot with only particles of type 1; returns the redshift of the first."""
    n = len(ids)
    cut = np.sort(rng.integers(0, n + 1, size=nfile - 1))
    ends = np.concatenate([[0], cut, [n]]).astype(int)
    z = None
    for i in range(nfile):
        sl = slice(ends[i], ends[i + 1])
        k = ends[i + 1] - ends[i]
        data = {(1, "Coordinates"): pos[sl], (1, "Velocities"): vel[sl], (1, "ParticleIDs"): ids[sl]}
        o = fmt.gadget_snapshot(rng, e, [0, k, 0, 0, 0, 0], [0, mass, 0, 0, 0, 0], total=[0, n, 0, 0, 0, 0], nfiles=nfile, data=data, blocks=3, box=box)
        if z is None:
            z = float(o.attrs["Header/Redshift"])
        o.write(path % i)
    return z


def milli_units(c, rng, scratch):
    e = "<>"[int(rng.integers(2))]
    base = scratch + "/gpfs/data/jch/MilliMillennium/Snapshots"
    box = 62.5
    per = [int(rng.integers(0, 6)) for _ in range(8)]
    if not sum(per):
        per[int(rng.integers(8))] = 2
    n, cen, pos = clumps(rng, box, sum(per))
    ids = (1 + rng.permutation(np.unique(rng.integers(0, 2**25, size=len(pos) + 60)))[:len(pos) + 20]).astype("u8")
    loose = rng.random((len(ids) - len(pos), 3)) * box
    allpos = np.concatenate([pos, loose.astype("f4")])
    vel = (rng.normal(size=allpos.shape) * 300).astype("f4")
    order = rng.permutation(len(ids))
    z = gadget(rng, e, base + "/snapdir_040/snap_milli_040.%d", 8, allpos[order], vel[order], ids[order], box, .0861)
    first = 0
    extra = len(pos)
    for f in range(8):
        mine = n[first:first + per[f]]
        o = int(n[:first].sum())
        g = ids[o:o + int(mine.sum())]
        if rng.random() < .5 and extra < len(ids):
            g = np.concatenate([g, ids[extra:extra + 1]])       # in a group but in none of its subhaloes
            extra += 1
        key = rng.integers(0, 2**24, size=len(g)).astype("u8") << np.uint64(34)
        fmt.lg2_sub_tab(rng, e, 8, ns=per[f], cols=dict(SubLen=mine, SubOffset=np.cumsum(mine) - mine, SubVel=np.ones((per[f], 3)), SubSpin=np.ones((per[f], 3)))).write(base + "/postproc_040/sub_tab_040.%d" % f)
        fmt.lg2_ids(rng, e, 8, "NFiles", ids=g | key).write(base + "/postproc_040/sub_ids_040.%d" % f)
        first += per[f]
    c.d(subhaloes=len(n), particles=len(ids), byte_order=e)
    ns, out, plots = run_units(c, "millennium/python/check_units.py", scratch)
    units(c, ns, box, z, n, pos, vel[:len(pos)])


def units(c, ns, box, z, n, pos, vel):
    a = 1 / (1 + z)
    mp, mv, am, scale = averages(box, a, np.cumsum(n) - n, n, pos, vel)
    if "mean_pos" in ns:
        d = (np.asarray(ns["mean_pos"]) - mp + box / 2) % box - box / 2
        expect(d.shape == mp.shape and np.all(np.abs(d) < 3e-6 * box), "mean positions of subhaloes are wrong", "mean-pos")
    if "mean_vel" in ns:
        expect(np.shape(ns["mean_vel"]) == mv.shape and np.all(np.abs(ns["mean_vel"] - mv) < 1e-3 * (1 + np.abs(mv))), "mean velocities of subhaloes are wrong", "mean-vel")
    if "am" in ns:
        got = np.asarray(ns["am"])
        expect(got.shape == am.shape and np.all(np.abs(got - am) < 1e-3 * scale[:, None]), "angular momenta of subhaloes are wrong", "spin")
    c.n("subhaloes", len(n))
    c.n("compared")
    return am, scale


def m2_units(c, rng, scratch):
    e = "<>"[int(rng.integers(2))]
    base = scratch + "/gpfs/data/jch/Millennium2/SmallRun"
    box = 100.0
    nsub = int(rng.integers(1, 60))
    n, cen, pos = clumps(rng, box, nsub)
    m = len(pos) + int(rng.integers(0, 30))
    ids = rng.permutation(m).astype("u4")
    allpos = np.concatenate([pos, (rng.random((m - len(pos), 3)) * box).astype("f4")])
    vel = (rng.normal(size=allpos.shape) * 300).astype("f4")
    order = rng.permutation(m)
    z = gadget(rng, e, base + "/snapdir_040/snap_newtest432_040.%d", 128, allpos[order], vel[order], ids[order], box, 1.0)
    spin = rng.normal(size=(nsub, 3)).astype("f4")
    cut = np.concatenate([[0], np.sort(rng.integers(0, nsub + 1, size=127)), [nsub]])
    icut = np.concatenate([[0], np.sort(rng.integers(0, len(pos) + 1, size=127)), [len(pos)]])
    off = np.cumsum(n) - n
    for f in range(128):
        S = slice(cut[f], cut[f + 1])
        k = int(cut[f + 1] - cut[f])
        fmt.pg3_sub_tab(rng, e, 4, 4, False, n=0, ns=k, nt=128, cols=dict(SubLen=n[S], SubOffset=off[S], SubSpin=spin[S], SubVel=spin[S], SubCofM=cen[S])).write(base + "/groups_040/subhalo_tab_040.%d" % f)
        fmt.pg3_ids(rng, e, 4, ids=ids[icut[f]:icut[f + 1]]).write(base + "/groups_040/subhalo_ids_040.%d" % f)
    c.d(subhaloes=nsub, particles=m, byte_order=e)
    ns, out, plots = run_units(c, "millennium2/python/check_units.py", scratch)
    am, scale = units(c, ns, box, z, n, pos, vel[:len(pos)])
    p = [a for a in plots if len(a) >= 2 and np.size(a[0]) == nsub]
    expect(p, "no plot has a point for each subhalo", "no-plot")
    x, y = (np.ravel(q).astype("f8") for q in p[0][:2])
    expect(np.all(np.abs(x - np.sqrt((am**2).sum(axis=1))) < 3e-3 * scale) and near(y, np.sqrt((spin.astype("f8")**2).sum(axis=1)), 1e-5), "the angular momenta plotted are wrong", "plot")


def rvmax(c, rng, scratch):
    e = "<>"[int(rng.integers(2))]
    base = scratch + "/virgo/data/Millennium2/BigRun"
    box = float(rng.choice([100.0, 1.0]))
    nfof = int(rng.integers(1, 12))
    nsub = rng.integers(0, 12, size=nfof)
    nsub[int(rng.integers(nfof))] += max(0, 44 - int(nsub.sum())) + int(rng.integers(0, 4))
    ntot = int(nsub.sum())
    n, cen, spos = clumps(rng, box, ntot, 2, 60)
    parent = np.repeat(np.arange(nfof), nsub)
    first = np.cumsum(nsub) - nsub
    pos, foflen, suboff = [], [], []
    at, o = 0, 0
    for g in range(nfof):
        k = 0
        for i in range(first[g], first[g] + nsub[g]):
            suboff.append(o + k)
            pos.append(spos[at:at + n[i]])
            at += n[i]
            k += n[i]
        fuzz = int(rng.integers(1 if k == 0 else 0, 20))
        pos.append((rng.random((fuzz, 3)) * box).astype("f4"))
        foflen.append(k + fuzz)
        o += k + fuzz
    pos.append((rng.random((int(rng.integers(0, 30)), 3)) * box).astype("f4"))
    pos = np.concatenate(pos)
    m = len(pos)
    mass = float(rng.random() + .1)
    nf = int(rng.integers(1, 6))
    z = gadget(rng, e, base + "/snapdir_040/snap_newMillen_subidorder_040.%d", nf, pos, np.ones((m, 3), "f4"), np.arange(m).astype("u8"), box, mass)
    foflen = np.array(foflen)
    vmax, rv = rng.random(ntot).astype("f4") * 100, rng.random(ntot).astype("f4")
    nc = int(rng.integers(1, 4))
    gc = np.concatenate([[0], np.sort(rng.integers(0, nfof + 1, size=nc - 1)), [nfof]])
    sc = np.concatenate([[0], np.sort(rng.integers(0, ntot + 1, size=nc - 1)), [ntot]])
    suboff = np.array(suboff)
    cen = cen.astype("f4")
    for f in range(nc):
        G, S = slice(gc[f], gc[f + 1]), slice(sc[f], sc[f + 1])
        fmt.pg3_sub_tab(rng, e, 8, 4, False, n=int(gc[f + 1] - gc[f]), ns=int(sc[f + 1] - sc[f]), nt=nc, cols=dict(
            GroupLen=foflen[G], GroupOffset=(np.cumsum(foflen) - foflen)[G], Nsubs=nsub[G], FirstSub=first[G], SubLen=n[S], SubOffset=suboff[S],
            SubGrNr=parent[S], SubPos=cen[S], SubVmax=vmax[S], SubRVmax=rv[S])).write(base + "/groups_040/subhalo_tab_040.%d" % f)
    c.d(groups=nfof, subhaloes=ntot, files=nf, catalogue_files=nc, byte_order=e)
    try:
        ns, out, plots = run(c, "millennium2/python/compute_rvmax.py", scratch)
    except KeyError as e:
        if e.args != ("SubNr",):
            raise
        c.soft("compute_rvmax:SubNr", "compute_rvmax.py: there is no SubNr in what read_fof_group returns")
        return
    num = [float(x) for x in re.findall(r"=\s*([-+0-9.e]+)\s*$", out, re.M)]
    expect(len(num) == 4, lambda: "four values are expected in %r" % out, "output")
    i = 43
    p = pos[suboff[i]:suboff[i] + n[i]].astype("f8")
    r = np.sort(np.sqrt((((p - cen[i].astype("f8") + box / 2) % box - box / 2) ** 2).sum(axis=1)))
    a = 1 / (1 + z)
    v = np.zeros(len(r))
    v[r > 0] = np.sqrt(6.67408e-11 * (np.arange(len(r)) * mass * 1e10 * 1.98855e30)[r > 0] / (r[r > 0] * a * 3.086e22)) / 1000
    tol = 1e-5 * box / max(r[0], 1e-9) * 0 + 1e-3
    best = v.max()
    expect(abs(num[2] - best) <= tol * best, lambda: "Vmax from particles is %s, not %s" % (num[2], best), "vmax")
    ok = [abs(num[0] - q * a) <= 1e-3 * q * a for q, w in zip(r, v) if w >= best * (1 - 2 * tol)]
    expect(any(ok), lambda: "RVmax from particles is %s, not %s" % (num[0], r[np.argmax(v)] * a), "rvmax")
    expect(near(np.array([num[1], num[3]]), np.array([rv[i], vmax[i]]), 1e-5), "values of the catalogue are those of another subhalo", "catalogue")
    c.n("particles", int(n[i]))
    c.n("compared")


def mr7(c, rng, scratch):
    import h5py
    d = scratch + "/gpfs/data/Millgas/data/dm/500/snapdir_061"
    os.makedirs(d)
    n = int(rng.integers(0, 200))
    box = float(rng.integers(1, 1000))
    with h5py.File(d + "/500_dm_061.0.hdf5", "w") as f:
        h = f.create_group("Header")
        h.attrs["BoxSize"] = box
        h.attrs["NumPart_ThisFile"] = np.array([7, n, 9, 0, 0, 0], "i4")
        dd = dict(Coordinates=rd(rng, "f4", n, 3), Velocities=rd(rng, "f4", n, 3), ParticleIDs=rd(rng, "u8", n))
        for k, v in dd.items():
            f["PartType1/" + k] = v
    c.d(particles=n, box=box)
    ns, out, plots = run(c, "millennium-wmap7/python/read_mr7_snapshot_file.py", scratch)
    num = [float(x) for x in re.findall(r"is\s+([0-9.e+]+)", out)]
    expect(num == [box, float(n)], lambda: "prints %r, the box is %s and has %d particles" % (out, box, n), "output")
    for g, k in (("pos", "Coordinates"), ("vel", "Velocities"), ("ids", "ParticleIDs")):
        if g in ns:
            expect(fmt.same(np.asarray(ns[g]), dd[k]), "%s is not what is in the file" % k, "values")
    c.n("compared")
