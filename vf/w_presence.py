"""
consistency_check/{eagle,p-gadget3}/check_*_file_presence.py run on made up simulation directories with missing files: what it prints is what is there.
"""
import os, sys, io, re, runpy, shutil, contextlib, warnings
import numpy as np
from vf import core, fmt
from vf.serialworker import expect

LINE = re.compile(r"^\s*(\S+) (\d{3,}): (OK      - (\d+) of (\d+) (\S+) files present|MISSING - (\d+) of (\d+) (\S+) files present|MISSING - no (\S+) files present!)$")
SUMMARY = re.compile(r"^\s*(\S+) - (\d+) of (\d+) directories not complete$")
DIRS = ["run", "a b", "run[1]", "x*y", "q?", "Ünter", "r_000_z001p000", "[a-z]"]


def case(c, rng, tier, index, scratch, opts):
    return eagle(c, rng, scratch) if rng.random() < .5 else pgadget3(c, rng, scratch)


def run(name, argv):
    out = io.StringIO()
    keep = sys.argv
    sys.argv = ["prog"] + [str(a) for a in argv]
    rc = 0
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_path(os.path.join(core.REPO, "consistency_check", name), run_name="__main__")
    except SystemExit as e:
        rc = e.code or 0
    finally:
        sys.argv = keep
    return rc, out.getvalue()


def nfiles(rng):
    return int(rng.choice([1, 2, int(rng.integers(1, 12)), int(rng.integers(1, 40)), 300], p=[.3, .2, .3, .18, .02]))


def hdf5(rng, path, attr, n):
    import h5py
    with h5py.File(path, "w") as f:
        g = f.create_group("Header")
        dt = ["i4", "i8", "u4", "i2"][int(rng.integers(4))]
        g.attrs.create(attr, n, dtype=dt)
        g.attrs["NumPart_ThisFile"] = np.arange(6)


def populate(c, rng, names, first, state):
    """
    Write the files called names, of which the first is written by first(path). Returns (files found, files expected or -1).
    state: what is done to them.
    """
    n = len(names)
    d = os.path.dirname(names[0])
    os.makedirs(d, exist_ok=True)
    gone = set()
    if state == "some-missing":
        gone = set(int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))])
        if rng.random() < .6:
            gone -= {0}
    elif state == "last-missing":
        gone = {n - 1}
    elif state == "first-missing":
        gone = {0}
    elif state == "all-missing":
        gone = set(range(n))
    for i, p in enumerate(names):
        if i in gone:
            if rng.random() < .3:
                with open(p + [".tmp", "~", ".bak"][int(rng.integers(3))], "w") as f:     # something else is there instead
                    f.write("x")
        elif i == 0:
            first(p)
            if state == "first-damaged":
                with open(p, "rb+") as f:
                    f.truncate(int(rng.integers(0, 8)))
        else:
            with open(p, "wb") as f:
                f.write(b"" if rng.random() < .8 else b"abc")
    # files beyond those of the snapshot do not count
    if rng.random() < .2:
        with open(names[0].replace(".0", ".%d" % (n + int(rng.integers(3)))) if names[0].endswith(".0") else names[0].replace(".0.hdf5", ".%d.hdf5" % n), "w") as f:
            f.write("x")
    c.f("state:" + state)
    if 0 in gone or state == "first-damaged":
        return 0, -1
    return n - len(gone), n


STATES = ["complete", "some-missing", "last-missing", "first-missing", "all-missing", "first-damaged"]


def state(rng, pgood):
    return STATES[int(rng.choice(6, p=[pgood] + [(1 - pgood) / 5] * 5))]


def judge(c, out, want, order):
    """want: [(directory base, snapshot, file base, found, expected, summary name)] in any order."""
    lines = out.split("\n")
    expect("Summary of missing or incomplete directories:" in lines, "there is no summary in the output: %r" % out[-300:])
    at = lines.index("Summary of missing or incomplete directories:")
    seen = {}
    for l in [l for l in lines[:at] if l.strip()]:
        m = LINE.match(l)
        expect(m, lambda: "unexpected line %r" % l)
        g = m.groups()
        key = (g[0], int(g[1]), g[5] or g[8] or g[9])
        expect(key not in seen, lambda: "%s is reported twice" % (key,), "twice")
        seen[key] = ("ok", int(g[3]), int(g[4])) if g[3] is not None else (("missing", int(g[6]), int(g[7])) if g[6] is not None else ("missing", 0, -1))
    total, bad = {}, {}
    for d, i, f, found, exp, name in want:
        v = seen.pop((d, i, f), None)
        expect(v is not None, lambda: "nothing is reported for %s files in %s_%03d" % (f, d, i), "not-reported")
        ok = found == exp
        expect(v[0] == ("ok" if ok else "missing"), lambda: "%s files in %s_%03d, of which %s of %s are present, are reported as %s" % (f, d, i, found, "?" if exp < 0 else exp, v), "wrong-answer")
        expect(v[1:] == (found, exp), lambda: "%s files in %s_%03d: %d of %d reported, %d of %d are there" % (f, d, i, v[1], v[2], found, exp), "wrong-count")
        total[name] = total.get(name, 0) + 1
        bad[name] = bad.get(name, 0) + (not ok)
        c.n("directories")
        c.n("incomplete", not ok)
    expect(not seen, lambda: "reported although not asked for: %s" % sorted(seen)[:3], "extra")
    summary = {}
    for l in [l for l in lines[at + 1:] if l.strip()]:
        m = SUMMARY.match(l)
        expect(m, lambda: "unexpected line in the summary: %r" % l)
        summary[m.group(1)] = (int(m.group(2)), int(m.group(3)))
    expect(summary == {n: (bad[n], total[n]) for n in total if bad[n]}, lambda: "the summary says %s, there are (incomplete, all) %s" % (summary, {n: (bad[n], total[n]) for n in total if bad[n]}), "summary")


def basedir(c, rng, scratch):
    b = DIRS[int(rng.integers(len(DIRS)))] if rng.random() < .4 else "sim"
    base = os.path.join(scratch, b)
    os.makedirs(base)
    if b in ("run[1]", "x*y", "q?", "[a-z]"):
        c.f("glob-characters")
    return base


def eagle(c, rng, scratch):
    base = basedir(c, rng, scratch)
    nsnap, nsnip = int(rng.integers(0, 5)), int(rng.integers(0, 4))
    pgood = float(rng.choice([.5, .9, 1.0]))
    want = []
    kinds = {"snap": [("snapshot", "snap", "NumFilesPerSnapshot", "snap"), ("groups", "group_tab", "NTask", "group_tab"),
                      ("particledata", "eagle_subfind_particles", "NumFilesPerSnapshot", "eagle_subfind_particles"), ("groups", "eagle_subfind_tab", "NTask", "eagle_subfind_tab")],
             "snip": [("snipshot", "snip", "NumFilesPerSnapshot", "snip"), ("groups_snip", "group_snip_tab", "NTask", "group_snip_tab"),
                      ("particledata_snip", "eagle_subfind_snip_particles", "NumFilesPerSnapshot", "eagle_subfind_snip_particles"), ("groups_snip", "eagle_subfind_snip_tab", "NTask", "eagle_subfind_snip_tab")]}
    for out, num in (("snap", nsnap), ("snip", nsnip)):
        for i in range(num):
            z = "z%03dp%03d" % (int(rng.integers(0, 100)), int(rng.integers(0, 1000)))
            twice = set()
            for d, f, attr, name in kinds[out]:
                n = nfiles(rng)
                names = [os.path.join(base, "%s_%03d_%s" % (d, i, z), "%s_%03d_%s.%d.hdf5" % (f, i, z, k)) for k in range(n)]
                how = rng.random()
                if how < .04:
                    c.f("no-directory")
                    found, exp = 0, -1
                    twice.add(d)          # whether the directory exists is up to the other kind of files in it
                else:
                    found, exp = populate(c, rng, names, lambda p: hdf5(rng, p, attr, n), state(rng, pgood))
                want.append([d, i, f, found, exp, name])
            if rng.random() < .05:
                # two directories for one output: which one is meant is not known, so nothing is reported as present
                d = kinds[out][int(rng.integers(4))][0]
                other = os.path.join(base, "%s_%03d_z%03dp%03d" % (d, i, int(z[1:4]) ^ 1, 0))
                if os.path.isdir(os.path.join(base, "%s_%03d_%s" % (d, i, z))):
                    os.makedirs(other)
                    c.f("ambiguous")
                    for w in want:
                        if w[0] == d and w[1] == i:
                            w[3:5] = 0, -1
    if rng.random() < .3:
        os.makedirs(os.path.join(base, "snapshot_%03d" % (nsnap + 1)))
    c.f("eagle")
    c.d(eagle=True, snapshots=nsnap, snipshots=nsnip, directory=os.path.basename(base))
    rel = rng.random() < .3
    c.go()
    cwd = os.getcwd()
    try:
        if rel:
            os.chdir(scratch)
        rc, out = run("eagle/check_eagle_file_presence.py", [os.path.basename(base) if rel else base, nsnap, nsnip])
    finally:
        os.chdir(cwd)
    expect(rc == 0, "ended with %s" % rc)
    judge(c, out, want, None)


def pgadget3(c, rng, scratch):
    base = basedir(c, rng, scratch)
    snapbase = ["snap", "500_dm", "snap_C02_400", "millennium2"][int(rng.integers(4))]
    ask = rng.random() < .4
    last = int(rng.integers(0, 5))
    first, step = (int(rng.integers(0, 4)), int(rng.integers(1, 4))) if ask else (0, 1)
    pgood = float(rng.choice([.5, .9, 1.0]))
    e = "<>"[int(rng.integers(2))]
    want = []
    snaps = list(range(first, last + 1, step))
    for i in snaps + ([last + 1] if rng.random() < .3 else []):
        hdf = snapbase == "500_dm" or rng.random() < .3
        n = nfiles(rng)

        def snapshot(p):
            if hdf:
                hdf5(rng, p, "NumFilesPerSnapshot", n)
            else:
                npart = rng.integers(0, 5, size=6)
                fmt.gadget_snapshot(rng, e, npart, [0.] * 6, nfiles=n).write(p)

        def sub(make):
            def first(p):
                o = make()
                o.buf[20:24] = np.array(n, dtype=e + "i4").tobytes()
                o.write(p)
            return first
        idb, fb = [4, 8][int(rng.integers(2))], [4, 8][int(rng.integers(2))]
        jobs = [("snapdir", snapbase, snapshot, "snapshot"),
                ("groups", "group_tab", sub(lambda: fmt.pg3_group_tab(rng, e, fb)), "group_tab"),
                ("groups", "group_ids", sub(lambda: fmt.pg3_ids(rng, e, idb)), "group_ids"),
                ("groups", "subhalo_tab", sub(lambda: fmt.pg3_sub_tab(rng, e, idb, fb, False)), "subhalo_tab"),
                ("groups", "subhalo_ids", sub(lambda: fmt.pg3_ids(rng, e, idb)), "subhalo_ids")]
        for d, f, mk, name in jobs:
            n = nfiles(rng)
            ext = ".hdf5" if f == "500_dm" else ""
            names = [os.path.join(base, "%s_%03d" % (d, i), "%s_%03d.%d%s" % (f, i, k, ext)) for k in range(n)]
            if rng.random() < .04:
                c.f("no-directory")
                found, exp = 0, -1
            else:
                found, exp = populate(c, rng, names, mk, state(rng, pgood))
            if i in snaps:
                want.append([d, i, f, found, exp, name])
    c.f("pgadget3", "endian" + e)
    c.d(pgadget3=True, first=first, last=last, step=step, name=snapbase, directory=os.path.basename(base))
    c.go()
    rc, out = run("p-gadget3/check_pgadget3_file_presence.py", [base, snapbase, last] + ([first, step] if ask else []))
    expect(rc == 0, "ended with %s" % rc)
    judge(c, out, want, None)
