"""
Merger trees and the database tables made of them. opts["variant"]: index | table | eagle
"""
import os, re
import numpy as np
from vf.serialworker import expect, Bad
from vf.w_binary import same


def case(c, rng, tier, index, scratch, opts):
    globals()["c_" + opts["variant"]](c, rng, tier, index, scratch, opts)


def forest(rng, n, shape):
    """Random forest: (nodeIndex, descendantIndex, snapnum, parent as position). Descendants are later in time."""
    nsnap = int(rng.integers(2, 60))
    snap = np.sort(rng.integers(0, nsnap, size=n))[::-1].copy()
    par = -np.ones(n, int)
    for i in range(n):
        if shape == "chain":
            snap[i] = n - i
        later = np.flatnonzero(snap[:i] > snap[i]) if i else np.zeros(0, int)
        if len(later) == 0 or rng.random() < {"mixed": .1, "chain": .02, "bushy": .02, "roots": .8, "star": .01}[shape]:
            continue
        if shape == "chain":
            par[i] = later[-1]
        elif shape == "star":
            par[i] = later[0]
        elif shape == "bushy":
            par[i] = later[int(len(later) * rng.random() ** 2)]
        else:
            par[i] = later[int(rng.integers(len(later)))]
    o = rng.permutation(n)
    inv = np.argsort(o)
    par, snap = par[o], snap[o]
    par = np.where(par >= 0, inv[par], -1)
    base = int(rng.choice([0, 1, 10**12, 2**53]))
    pool = rng.permutation(4 * n + 1)[:n].astype(np.int64) * int(rng.choice([1, 1, 1000003])) + base
    node = pool if rng.random() < .8 else np.sort(pool)
    gone = int(rng.choice([-1, -999])) if rng.random() < .8 or n == 0 else int(node.max()) + 17     # a descendant outside the file
    desc = np.where(par >= 0, node[par], gone).astype(np.int64) if n else node.copy()
    return node, desc, snap.astype(np.int32), par


def masses(rng, n, t):
    r = rng.random()
    if r < .3:
        return rng.integers(1, 5, size=n).astype(t)              # many ties
    if r < .4:
        return np.full(n, 2.5, t)
    return (10.0 ** rng.uniform(0, 4, size=n)).astype(t)


def c_index(c, rng, tier, index, scratch, opts):
    from virgo.database import index_trees as T
    shape = ["mixed", "chain", "bushy", "roots", "star"][int(rng.integers(5))]
    cap = int(rng.choice([1, 5, 60, 250]))
    n = int(rng.integers(0 if rng.random() < .1 else 1, cap + 1))
    node, desc, snap, par = forest(rng, n, shape)
    t = ["f4", "f8"][int(rng.integers(2))]
    mass = masses(rng, n, t)
    kids = [[] for _ in range(n)]
    for i in range(n):
        if par[i] >= 0:
            kids[par[i]].append(i)
    order = np.argsort(snap, kind="stable")              # progenitors first
    size = np.ones(n, int)
    tmass = mass.astype(float)
    mb = mass.copy()
    for i in order:
        if kids[i]:
            mb[i] = mass[i] + max(mb[k] for k in kids[i])
            size[i] += sum(size[k] for k in kids[i])
            tmass[i] += sum(tmass[k] for k in kids[i])
    c.f("shape:" + shape)
    c.d(nodes=n, roots=int((par < 0).sum()), snapshots=int(snap.max()) if n else 0)
    if n < 2:
        c.f("trivial")
    keep = [x.copy() for x in (node, desc, snap, mass)]
    c.go()
    got = T.find_progenitor_branch_mass_delucia(node, desc, snap, mass)
    tol = 1e-5 if t == "f4" else 1e-10
    expect(got.dtype == mass.dtype and got.shape == (n,) and np.allclose(got, mb, rtol=tol, atol=0),
           lambda: "branch mass is not the mass plus the largest branch mass of a progenitor: %s, not %s" % (got[got != mb][:5], mb[got != mb][:5]), "branch-mass")
    gt = T.find_progenitor_tree_mass(node, desc, snap, mass)
    expect(gt.shape == (n,) and np.allclose(gt, tmass, rtol=tol, atol=0), "tree mass is not the total mass of the progenitors and the object", "tree-mass")
    # any mass can be used to order the progenitors
    m = mb if rng.random() < .5 else masses(rng, n, t)
    ntie, main = T.find_main_progenitor(node, desc, snap, m)
    where = {int(x): i for i, x in enumerate(node)}
    for i in range(n):
        if not kids[i]:
            expect(main[i] == -1 and ntie[i] == 0, "node %d has no progenitor, but main progenitor %d and %d ties" % (node[i], main[i], ntie[i]), "main")
            continue
        big = max(m[k] for k in kids[i])
        j = where.get(int(main[i]), -1)
        expect(j in kids[i] and m[j] == big, lambda: "main progenitor of %d is %d, which is not its most massive progenitor" % (node[i], main[i]), "main")
        near = [abs(float(m[k]) - float(big)) / float(m[k]) for k in kids[i]]
        if not any(2e-6 < x < 5e-5 for x in near):
            w = sum(x < 1e-5 for x in near) - 1
            expect(ntie[i] == w, "node %d has %d ties, not %d" % (node[i], ntie[i], w), "ties")
            if w:
                c.n("ties")
    df, end, last = T.depth_first_index(node, desc, m)
    for a, b in zip((node, desc, snap, mass), keep):
        expect(np.array_equal(a, b), "an input array was changed", "input")
    if n == 0:
        return
    expect(np.array_equal(np.sort(df), np.arange(1, n + 1)), "depth first indexes are not the numbers 1 to n", "permutation")
    expect(np.array_equal(last, df + size - 1), "lastProgenitor is not the last index in the object's tree", "last")
    at = np.empty(n + 2, int)
    at[df] = np.arange(n)
    for i in range(n):
        # progenitors' trees follow one another directly, in descending order of mass
        nxt = df[i] + 1
        prev = None
        ks = sorted(kids[i], key=lambda k: df[k])
        for k in ks:
            expect(df[k] == nxt, lambda: "the tree of node %d is not contiguous" % node[i], "contiguous")
            expect(prev is None or m[k] <= prev, lambda: "progenitors of node %d are not in descending order of mass" % node[i], "order")
            prev = m[k]
            nxt = df[k] + size[k]
    e = df.copy()
    for i in order:
        if kids[i]:
            f = min(kids[i], key=lambda k: df[k])
            e[i] = e[f]
    expect(np.array_equal(end, e), "endMainBranch is not the index at the end of the main branch", "end")
    c.n("nodes", n)


# -- the database table ------------------------------------------------------
SQL = {"i4": "integer", "i8": "bigint", "f4": "real", "f8": "float"}
BACK = {"integer": "<i4", "bigint": "<i8", "real": "<f4", "float": "<f8"}


def c_table(c, rng, tier, index, scratch, opts):
    import h5py
    from virgo.database import make_dtrees_table as M
    n = int(rng.integers(1, [5, 100, 400][int(rng.integers(3))]))
    node, desc, snap, par = forest(rng, n, "mixed")
    mass = masses(rng, n, ["f4", "f8"][int(rng.integers(2))])
    data = dict(nodeIndex=node, descendantIndex=desc, snapshotNumber=snap, nodeMass=mass)
    for i in range(int(rng.integers(0, 6))):
        k = ["i4", "i8", "f4", "f8", "S7", "S1"][int(rng.integers(6))]
        s = (n, 3) if rng.random() < .4 and k[0] != "S" else (n,)
        if k[0] == "S":
            data["col%d" % i] = np.array([b"x%d" % int(x) for x in rng.integers(0, 99, size=n)], dtype=k)
        elif k[0] == "i":
            data["col%d" % i] = rng.integers(np.iinfo(k).min, np.iinfo(k).max, size=s, dtype=k)
        else:
            data["col%d" % i] = rng.normal(size=s).astype(k)
    nf = int(rng.integers(1, 6))
    cuts = [0] + sorted(int(x) for x in rng.integers(0, n + 1, size=nf - 1)) + [n]
    base = os.path.join(scratch, "tree")
    for i in range(nf):
        with h5py.File("%s.%d.hdf5" % (base, i), "w") as f:
            f.create_group("fileInfo").attrs["numberOfFiles"] = nf
            for k, v in data.items():
                f["haloTrees/" + k] = v[cuts[i]:cuts[i + 1]]
    c.f("files:%d" % nf)
    if nf > 1:
        c.f("several-files")
    c.d(rows=n, files=nf, columns={k: [v.dtype.str, list(v.shape)] for k, v in data.items()})
    # the types there and back
    for k in ("i4", "i8", "f4", "f8", "S%d" % int(rng.integers(1, 200))):
        q = M.sql_type(np.dtype(k))
        expect(q == (SQL.get(k) or "char(%s)" % k[1:]), "SQL type of %s is %s" % (k, q), "type")
        expect(np.dtype(M.numpy_type(q)) == np.dtype(k), "the numpy type of %s is %s" % (q, M.numpy_type(q)), "type")
    for k in ("u8", "i2", "u4", "f2", "U3", "c8", "b1"):
        try:
            q = M.sql_type(np.dtype(k))
        except ValueError:
            continue
        raise Bad("type %s, which has no SQL type here, becomes %s" % (k, q), "type")
    c.go()
    if rng.random() < .15:
        bad = dict(data)
        bad["bad"] = np.zeros((n, 2)) if rng.random() < .5 else np.zeros(n + 1)
        c.f("bad-shape")
        try:
            M.write_sql_server_native_file("t", bad, os.path.join(scratch, "b.dat"), os.path.join(scratch, "b.sql"))
        except ValueError:
            return
        raise Bad("an array of shape %s is written to a table of %d rows" % (bad["bad"].shape, n), "bad-shape")
    out = os.path.join(scratch, "out")
    M.make_dtrees_table("My..Table", base, out)
    script = open(out + ".sql").read()
    m = re.match(r"\s*create table My\.\.Table \(\n(.*)\)\s*$", script, re.S)
    expect(m, "the script is not a create table statement: %r" % script[:100], "script")
    cols = []
    for line in m.group(1).strip().split("\n"):
        q = re.match(r"\s*(\w+) (\S+) NOT NULL,?$", line)
        expect(q, "line %r of the script is not a column" % line, "script")
        ch = re.match(r"char\((\d+)\)", q.group(2))
        cols.append((q.group(1), "S" + ch.group(1) if ch else BACK[q.group(2)]))
    raw = open(out + ".dat", "rb").read()
    dt = np.dtype(cols, align=False)
    expect(len(raw) == n * dt.itemsize, lambda: "the table has %d bytes: %d rows of the columns of the script are %d" % (len(raw), n, n * dt.itemsize), "size")
    tab = np.frombuffer(raw, dt)
    seen = set()
    for k, v in data.items():
        for i, s in ([(None, "")] if v.ndim == 1 else list(enumerate(("_x", "_y", "_z")))):
            expect(k + s in tab.dtype.names, "column %s is missing from the table" % (k + s), "column")
            expect(same(tab[k + s], v if i is None else np.ascontiguousarray(v[:, i])), "column %s is not what the files have" % (k + s), "value")
            seen.add(k + s)
    expect(set(tab.dtype.names) - seen == {"mBranch", "depthFirst", "endMainBranch", "lastProgenitor"}, "columns of the table: %s" % (tab.dtype.names,), "column")
    df, last = tab["depthFirst"], tab["lastProgenitor"]
    expect(np.array_equal(np.sort(df), np.arange(1, n + 1)), "depthFirst is not the numbers 1 to n", "index")
    for i in range(n):
        if par[i] >= 0:
            expect(df[par[i]] < df[i] <= last[i] <= last[par[i]], "a progenitor is not in its descendant's range of indexes", "index")
    c.n("rows", n)


# -- names of Eagle files ------------------------------------------------------
DIRS = {"eagle_subfind_tab": "groups", "eagle_subfind_snip_tab": "groups_snip", "group_tab": "groups", "group_snip_tab": "groups_snip",
        "eagle_subfind_particles": "particledata", "eagle_subfind_snip_particles": "particledata_snip", "snapshot": "snapshot", "snipshot": "snipshot"}


def c_eagle(c, rng, tier, index, scratch, opts):
    from virgo.sims.eagle import eagle_filename
    made = {}
    odd = ["[12]", "[a-z]x", "*", "?", " b", "[!0]"][int(rng.integers(6))] if rng.random() < .3 else ""
    if odd:
        c.f("odd-name")
    sims = [os.path.join(scratch, "sim%d_%d%s" % (index, i, odd if rng.random() < .7 else odd[1:] + "1")) for i in range(int(rng.integers(1, 4)))]
    for s in sims:
        os.makedirs(s)
        for b in [list(DIRS)[int(i)] for i in rng.permutation(8)[:int(rng.integers(1, 9))]]:
            for n in rng.permutation(200)[:int(rng.integers(1, 4))]:
                z = "z%03dp%03d" % tuple(int(x) for x in rng.integers(0, 1000, size=2))
                d = os.path.join(s, "%s_%03d_%s" % (DIRS[b], n, z))
                os.makedirs(d, exist_ok=True)
                nf = int(rng.integers(1, 13))
                for i in range(nf):
                    p = os.path.join(d, "%s_%03d_%s.%d.hdf5" % (b, n, z, i))
                    open(p, "w").close()
                    made[s, b, int(n), i] = p
    # a snapshot with two redshift labels cannot be named
    amb = None
    keys = list(made)
    if rng.random() < .4:
        s, b, n, i = keys[int(rng.integers(len(keys)))]
        z2 = "z999p%03d" % int(rng.integers(1000))
        d = os.path.join(s, "%s_%03d_%s" % (DIRS[b], n, z2))
        if not os.path.exists(d):
            os.makedirs(d)
            for j in range(13):
                open(os.path.join(d, "%s_%03d_%s.%d.hdf5" % (b, n, z2, j)), "w").close()
            amb = (s, b, n)
            c.f("ambiguous")
    c.d(simulations=len(sims), files=len(made))
    c.go()
    for q in rng.integers(0, len(keys), size=60):
        s, b, n, i = keys[int(q)]
        if (s, b, n) == amb:
            try:
                p = eagle_filename(s, b, n, i)
            except IOError:
                c.n("refused")
                continue
            raise Bad("snapshot %d of %s has two redshift labels, but %s is returned" % (n, b, p), "ambiguous")
        p = eagle_filename(s, b, n, i)
        expect(p == made[s, b, n, i] or os.path.realpath(p) == os.path.realpath(made[s, b, n, i]), "file %d of %s %d is %s, not %s" % (i, b, n, p, made[s, b, n, i]), "name")
        c.n("names")
    try:
        p = eagle_filename(sims[0], "snapshot", 777, 0)
    except IOError:
        return
    raise Bad("a snapshot which does not exist has the name %s" % p, "absent")
