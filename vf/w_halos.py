"""match_halos and consistent_match against a direct computation of which halo received most particles."""
import numpy as np
from vf import arrays as A
from vf.w_groupindex import spread


def gen(rng, n, tier, index):
    if rng.random() < 0.3:
        n1, n2 = int(rng.integers(0, 60)), int(rng.integers(0, 60))
        m12 = rng.integers(-1, max(n2, 1), size=n1) if n2 else np.full(n1, -1)
        m21 = rng.integers(-1, max(n1, 1), size=n2) if n1 else np.full(n2, -1)
        for i in range(n1):
            if n2 and rng.random() < 0.6:
                j = int(rng.integers(n2))
                m12[i], m21[j] = j, i
        t = ["i8", "i4"][int(rng.integers(2))]
        return dict(what="consistent", n1=n1, n2=n2, m12=A.split(m12.astype(t), spread(rng, n, n1)), m21=A.split(m21.astype(t), spread(rng, n, n2)))
    np1, np2 = int(rng.choice([0, 5, 60, 500])), int(rng.choice([0, 5, 60, 500]))
    nh1, nh2 = int(rng.integers(1, 30)), int(rng.integers(1, 30))
    if rng.random() < 0.2:
        nh1 = int(rng.integers(1, n + 1))
    pool = rng.permutation(max(np1, np2) + int(rng.choice([0, 50])))
    big = rng.random() < 0.3
    ids1, ids2 = pool[:np1], rng.permutation(pool)[:np2]
    idt = ["i8", "u8", "i4"][int(rng.integers(3))]
    if big and idt != "i4":
        ids1, ids2 = ids1.astype(idt) + np.dtype(idt).type(2**60), ids2.astype(idt) + np.dtype(idt).type(2**60)
    gt, gt2 = [["i4", "i8", "i2"][int(rng.integers(3))] for _ in "12"]
    g1 = rng.integers(-1, nh1, size=np1).astype(gt)
    g2 = rng.integers(-1, nh2, size=np2).astype(gt2)
    if rng.random() < 0.4:
        # groups mostly keep their particles; ties are frequent because groups are small
        where = {int(i): int(g) for i, g in zip(ids1, g1)}
        g2 = np.array([(where.get(int(i), -1) % nh2 if where.get(int(i), -1) >= 0 and rng.random() < 0.8 else g) for i, g in zip(ids2, g2)], dtype=gt2).reshape(-1)
    if rng.random() < .4:
        # numbers of halos in the second output which need their own type
        g2 = np.where(g2 >= 0, np.iinfo(gt2).max - g2, g2).astype(gt2)
    return dict(what="match", nh1=nh1, nh2=nh2, ids1=A.split(ids1.astype(idt), sp1 := spread(rng, n, np1)), g1=A.split(g1, sp1),
                ids2=A.split(ids2.astype(idt), sp2 := spread(rng, n, np2)), g2=A.split(g2, sp2), local=spread(rng, n, nh1), idt=idt, gt=gt, gt2=gt2)


def features(s):
    f = [s["what"]]
    if s["what"] == "match":
        f += ["ids:" + s["idt"], "groups:" + s["gt"] + "/" + s["gt2"]]
        if not sum(len(x) for x in s["ids1"]) or not sum(len(x) for x in s["ids2"]):
            f.append("trivial")
    elif not s["n1"] or not s["n2"]:
        f.append("trivial")
    return f


def describe(s):
    if s["what"] == "match":
        return dict(halos=(s["nh1"], s["nh2"]), per_rank=s["local"], ids1=[A.brief(x) for x in s["ids1"]], grnr1=[A.brief(x) for x in s["g1"]],
                    ids2=[A.brief(x) for x in s["ids2"]], grnr2=[A.brief(x) for x in s["g2"]])
    return dict(m12=[A.brief(x) for x in s["m12"]], m21=[A.brief(x) for x in s["m21"]])


def run(comm, s, r):
    import virgo.mpi.merger_tree as mt
    if s["what"] == "match":
        ins = [s[k][r].copy() for k in ("g1", "ids1", "g2", "ids2")]
        out = mt.match_halos(*ins, s["local"][r], comm=comm)
        kept = all(np.array_equal(a, s[k][r]) for a, k in zip(ins, ("g1", "ids1", "g2", "ids2")))
    else:
        ins = [s[k][r].copy() for k in ("m12", "m21")]
        out = mt.consistent_match(*ins, comm=comm)
        kept = all(np.array_equal(a, s[k][r]) for a, k in zip(ins, ("m12", "m21")))
    return np.asarray(out), kept


def check(s, results):
    if s["what"] == "match":
        g1, i1, g2, i2 = [np.concatenate(s[k]) for k in ("g1", "ids1", "g2", "ids2")]
        at = {int(i): int(g) for i, g in zip(i2, g2)}
        votes = [dict() for _ in range(s["nh1"])]
        for i, g in zip(i1, g1):
            h = at.get(int(i), -1)
            if g >= 0 and h >= 0:
                votes[g][h] = votes[g].get(h, 0) + 1
        want = np.array([min((-c, h) for h, c in v.items())[1] if v else -1 for v in votes], dtype=int)
        sizes = s["local"]
    else:
        m12, m21 = np.concatenate(s["m12"]), np.concatenate(s["m21"])
        want = np.array([1 if m >= 0 and m21[m] == i else 0 for i, m in enumerate(m12)], dtype=int)
        sizes = [len(x) for x in s["m12"]]
    o = 0
    for i, (_, (got, kept)) in enumerate(results):
        w = want[o:o + sizes[i]]
        o += sizes[i]
        if got.shape != w.shape:
            return "rank %d: %s results, %s expected" % (i, got.shape, w.shape)
        if not np.array_equal(got, w):
            return "rank %d: wrong %s: got %s want %s" % (i, s["what"], A.brief(got), A.brief(w))
        if not kept:
            return "rank %d: the call changed an input array" % i
    return None
