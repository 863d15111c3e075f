"""replace_none_with_zero_size / broadcast_dtype_and_dims: ranks without data end up with an empty array of the right kind."""
import numpy as np
from vf import arrays as A


def gen(rng, n, tier, index):
    t = ["i4", "f8", "u8", "rec", "f4", "S4"][int(rng.integers(6))]
    tail = [(), (3,), (2, 2)][int(rng.integers(3))]
    have = rng.random(n) < float(rng.choice([0, .2, .5, 1]))
    dt = np.dtype(A.REC if t == "rec" else t)
    return dict(type=t, dt=dt, tail=tail, have=[bool(x) for x in have], size=[int(x) for x in rng.integers(0, 6, size=n)])


def features(s):
    return ["type:" + s["type"], "dims:%d" % (1 + len(s["tail"])), "present:" + ("all" if all(s["have"]) else "some" if any(s["have"]) else "none")]


def describe(s):
    return {k: s[k] for k in ("type", "tail", "have", "size")}


def run(comm, s, r):
    import virgo.mpi.util as u
    a = np.zeros((s["size"][r],) + s["tail"], dtype=s["dt"]) if s["have"][r] else None
    dd = u.broadcast_dtype_and_dims(a, comm=comm)
    out = u.replace_none_with_zero_size(a, comm=comm)
    return None if out is None else (out.shape, out.dtype.str if out.dtype.names is None else str(out.dtype)), (out is a), \
        (None if dd[0] is None else str(dd[0]), None if dd[1] is None else tuple(dd[1]))


def check(s, results):
    for i, (_, (out, isa, dd)) in enumerate(results):
        if not any(s["have"]):
            if out is not None or dd != (None, None):
                return "rank %d: something was made up although no rank has data" % i
            continue
        if dd != (str(s["dt"]), tuple(s["tail"])):
            return "rank %d: dtype and dimensions %s" % (i, dd)
        want = ((s["size"][i] if s["have"][i] else 0,) + s["tail"], s["dt"].str if s["dt"].names is None else str(s["dt"]))
        if out != want:
            return "rank %d: %s instead of %s" % (i, out, want)
        if s["have"][i] and not isa:
            return "rank %d: its own array was not returned" % i
    return None
