"""Generators of distributed arrays, shared by the MPI workloads."""
import numpy as np

INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
FLOATS = ["f4", "f8"]
PAIR = [("a", "i8"), ("b", "i8")]
REC = [("id", "i8"), ("x", "f8"), ("w", "f4"), ("n", "i4")]


def sizes(rng, n, cap):
    """Number of elements per rank: empty ranks, everything on one rank, skewed, even."""
    style = ["even", "random", "skewed", "one", "some_empty", "all_empty", "tiny", "edges"][rng.choice(8, p=[.15, .22, .13, .08, .2, .04, .12, .06])]
    if style == "even":
        s = np.full(n, rng.integers(1, cap + 1))
    elif style == "random":
        s = rng.integers(0, cap + 1, size=n)
    elif style == "skewed":
        s = (cap * rng.random(n) ** 6).astype(int)
    elif style == "one":
        s = np.zeros(n, int)
        s[rng.integers(n)] = rng.integers(1, cap + 1)
    elif style == "some_empty":
        s = rng.integers(1, cap + 1, size=n) * (rng.random(n) < 0.5)
    elif style == "all_empty":
        s = np.zeros(n, int)
    elif style == "tiny":
        s = rng.integers(0, 3, size=n)
    else:
        s = np.zeros(n, int)
        s[0] = rng.integers(0, cap + 1)
        s[-1] = rng.integers(0, cap + 1)
    return [int(x) for x in s], style


def values(rng, n, dtype, style=None, inf=True):
    """n values of a given type: with many, few or no duplicates, extremes, constants, presorted."""
    dt = np.dtype(dtype)
    styles = ["wide", "few", "const", "sorted", "reverse", "extreme", "runs", "perm"]
    if style is None:
        style = styles[int(rng.integers(len(styles)))]
    if dt.kind in "iu":
        info = np.iinfo(dt)
        if style == "wide":
            v = rng.integers(info.min, info.max, size=n, dtype=dt, endpoint=True)
        elif style == "few":
            lo = 0 if dt.kind == "u" else -3
            v = rng.integers(lo, 4, size=n).astype(dt)
        elif style == "const":
            v = np.full(n, rng.integers(info.min, info.max, size=1, dtype=dt, endpoint=True)[0], dtype=dt)
        elif style == "extreme":
            pool = [info.min, info.min + 1, 0, 1, info.max - 1, info.max]
            if dt.itemsize == 8:
                pool += [2**53, 2**53 + 1, 2**53 + 2, 2**62, 2**62 + 1]
            v = np.array([pool[i] for i in rng.integers(len(pool), size=n)], dtype=dt) if n else np.zeros(0, dt)
        elif style == "runs":
            v = np.repeat(np.arange(1 + n // 5), 5)[:n].astype(dt) if n < 600 or dt.itemsize > 1 else (np.arange(n) // 37).astype(dt)
        elif style == "perm":
            v = rng.permutation(n).astype(dt)
        else:
            v = np.sort(rng.integers(info.min, info.max, size=n, dtype=dt, endpoint=True))
            if style == "reverse":
                v = v[::-1].copy()
        return v, style
    if dt.kind == "f":
        if style in ("wide", "perm"):
            v = rng.standard_normal(n) * 10.0 ** rng.integers(-8, 8)
        elif style == "few":
            v = rng.integers(-3, 4, size=n) * 0.1
        elif style == "const":
            v = np.full(n, rng.standard_normal())
        elif style == "extreme":
            pool = [0.0, -0.0, np.finfo(dt).max, np.finfo(dt).min, np.finfo(dt).tiny, 1.0]
            if inf:
                pool += [np.inf, -np.inf]
            v = np.array(pool)[rng.integers(len(pool), size=n)]
        elif style == "runs":
            v = np.repeat(rng.standard_normal(1 + n // 7), 7)[:n]
        else:
            v = np.sort(rng.standard_normal(n))
            if style == "reverse":
                v = v[::-1]
        return np.ascontiguousarray(v, dtype=dt), style
    if dt.kind == "b":
        return rng.random(n) < 0.5, "bool"
    if dt.names:
        out = np.zeros(n, dtype=dt)
        for name in dt.names:
            f = dt[name]
            if f.subdtype is not None:
                out[name] = rng.integers(-100, 100, size=(n,) + f.subdtype[1])
            else:
                out[name] = values(rng, n, f, style if style in styles else None, inf=inf)[0]
        return out, style
    raise ValueError(dtype)


def split(arr, sz):
    o = np.concatenate([[0], np.cumsum(sz)])
    return [arr[o[i]:o[i + 1]] for i in range(len(sz))]


def rows(rng, n, tail, dtype, style=None):
    """Array of shape (n,)+tail."""
    k = int(np.prod(tail)) if tail else 1
    v, st = values(rng, n * k, dtype, style)
    return v.reshape((n,) + tuple(tail)), st


MEMORY = ["C", "F", "transposed", "strided", "reversed"]


def relayout(a, how):
    """The same values with another memory layout."""
    if how == "C":
        return np.array(a, order="C", copy=True)
    if how == "F":
        return np.array(a, order="F", copy=True)
    if how == "transposed":
        return np.ascontiguousarray(a.T).T
    if how == "strided":
        big = np.zeros((2 * a.shape[0] + 1,) + a.shape[1:], dtype=a.dtype)
        v = big[1::2][:a.shape[0]]
        v[...] = a
        return v
    if how == "reversed":
        b = np.array(a[::-1], order="C", copy=True)
        return b[::-1]
    if how == "readonly":
        b = np.array(a, copy=True)
        b.flags.writeable = False
        return b
    raise ValueError(how)


def same(a, b):
    """Bitwise-equal contents (NaN equals NaN), same shape."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" and b.dtype.kind == "f":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def brief(a, k=12):
    a = np.asarray(a)
    s = np.array2string(a.reshape(-1)[:k], threshold=k, separator=",") if a.dtype.names is None else str(a.reshape(-1)[:4].tolist())
    return "%s%s %s" % (a.dtype.str if a.dtype.names is None else "rec", list(a.shape), s.replace("\n", ""))


def units_of(a):
    return str(getattr(a, "units", None))


def kw(s, **k):
    """Keyword arguments (value, documented default): half of the cases leave out those which have their default."""
    return {n: v for n, (v, d) in k.items() if not (s["_drop"] and v is d)}
