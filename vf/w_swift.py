"""SWIFT and SOAP files: values, units and cosmology against the attributes which define them. opts["variant"]: soap | swiftsimio"""
import os
import numpy as np
from vf.serialworker import expect, Bad
from vf.w_binary import same, rand_key

MPC, MSUN, YR = 3.08567758149e24, 1.98841e33, 3.15569251e7


def make(rng, path, nodata_h):
    # (an exponent of the current: only for the swiftsimio units, as unyt has no cgs unit for it; see DESIGN.md)
    import h5py
    a = float(rng.choice([1.0, 0.5])) if rng.random() < .3 else float(rng.uniform(.05, 1.0))
    h = float(rng.uniform(.5, .9))
    if rng.random() < .6:
        UL, UM, UT = MPC, 1e10 * MSUN, MPC / 1e5
    else:
        UL, UM, UT = (float(10.0 ** rng.uniform(x - 1, x + 1)) for x in (24, 43, 19))
    U = dict(L=UL, M=UM, t=UT, T=1.0 if rng.random() < .7 else float(rng.uniform(.5, 2)), I=1.0)
    names = dict(L="length", M="mass", t="time", T="temperature", I="current")
    # internal units differ from those of the file
    V = dict(L=UL * 1e-3, M=UM * 10, t=UT * 2, T=1.0, I=1.0)
    cosmo = dict(Omega_b=.05, Omega_lambda=.7, Omega_r=8e-5, Omega_m=.3, w_0=-1.0, w_a=0.0)
    cosmo = {k: v * rng.uniform(.8, 1.2) for k, v in cosmo.items()}
    H0 = h * 100 * 1e5 / MPC * UT            # in units of the file
    f = h5py.File(path, "w")
    g = f.create_group("Units")
    for k in U:
        g.attrs["Unit %s in cgs (U_%s)" % (names[k], k)] = np.array([U[k]])
    code = rng.random() < .7
    if code:
        g = f.create_group("InternalCodeUnits")
        for k in V:
            g.attrs["Unit %s in cgs (U_%s)" % (names[k], k)] = np.array([V[k]])
    C = dict(parsec=MPC / 1e6 * (1 + 1e-6 * rng.random()), solar_mass=MSUN * (1 + 1e-4 * rng.random()), newton_G=6.6743e-8 * (1 + 1e-5 * rng.random()), speed_light_c=2.99792458e10)
    g = f.create_group("PhysicalConstants/CGS")
    for k in C:
        g.attrs[k] = np.array([C[k]])
    g = f.create_group("Cosmology")
    for k, v in cosmo.items():
        g.attrs[k] = np.array([v])
    g.attrs["Scale-factor"] = np.array([a])
    g.attrs["Redshift"] = np.array([1 / a - 1])
    g.attrs["h"] = np.array([h])
    g.attrs["H0 [internal units]"] = np.array([H0])
    f.create_group("Header").attrs["BoxSize"] = np.array([1.0, 2.0, 3.0])
    # datasets
    dsets = {}
    for i in range(int(rng.integers(1, 7))):
        ex = {k: 0.0 for k in "LMtTI"}
        r = rng.random()
        if r < .15:
            pass
        elif r < .3:
            ex["LMtT"[int(rng.integers(4))] if rng.random() < .9 or not nodata_h else "I"] = float(rng.integers(1, 4))
        else:
            for k in "LMtT":
                if rng.random() < .6:
                    ex[k] = float(rng.choice([-3, -2, -1, 1, 2, 3, .5, -1.5]))
        ae = float(rng.choice([0, 0, ex["L"], ex["L"], 1, -2, .5]))
        he = 0.0 if nodata_h and rng.random() < .9 else float(rng.choice([0, 0, -1, 1, -.5]))
        extra = 1.0 if rng.random() < .6 else float(10.0 ** rng.uniform(-3, 12))      # units which are no power of the base units
        cgs = extra
        for k in ex:
            cgs *= U[k] ** ex[k]
        phys = cgs * a ** ae * h ** he
        shape = [(), (3,), (2, 2)][int(rng.integers(3))] if rng.random() < .5 else ()
        n = int(rng.integers(0, 30))
        t = ["f4", "f8", "i4", "i8"][int(rng.integers(4))]
        d = (rng.normal(size=(n,) + shape) * 100).astype(t)
        name = ["PartType%d/Data%d", "SO/%d/Data%d", "Data%d_%d"][int(rng.integers(3))] % (int(rng.integers(6)), i)
        s = f.create_dataset(name, data=d)
        for k in ex:
            s.attrs["U_%s exponent" % k] = np.array([ex[k]])
        s.attrs["a-scale exponent"] = np.array([ae])
        s.attrs["h-scale exponent"] = np.array([he])
        s.attrs["Conversion factor to CGS (not including cosmological corrections)"] = np.array([cgs])
        s.attrs["Conversion factor to %sCGS (including cosmological corrections)" % ("physical " if rng.random() < .7 else "")] = np.array([phys])
        s.attrs["Description"] = "d%d" % i
        dsets[name] = dict(data=d, ex=ex, ae=ae, he=he, cgs=cgs, phys=phys, extra=extra)
    f.close()
    return dict(a=a, h=h, U=U, V=V if code else None, C=C, cosmo=cosmo, H0=H0), dsets


def close(a, b, tol):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=0)


def case(c, rng, tier, index, scratch, opts):
    import h5py, unyt
    from virgo.formats import swift, soap
    mode = opts["variant"]
    path = os.path.join(scratch, "f.hdf5")
    meta, dsets = make(rng, path, mode == "swiftsimio")
    cls = [swift.SwiftSnapshot, soap.SOAPCatalogue][int(rng.integers(2))]
    c.f(cls.__name__)
    c.d(cls=cls.__name__, mode=mode, a=meta["a"], datasets={k: dict(shape=list(v["data"].shape), type=v["data"].dtype.str, exponents=v["ex"], a=v["ae"], h=v["he"]) for k, v in dsets.items()})
    kw = {} if mode == "soap" and rng.random() < .5 else dict(mode=mode)
    c.go()
    f = cls(path, "r", **kw)
    raw = h5py.File(path, "r")

    # the file and its groups look like those of h5py
    def walk(g, r, at):
        expect(sorted(g) == sorted(r) and len(g) == len(r) and sorted(g.keys()) == sorted(r.keys()), "%s: keys %s" % (at, sorted(g)), "keys")
        expect("no such thing" not in g, "a name which does not exist is found", "keys")
        for k, v in g.items():
            expect(k in g, "%s is not found" % k, "keys")
            if isinstance(r[k], h5py.Group):
                expect(dict((x, y.tolist()) for x, y in v.attrs.items()) == dict((x, y.tolist()) for x, y in r[k].attrs.items()), "attributes of %s" % k, "attributes")
                walk(v, r[k], at + "/" + k)
            else:
                expect(v.shape == r[k].shape and v.dtype == r[k].dtype and len(v) == len(r[k]), "%s: shape or type" % k, "shape")
                expect(set(v.attrs) == set(r[k].attrs), "attributes of %s" % k, "attributes")
    walk(f, raw, "")
    for name, d in dsets.items():
        r = rng.random()
        parts = name.split("/")
        s = f[name] if r < .5 else (f[parts[0]]["/".join(parts[1:])] if len(parts) > 1 else f[name])
        key = rand_key(rng, d["data"].shape) if rng.random() < .5 else Ellipsis
        try:
            want = raw[name][key]
        except (TypeError, ValueError, IndexError):
            key = Ellipsis
            want = raw[name][...]
        ex = d["ex"]
        if mode == "soap":
            x = s[key]
            expect(isinstance(x, unyt.unyt_array) and x.shape == np.shape(want), "%s: not a unyt array of shape %s" % (name, np.shape(want)), "type")
            expect(np.array_equal(np.asarray(x.value), np.asarray(want)), "%s: values are not those in the file" % name, "value")
            f_cgs = float((1.0 * x.units).in_cgs().value)
            expect(close(f_cgs, d["phys"], 1e-8), lambda: "%s: one unit is %g in physical CGS, the file says %g (exponents %s, a %g, h %g)" % (name, f_cgs, d["phys"], ex, d["ae"], d["he"]), "unit")
            dims = {"L": unyt.dimensions.length, "M": unyt.dimensions.mass, "t": unyt.dimensions.time, "T": unyt.dimensions.temperature, "I": unyt.dimensions.current_mks}
            for k in ex:
                e = float(x.units.dimensions.as_powers_dict()[dims[k]]) if x.units.dimensions != 1 else 0.0
                expect(e == ex[k], lambda: "%s: dimension %s has exponent %g, not %g" % (name, k, e, ex[k]), "dimension")
            # the powers of a and h stay visible in the unit
            for sym, w in (("a", d["ae"]), ("h", d["he"])):
                p = sum(float(e) for b, e in x.units.expr.as_powers_dict().items() if str(b) == sym)
                expect(p == w, lambda: "%s: unit %s has %s to the power %g, not %g" % (name, x.units, sym, p, w), "powers")
            c.n("datasets")
        else:
            bad = d["he"] != 0 or (d["ae"] != 0 and d["ae"] != ex["L"])
            if bad:
                try:
                    s[key]
                except ValueError:
                    c.n("refused")
                    continue
                raise Bad("%s: a dataset with exponents a %g, h %g, L %g has swiftsimio units" % (name, d["ae"], d["he"], ex["L"]), "accepts")
            x = s[key]
            expect(x.shape == np.shape(want) and np.array_equal(np.asarray(x.value), np.asarray(want)), "%s: values are not those in the file" % name, "value")
            expect(bool(x.comoving) == (d["ae"] != 0), "%s: comoving is %s with a-scale exponent %g" % (name, x.comoving, d["ae"]), "comoving")
            expect(close(x.cosmo_factor.a_factor, meta["a"] ** d["ae"], 1e-9), "%s: factor between comoving and physical is %g" % (name, x.cosmo_factor.a_factor), "a-factor")
            f_cgs = float((1.0 * x.units).in_cgs().value)
            expect(close(f_cgs, d["cgs"], 1e-8), lambda: "%s: one unit is %g in CGS, the file says %g" % (name, f_cgs, d["cgs"]), "unit")
            if np.size(want) and np.asarray(want).dtype.kind == "f":
                p = x.to_physical()
                expect(close(np.asarray(p.value, float) * f_cgs, np.asarray(want, float) * d["phys"], 1e-5), "%s: physical values are wrong" % name, "physical")
            c.n("datasets")
    # other units and the cosmology
    one = lambda n: float((1.0 * f.get_unit(n)).in_cgs().value)
    U, V, C = meta["U"], meta["V"], meta["C"]
    for n, w in (("swift_mpc", C["parsec"] * 1e6), ("swift_msun", C["solar_mass"]), ("newton_G", C["newton_G"]), ("a", meta["a"]), ("h", meta["h"]),
                 ("snap_length", U["L"]), ("snap_mass", U["M"]), ("snap_time", U["t"]), ("snap_temperature", U["T"])):
        expect(close(one(n), w, 1e-9), lambda: "unit %s is %g in CGS, not %g" % (n, one(n), w), "named-unit")
    if V:
        for n, k in (("code_length", "L"), ("code_mass", "M"), ("code_time", "t")):
            expect(close(one(n), V[k], 1e-9), lambda: "unit %s is %g in CGS, not %g" % (n, one(n), V[k]), "named-unit")
    expect(f.expansion_factor == meta["a"], "expansion factor", "cosmology")
    co = f.cosmology
    for k, w in (("Om0", "Omega_m"), ("Ode0", "Omega_lambda"), ("Ob0", "Omega_b"), ("w0", "w_0"), ("wa", "w_a")):
        expect(close(getattr(co, k), meta["cosmo"][w], 1e-6), lambda: "cosmology: %s is %s, the file has %s" % (k, getattr(co, k), meta["cosmo"][w]), "cosmology")
    H = float(co.H0.to("1/s").value)
    expect(close(H, meta["H0"] / U["t"], 1e-3), lambda: "cosmology: H0 is %g per second, the file has %g" % (H, meta["H0"] / U["t"]), "cosmology")
    f.close()
    raw.close()
