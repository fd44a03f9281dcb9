"""P09: resampling, spectral convolution and Gaussian random fields equal their definitions."""
from checks.p05 import *  # noqa
from sa import randint

META = {
    "level": "other",
    "explanation": "ResampleS2, SpectralConvS2 and GaussianRandomFieldS2 are abstractly interpreted with symbolic sizes, channel and group counts, constructor included; every path's value number must equal that of the defining formula in specs/vspec.py "
                   "(piecewise interpolation in the colatitude table extended by the poles and in the periodic longitude; SHT, bias times integral, degree-wise channel mixing within groups, inverse SHT; Matern spectrum and synthesis). A difference is confirmed by interpreting both value numbers on sampled sizes.",
    "assumptions": ["torch operators behave as their transfer functions in sa/torchops.py", "exact real arithmetic up to 1e-6 relative tolerance in the interpretation of value numbers", "grid sizes >= 3"],
}


def job_resample(gi, go, mode, same=False, dt="float32"):
    so = (NLAT, NLON) if same else (NLATO, NLONO)
    randint.PREFER.update({"batch": (1, 1), "chan": (1, 2)})

    def x():
        return O.mk_input("x", [B, C, NLAT, NLON], DT(dt))

    def run(it):
        o = it.call(cls(it, "torch_harmonics.ResampleS2"), [NLAT, NLON] + list(so), {"grid_in": gi, "grid_out": go, "mode": mode})
        return it.call(o, [x()], {})
    seen = []

    def sp(it, r):
        seen.append(r)
        return it.call(cls(it, "vspec.resample"), [x(), NLAT, NLON, so[0], so[1], gi, go, mode == "bilinear-spherical"], {})
    subj = "ResampleS2 %s -> %s, %s%s, %s" % (gi, go, mode, ", same shape" if same else "", dt)
    return same_dtype(decide("resample", subj, "ResampleS2", run, sp), "resample", subj, "ResampleS2", seen, dt)


def same_dtype(out, rule, subj, where, results, dt):
    for r in results:
        if isinstance(r, Ten) and r.dtype.name is not None and str(r.dtype.name) not in ("?", "unknown"):
            if r.dtype.name != dt:
                out.bad(rule + ":dtype", where, subj, "returns %s for a %s input" % (r.dtype, dt))
            else:
                out.ok(rule + ":dtype", subj)
            return out
    return out


def job_spectral(gi, go, bias, dt):
    ci, co, G = S("cin_per_group"), S("cout_per_group"), S("groups")
    randint.START[0], randint.PTS[0] = 3, 4
    randint.PREFER.update({"batch": (1, 1), "cin_per_group": (1, 2), "cout_per_group": (1, 2), "groups": (1, 2), "nlat": (3, 4), "nlat_out": (3, 4), "nlon": (3, 5), "nlon_out": (3, 5)})

    def x():
        return O.mk_input("x", [B, ci * G, NLAT, NLON], DT(dt))

    def run(it):
        o = it.call(cls(it, "torch_harmonics.SpectralConvS2"), [(NLAT, NLON), (NLATO, NLONO), ci * G, co * G], {"num_groups": G, "grid_in": gi, "grid_out": go, "bias": bias})
        return it.call(o, [x()], {})

    seen = []

    def sp(it, r):
        seen.append(r)
        li = it.call(cls(it, "vspec.truncate"), [NLAT, NLON, None, None, gi], {})[0]
        lo = it.call(cls(it, "vspec.truncate"), [NLATO, NLONO, None, None, go], {})[0]
        n = it.call(cls(it, "vspec.least"), [li, lo], {})
        w = O.mk_input("param:weight", [G, ci, co, n], C64)
        b = O.mk_input("param:spectral_bias", [T.ONE, ci * G, n, n], C64) if bias else None
        return it.call(cls(it, "vspec.spectral_conv"), [x(), w, b, G, (NLAT, NLON), (NLATO, NLONO), gi, go], {})
    subj = "SpectralConvS2 %s -> %s, bias=%s, %s" % (gi, go, bias, dt)
    return same_dtype(decide("spectral-conv", subj, "SpectralConvS2", run, sp), "spectral-conv", subj, "SpectralConvS2", seen, dt)


def job_grf(grid, sigma, dt="float32"):
    kw = {"alpha": T.sym("alpha"), "tau": T.sym("tau"), "radius": T.sym("radius"), "grid": grid, "dtype": DT(dt)}
    if sigma:
        kw["sigma"] = T.sym("sigma")

    def run(it):
        o = it.call(cls(it, "torch_harmonics.random_fields.GaussianRandomFieldS2"), [NLAT], dict(kw))
        sh = it.getattr(it.getattr(o, "isht", None), "lmax", None)
        return it.call(o, [B, O.mk_input("xi", [B, sh, sh], C64)], {})

    def sp(it, r):
        n = it.call(cls(it, "vspec.truncate"), [NLAT, NLAT * 2, None, None, grid], {})[0]
        return it.call(cls(it, "vspec.gaussian_field"), [O.mk_input("xi", [B, n, n], C64), NLAT, kw["alpha"], kw["tau"], kw.get("sigma"), kw["radius"], grid], {})
    return decide("random-field", "GaussianRandomFieldS2 %s, sigma %s" % (grid, "given" if sigma else "default"), "GaussianRandomFieldS2", run, sp, may_raise=not sigma)


def run(tier):
    t = [(job_spectral, (gi, go, b, dt)) for gi, go in (("equiangular", "legendre-gauss"), ("legendre-gauss", "equiangular"), ("lobatto", "lobatto")) for b, dt in ((False, "float32"), (True, "bfloat16"))]
    t += [(job_resample, (gi, go, m, False, "float64")) for m in ("bilinear",) for gi, go in (("equiangular", "legendre-gauss"),)]
    t += [(job_resample, (gi, go, m)) for m in ("bilinear", "bilinear-spherical") for gi in GRID4[:3] for go in GRID4[:3]]
    t += [(job_resample, (g, g, "bilinear", True)) for g in GRID4[:3]]
    t += [(job_grf, (g, s)) for g in ("equiangular", "legendre-gauss") for s in (False, True)]
    return report.run_tasks(t)
