"""P07: filter bases and the precomputed DISCO filter tensor equal their definitions."""
from checks.p05 import *  # noqa
from sa import model_disco as MD

META = {
    "level": "other",
    "explanation": "compute_support_vals of each filter basis, the normalisation and the precomputed sparse filter tensor are abstractly interpreted for symbolic shapes; argwhere results are kept as the listing of a predicate, so that the "
                   "densified (index, value) pairs can be compared as value numbers with the defining formula of specs/vspec.py.",
    "assumptions": ["torch operators behave as their transfer functions in sa/torchops.py", "Bessel functions and their zeros are those of scipy.special"],
}
NR, NPHI = S("nr"), SZ("nphi", 2)
HH, WW = S("npr"), S("npp")
CUT = T.sym("cutoff")


def unit(nm, ax):
    e = O.ewise(None, "sin", [Poly.atom(("T", nm, tuple(Poly.atom(a) for a in ax))) * 37])
    return (e + 1) * Poly.const(Fraction(1, 2))


def points():
    ax = [T.new_axis(HH), T.new_axis(WW)]
    r = Ten(ax, unit("r", ax) * CUT * Poly.const(Fraction(6, 5)), F64, O.FRESH)
    bx = [T.new_axis(HH), T.new_axis(WW)]
    phi = Ten(bx, unit("phi", bx) * 2 * Poly.atom(("pi",)), F64, O.FRESH)
    return r, phi


def job_basis(kind, kshape, spec_, kw, suml2=True):
    def run(it):
        fb = it.call(cls(it, "torch_harmonics.filter_basis." + kind), [], dict({"kernel_shape": kshape}, **dict(kw)))
        r, phi = points()
        idx, vals = it.iterate(it.call(it.getattr(fb, "compute_support_vals", None), [r, phi], {"r_cutoff": CUT}))
        K = it.getattr(fb, "kernel_size", None)
        return it.call(cls(it, "vspec.dense"), [idx, vals, K, HH, WW], {})

    def sp(it, got):
        r, phi = points()
        return spec_(it, r, phi)
    return decide("filter-basis", "%s %s %s" % (kind, kshape, dict(kw)), kind, run, sp, base_config(summaries={"*.compute_l2_norms": sum_l2}) if suml2 else base_config())


def pl(nr, nphi):
    def f(it, r, phi):
        K = T.fdiv(nr, P(2)) * nphi + T.mod(nr, P(2))
        return it.call(cls(it, "vspec.piecewise_linear"), [r, phi, nr, nphi, K, CUT], {})
    return f


def harm(n0, n1, normed):
    def f(it, r, phi):
        K = n0 * n1
        norms = None
        if normed:
            a = T.new_axis(K)
            norms = Ten([a], O.ewise(None, "clamp", [Poly.atom(("T", "l2norm", (Poly.atom(a),)))]) if False else Poly.atom(("fn", "clamp", Poly.atom(("T", "l2norm", (Poly.atom(a),))), Poly.const(1e-12), "None")), F64, O.FRESH)
        return it.call(cls(it, "vspec.harmonic"), [r, phi, n0, n1, K, CUT, norms], {})
    return f


def zern(n):
    return lambda it, r, phi: it.call(cls(it, "vspec.zernike"), [r, phi, n, T.fdiv(n * (n + 1), P(2)), CUT], {})


def sum_l2(it, fn, args, kw, node):
    K = it.getattr(args[0], "kernel_size", node)
    return O.mk_input("l2norm", [K], F64)


EPS = Poly.const(1e-9)
NNZ = MD.NNZ
MODES = ("nodal", "modal", "mean", "support", "geometric", "none", "individual", "area ratio")
KS = S("ksize")


def psi_parts():
    sig = (KS, NLATO, NLAT, NLON, NNZ, False, "psi", NLONO, T.ONE, T.ONE)
    return MD.psi_tensors(sig)


def iso_flag(k):
    """an arbitrary 0/1 flag per kernel"""
    return T.delta(T.mod(k, P(2)))


def job_norm(mode, tr, merge, iso):
    qn = NLATO if tr else NLAT

    def qw():
        return O.mk_input("quad", [qn, P(1)], F64)

    def isot(dt=DT("bool")):
        a = T.new_axis(KS)
        return Ten([a], iso_flag(Poly.atom(a)) if iso else T.delta(Poly.atom(a)), dt, O.FRESH)

    def run(it):
        t = psi_parts()
        idx = O.stack(it, L([t["ker"], t["row"], t["col"]]), P(0), None)
        return it.call(cls(it, "torch_harmonics.disco.convolution._normalize_convolution_tensor_s2"), [idx, t["val"], (NLAT, NLON), (NLATO, NLONO), KS, qw(), CUT],
                       {"transpose_normalization": tr, "basis_norm_mode": mode, "merge_quadrature": merge, "isotropic_mask": isot() if iso else None})

    def sp(it, _):
        t = psi_parts()
        m = {"individual": "nodal", "area ratio": "geometric"}.get(mode, mode)
        return it.call(cls(it, "vspec.normalize"), [t["ker"], t["row"], t["col"], t["val"], (NLAT, NLON), (NLATO, NLONO), KS, qw(), CUT, tr, m, merge, isot(F64), EPS], {})
    return decide("normalization", "mode %s transpose=%s merge=%s isotropic mask=%s" % (mode, tr, merge, iso), "_normalize_convolution_tensor_s2", run, sp)


def job_l2(kind, kshape, spec_):
    """the numerical L2 norms: midpoint rule of the basis' own values"""
    nr, nphi = S("qr"), S("qphi")

    def run(it):
        fb = it.call(cls(it, "torch_harmonics.filter_basis." + kind), [], {"kernel_shape": kshape, **({"normalize": False} if "Harm" in kind else {})})
        return it.call(it.getattr(fb, "compute_l2_norms", None), [], {"r_cutoff": CUT, "nr": nr, "nphi": nphi})

    def sp(it, _):
        r, phi = it.iterate(it.call(cls(it, "vspec.disk_grid"), [nr, nphi, CUT], {}))
        return it.call(cls(it, "vspec.l2_norms"), [spec_(it, r, phi), r, nr, nphi, CUT], {})
    return decide("filter-basis-norms", "%s.compute_l2_norms" % kind, kind, run, sp)


def job_fbnorm(nm, mm):
    def run(it):
        fb = it.call(cls(it, "torch_harmonics.filter_basis.FourierBesselFilterBasis"), [], {"kernel_shape": (nm, mm)})
        return it.call(it.getattr(fb, "compute_l2_norms", None), [], {"r_cutoff": CUT})
    return decide("filter-basis-norms", "FourierBesselFilterBasis (%s, %s)" % (nm, mm), "FourierBesselFilterBasis", run, lambda it, _: it.call(cls(it, "vspec.bessel_norms"), [nm, mm, CUT], {}))


def job_mask(kind, kshape, spec_, suml2=True):
    def run(it):
        fb = it.call(cls(it, "torch_harmonics.filter_basis." + kind), [], {"kernel_shape": kshape})
        m = it.getattr(fb, "isotropic_mask", None)
        m = O.torch_fn(it, "torch.as_tensor", "as_tensor", [m], {"dtype": F64}, None)
        return (it.getattr(fb, "kernel_size", None), m)
    return decide("isotropic-mask", "%s %s" % (kind, kshape), kind, run, spec_, base_config(summaries={"*.compute_l2_norms": sum_l2}) if suml2 else base_config())


def mask_spec(name, *a):
    return lambda it, _: it.call(cls(it, "vspec." + name), list(a), {})


def psi_config():
    return base_config(summaries={"*.compute_l2_norms": sum_l2})


def job_psi(tr, mode, merge, gi, go, isob):
    """_precompute_convolution_tensor_s2 against the rotation formula, with a piecewise linear basis"""
    nr, nphi = (P(3), P(1)) if isob else (P(3), P(2))
    K = 2 if isob else 3

    def run(it):
        fb = it.call(cls(it, "torch_harmonics.filter_basis.get_filter_basis"), [], {"kernel_shape": (nr,) if isob else (nr, nphi), "basis_type": "piecewise linear"})
        idx, vals, roff = it.iterate(it.call(cls(it, "torch_harmonics.disco.convolution._precompute_convolution_tensor_s2"), [(NLAT, NLON), (NLATO, NLONO), fb],
                                             {"grid_in": gi, "grid_out": go, "theta_cutoff": TC, "transpose_normalization": tr, "basis_norm_mode": mode, "merge_quadrature": merge}))
        return it.call(cls(it, "vspec.dense3"), [idx, vals, P(K), NLATO, NLAT * NLON], {})

    def sp(it, _):
        iso = it.call(cls(it, "vspec.pl_mask"), [nr, nphi, P(K)], {})
        return it.call(cls(it, "vspec.filter_tensor"), [(NLAT, NLON), (NLATO, NLONO), nr, nphi, P(K), gi, go, TC, Poly.const(1e-3), tr, mode, merge, iso[1] if isinstance(iso, tuple) else iso, EPS], {})
    return decide("filter-tensor", "transpose=%s mode=%s merge=%s %s->%s %s" % (tr, mode, merge, gi, go, "isotropic" if isob else "anisotropic"), "_precompute_convolution_tensor_s2", run, sp, psi_config())


def job_roff(gi, go):
    """row offsets delimit exactly the entries of each output row, in order"""
    def pre(it):
        fb = it.call(cls(it, "torch_harmonics.filter_basis.get_filter_basis"), [], {"kernel_shape": (P(1),), "basis_type": "piecewise linear"})
        return it.iterate(it.call(cls(it, "torch_harmonics.disco.convolution._precompute_convolution_tensor_s2"), [(NLAT, NLON), (NLATO, NLONO), fb],
                                  {"grid_in": gi, "grid_out": go, "theta_cutoff": TC, "transpose_normalization": False, "basis_norm_mode": "none", "merge_quadrature": True}))

    return decide("row-offsets", "%s->%s" % (gi, go), "_precompute_convolution_tensor_s2", lambda it: pre(it)[2], lambda it, _: it.call(cls(it, "vspec.row_offsets"), [pre(it)[0], NLATO], {}), psi_config())


TC = Poly.atom(("pi",)) * T.inv(T.sym("cutinv") + Poly.const(Fraction(137, 100)))


def run(tier):
    t = [(job_basis, ("PiecewiseLinearFilterBasis", (NR,), pl(NR, P(1)), ()))]
    t += [(job_basis, ("PiecewiseLinearFilterBasis", (NR, NPHI), pl(NR, NPHI), ()))]
    t += [(job_basis, ("HarmonicFilterBasis", (NR, NPHI), harm(NR, NPHI, n), (("normalize", n),))) for n in (False, True)]
    t += [(job_basis, ("ZernikeFilterBasis", n, zern(n), ())) for n in (NR,)]
    t += [(job_l2, ("HarmonicFilterBasis", (P(2), P(3)), harm(P(2), P(3), False)))]
    t += [(job_norm, (m, tr, mg, iso)) for m in MODES for tr in (False, True) for mg in (False, True) for iso in (False, True) if (m == "modal" or not iso)]
    for nr in (1, 2, 3, 4):
        for nphi in (1, 2, 3):
            if nphi == 1 or nr > 1:
                t += [(job_mask, ("PiecewiseLinearFilterBasis", (P(nr), P(nphi)), mask_spec("pl_mask", P(nr), P(nphi), P(nr // 2 * nphi + nr % 2)))), (job_mask, ("HarmonicFilterBasis", (P(nr), P(nphi)), mask_spec("first_mask", P(nr * nphi))))]
    t += [(job_mask, ("ZernikeFilterBasis", P(n), mask_spec("zernike_mask", P(n), P(n * (n + 1) // 2)))) for n in (1, 2, 3, 4)]
    t += [(job_psi, (tr, mode, merge, gi, go, iso)) for tr in (False, True) for mode, merge, gi, go, iso in (("nodal", True, "equiangular", "legendre-gauss", True), ("none", False, "legendre-gauss", "lobatto", False), ("modal", True, "lobatto", "equiangular", True))]
    for nm, mm in ((1, 1), (2, 2), (3, 2), (2, 3)):
        a = (P(nm), P(mm))
        t += [(job_basis, ("FourierBesselFilterBasis", a, lambda it, r, phi, a=a: it.call(cls(it, "vspec.fourier_bessel"), [r, phi, a[0], a[1], CUT], {}), (), False)), (job_mask, ("FourierBesselFilterBasis", a, mask_spec("bessel_mask", *a), False)), (job_fbnorm, a)]
    t += [(job_roff, ("legendre-gauss", "equiangular"))]
    return report.run_tasks(t)
