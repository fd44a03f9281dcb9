"""P05: serial transforms, quadrature rules and Legendre tables equal their definitions."""
from checks.dist import *  # noqa
import random
from sa.compare import path_conds
from sa.randint import sample, Unknown
from sa import randint

META = {
    "level": "other",
    "explanation": "Each serial transform, quadrature rule, Legendre table, truncation rule and Fourier wrapper is abstractly interpreted with symbolic sizes; loops become recurrences. "
                   "The resulting value number must equal that of its defining formula (specs/vspec.py: explicit DFT sums, quadrature nodes and weights by defining equations, Legendre functions by explicit polynomial sums). "
                   "A difference is confirmed by interpreting both value numbers on sampled sizes before it is reported.",
    "assumptions": ["torch operators behave as their transfer functions in sa/torchops.py", "exact real arithmetic up to 1e-6 relative tolerance in the interpretation of value numbers", "grid sizes >= 3"],
}
GRID4 = ("equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal")
NORMS = ("ortho", "schmidt", "unnorm")
NPTS = SZ("npts", 1)


def without(*pats):
    c = base_config()
    c["summaries"] = {k: v for k, v in c["summaries"].items() if not any(x in k for x in pats)}
    return c


def flat(v):
    if isinstance(v, (tuple, list)):
        return list(v)
    if isinstance(v, L):
        return list(v.items)
    return [v]


def compare(out, rule, subj, where, got, exp, its):
    if isinstance(exp, (bool, str)) or exp is None:
        if got != exp and not isinstance(got, Top):
            out.bad(rule, where, subj, "is %r, expected %r" % (got, exp))
        else:
            out.ok(rule, subj)
        return
    if isinstance(exp, Poly):
        if isinstance(got, bool) or not isinstance(got, (int, Poly)):
            if isinstance(got, Top) or isinstance(got, Ten):
                out.und(rule, subj, "result not modelled: %s" % str(got)[:100])
            else:
                out.bad(rule, where, subj, "is %r, expected %s" % (got, T.show(exp, 100)))
            return
        r = sizes_equal(P(got) if isinstance(got, int) else got, exp, its)
        if r is True:
            out.ok(rule, subj)
        elif r is None:
            out.und(rule, subj, "not comparable")
        else:
            out.bad(rule, where, subj, "is %s, its definition is %s (%s)" % (T.show(got, 120), T.show(exp, 120), r))
        return
    if not isinstance(got, Ten) or not isinstance(exp, Ten):
        out.und(rule, subj, "result not modelled: %r / %r" % (str(got)[:120], str(exp)[:120]), str(its[0].opaque_log[:2])[:300])
        return
    if len(got.axes) != len(exp.axes):
        out.bad(rule, where, subj, "has %d dimensions, its definition %d" % (len(got.axes), len(exp.axes)))
        return
    for k, (a, b) in enumerate(zip(got.axes, exp.axes)):
        r = sizes_equal(T.axsize(a), T.axsize(b), its)
        if r is None:
            out.und(rule, subj, "size of dimension %d" % k)
            return
        if r is not True:
            out.bad(rule, where, subj, "dimension %d has size %s, expected %s (%s)" % (k, T.show(T.axsize(a), 120), T.show(T.axsize(b), 120), r))
            return
    if got.expr is None or exp.expr is None:
        out.und(rule, subj, "value not modelled", str([x for i in its for x in i.opaque_log][:2])[:300])
        return
    v = values_equal(got.expr, T.subst(exp.expr, {b: Poly.atom(a) for a, b in zip(got.axes, exp.axes)}), got.axes, its)
    if v is True:
        out.ok(rule, subj)
    elif v is None:
        if not (LAST[0] or "").startswith("no sizes"):
            out.und(rule, subj, "not comparable: %s" % LAST[0])
    else:
        out.bad(rule, where, subj, "differs from its definition: %s (path: %s)" % (v, " and ".join("%s is %s" % (c, vv) for i in its for _, c, vv, _ in i.taken)))


def feasible(p):
    """some sizes satisfy the path condition"""
    conds = path_conds(p.it)
    if not conds:
        return True
    try:
        return sample([], conds, random.Random(5), tries=1500) is not None
    except Unknown:
        return True


def decide(rule, subj, where, run, spec, cfg=None, limit=24, may_raise=False, events=SHAPE_EVENTS, scfg=None):
    """run(it) -> results; spec(it, result) -> expected results under the same path condition"""
    out = report.Obl()
    cfg = cfg or base_config()
    ps = explore(lambda: Interp(repo(), cfg), run, limit)
    if ps and ps[0].truncated:
        out.und(rule, subj, "more than %d paths" % limit)
    fns = set()
    for p in ps:
        fns |= p.it.visited
        if not feasible(p):
            continue
        if isinstance(p.exc, GiveUp):
            out.und(rule, subj, "gave up: %s at %s" % (p.exc, getattr(p.exc, "stackloc", "")))
            continue
        if p.exc is not None:
            if not may_raise:
                out.bad(rule + ":raises", where, subj, "raises %s for a valid input (path: %s)" % (p.exc.exc, describe(p)))
            continue
        for kind, msg, loc, fn in p.it.events:
            if kind in events:
                out.bad(rule + ":" + kind, fn, loc, "%s: %s (path: %s)" % (subj, msg, describe(p)))
        index_bounds(out, rule, subj, p)

        def run_s(it):
            it.known.update(p.it.known)
            it.eqs.update(p.it.eqs)
            return spec(it, p.result)
        for q in explore(lambda: Interp(repo(), scfg or base_config()), run_s, 12):
            if q.exc is not None:
                out.und(rule, subj, "definition not evaluated: %s" % q.exc)
                continue
            gs, es = flat(p.result), flat(q.result)
            if len(gs) != len(es):
                out.bad(rule, where, subj, "returns %d values, expected %d" % (len(gs), len(es)))
                continue
            for k, (g, e) in enumerate(zip(gs, es)):
                compare(out, rule, subj + (" [%d]" % k if len(es) > 1 else ""), where, g, e, (p.it, q.it))
    out.note("functions_analysed", sorted(f for f in fns if "vspec" not in f))
    return out


def index_bounds(out, rule, subj, p):
    """no computed index leaves its dimension"""
    conds, fine = None, 0
    for (e, axes, size), (loc, fn) in p.it.bounds.items():
        conds = path_conds(p.it) if conds is None else conds
        try:
            r = randint.out_of_range(e, list(axes), size, conds)
        except Unknown:
            continue
        if r is None:
            fine += 1
        elif r == "negative":
            out.und(rule + ":index", subj, "negative computed index at %s" % loc)
        else:
            out.bad(rule + ":index", fn, loc, "%s: index %s out of range for a dimension of size %s (%s)" % (subj, r[2], r[3], show_env(r[0])))
    if fine:
        out.ok(rule + ":index", "%s: %d index expressions" % (subj, fine))


def spec(name, *args):
    return lambda it, _: it.call(cls(it, "vspec." + name), list(args), {})


# ------------------------------------------------------------------ quadrature
def job_rule(rule, interval, periodic):
    n = SZ("n", 2)
    a, b = [(P(-1), P(1)), (T.sym("a"), T.sym("a") + T.sym("width"))][interval]
    kw = {"a": a, "b": b}
    if periodic is not None:
        kw["periodic"] = periodic
    cfg = without("_weights", "vspec")

    def run(it):
        return it.call(cls(it, "torch_harmonics.quadrature." + rule), [n], kw)
    return decide("quadrature-rule", "%s on %s%s" % (rule, ("[-1,1]", "[a,b]")[interval], "" if periodic is None else " periodic=%s" % periodic), rule, run, lambda it, _: quad_def(rule, n, a, b, periodic), cfg)


def job_nodes(kind, grid):
    def run(it):
        if kind == "precompute_longitudes":
            return it.call(cls(it, "torch_harmonics.quadrature." + kind), [NLON], {})
        return it.call(cls(it, "torch_harmonics.quadrature." + kind), [NLAT], {"grid": grid})

    def sp(it, _):
        if kind == "precompute_longitudes":
            ax = T.new_axis(NLON)
            return Ten([ax], Poly.atom(ax) * P(2) * Poly.atom(("pi",)) * T.inv(NLON), F64, O.FRESH)
        if kind == "precompute_latitudes":
            return it.call(cls(it, "vspec.nodes"), [NLAT, grid], {})
        return it.call(cls(it, "vspec.QUAD"), [{"equiangular": "clenshaw_curtiss_weights", "legendre-gauss": "legendre_gauss_weights", "lobatto": "lobatto_weights", "equiangular-trapezoidal": "trapezoidal_weights"}[grid], NLAT, P(0), P(1), False if "trap" in grid else None], {})
    return decide("grid-nodes", "%s %s" % (kind, grid), kind, run, sp)


def job_integral(grid, normalize, lead):
    def run(it):
        o = it.call(cls(it, "torch_harmonics.QuadratureS2"), [(NLAT, NLON)], {"grid": grid, "normalize": normalize})
        return it.call(o, [O.mk_input("x", [S("lead%d" % i) for i in range(lead)] + [NLAT, NLON], F32)], {})

    def sp(it, _):
        return it.call(cls(it, "vspec.integrate"), [O.mk_input("x", [S("lead%d" % i) for i in range(lead)] + [NLAT, NLON], F32), NLAT, NLON, grid, normalize], {})
    return decide("surface-integral", "QuadratureS2 %s normalize=%s" % (grid, normalize), "QuadratureS2", run, sp)


# ------------------------------------------------------------------ Legendre functions
def job_leg(fn, norm, inverse, cs):
    M, Lm = SZ("mmax", 1), SZ("lmax", 1)
    x = O.mk_input("x", [NPTS], F64)
    comp = fn == "_precompute_dlegpoly"

    def theta():
        return ten([NPTS], lambda i: O.ewise(None, "sigmoid", [x.expr if False else T.subst(x.expr, {x.axes[0]: i})]) * Poly.atom(("pi",)))

    def run(it):
        if fn == "legpoly":
            t = theta()
            xx = Ten(t.axes, O.ewise(None, "cos", [t.expr]), F64, O.FRESH)
        else:
            xx = theta()
        return it.call(cls(it, "torch_harmonics.legendre." + fn), [M, Lm, xx], {"norm": norm, "inverse": inverse, "csphase": cs})
    cfg = without("legpoly") if fn != "_precompute_dlegpoly" else without("_precompute_dlegpoly")
    return decide("legendre-table", "%s norm=%s inverse=%s csphase=%s" % (fn, norm, inverse, cs), fn, run, lambda it, _: legendre_def(comp, M, Lm, theta(), norm, inverse, cs), cfg)


def ten(sizes, f, dt=F64):
    ax = [T.new_axis(s) for s in sizes]
    return Ten(ax, f(*[Poly.atom(a) for a in ax]), dt, O.FRESH)


# ------------------------------------------------------------------ truncation, Fourier wrappers
def job_trunc(grid, gl, gm):
    lm, mm = (SZ("lmax", 1) if gl else None), (SZ("mmax", 1) if gm else None)

    def run(it):
        return it.call(cls(it, "torch_harmonics.truncation.truncate_sht"), [NLAT, NLON], {"lmax": lm, "mmax": mm, "grid": grid})
    return decide("truncation", "truncate_sht %s lmax %s mmax %s" % (grid, "given" if gl else "default", "given" if gm else "default"), "truncate_sht", run, spec("truncate", NLAT, NLON, lm, mm, grid))


def job_fft(which, given):
    n, k = SZ("n", 2), SZ("modes", 1)
    out = report.Obl()
    if which == "rfft":
        nm = k if given else None
        x = lambda: O.mk_input("x", [B, n], F32)
        return decide("fourier", "rfft nmodes=%s" % given, "rfft", lambda it: it.call(cls(it, "torch_harmonics.fft.rfft"), [x()], {"nmodes": nm, "dim": P(-1), "norm": "forward"}),
                      lambda it, _: it.call(cls(it, "vspec.rfft_modes"), [x(), n, nm if given else T.fdiv(n, P(2)) + 1], {}))
    x = lambda: O.mk_input("x", [B, k if given else k + 1], C64)
    nn = n if given else 2 * k
    return decide("fourier", "irfft n=%s" % given, "irfft", lambda it: it.call(cls(it, "torch_harmonics.fft.irfft"), [x()], {"n": n if given else None, "dim": P(-1), "norm": "forward"}),
                  lambda it, _: it.call(cls(it, "vspec.irfft_synth"), [x(), nn, k if given else k + 1], {}))


# ------------------------------------------------------------------ transforms
SPEC = {"RealSHT": "real_sht", "InverseRealSHT": "inverse_real_sht", "RealVectorSHT": "real_vector_sht", "InverseRealVectorSHT": "inverse_real_vector_sht"}


def job_sht(name, grid, norm, cs, given):
    inv, vec = name.startswith("Inverse"), "Vector" in name
    kw = {"grid": grid, "norm": norm, "csphase": cs}
    if given:
        kw.update(lmax=LMAX, mmax=MMAX)
    lead = [S("lead")] + ([P(2)] if vec else [])
    trunc = {}

    def inp(l, m):
        return O.mk_input("x", lead + ([l, m] if inv else [NLAT, NLON]), C64 if inv else F32)

    def run(it):
        o = it.call(cls(it, "torch_harmonics." + name), [NLAT, NLON], dict(kw))
        l, m = it.call(cls(it, "vspec.truncate"), [NLAT, NLON, kw.get("lmax"), kw.get("mmax"), grid], {})
        return it.call(o, [inp(l, m)], {})

    def sp(it, _):
        l, m = it.call(cls(it, "vspec.truncate"), [NLAT, NLON, kw.get("lmax"), kw.get("mmax"), grid], {})
        return it.call(cls(it, "vspec." + SPEC[name]), [inp(l, m), NLAT, NLON, l, m, grid, norm, cs], {})
    return decide("transform", "%s %s %s csphase=%s %s" % (name, grid, norm, cs, "given truncation" if given else "default truncation"), name, run, sp)


def run(tier):
    t = []
    for nm in SPEC:
        for grid, norm, cs, given in [("legendre-gauss", "ortho", True, True), ("lobatto", "schmidt", False, True), ("equiangular", "unnorm", True, True), ("equiangular", "ortho", True, False)] + \
                ([("legendre-gauss", "schmidt", True, False), ("lobatto", "unnorm", True, False), ("equiangular", "schmidt", False, True)] if tier == "thorough" else []):
            t.append((job_sht, (nm, grid, norm, cs, given)))
    for rule in ("lobatto_weights", "legendre_gauss_weights", "clenshaw_curtiss_weights"):
        t += [(job_rule, (rule, i, None)) for i in (0, 1)]
    t += [(job_rule, ("trapezoidal_weights", i, per)) for i in (0, 1) for per in (False, True)]
    for fn in ("legpoly", "_precompute_legpoly", "_precompute_dlegpoly"):
        for norm in NORMS:
            for inv in (False, True):
                for cs in (True, False):
                    t.append((job_leg, (fn, norm, inv, cs)))
    t += [(job_nodes, ("precompute_longitudes", ""))] + [(job_nodes, (k, g)) for k in ("precompute_latitudes", "_precompute_quadrature_weights") for g in GRID4]
    t += [(job_integral, (g, n, 2)) for g in GRID4 for n in (False, True)]
    t += [(job_trunc, (g, a, b)) for g in GRID4 for a in (False, True) for b in (False, True)]
    t += [(job_fft, (w, g)) for w in ("rfft", "irfft") for g in (False, True)]
    return report.run_tasks(t)
