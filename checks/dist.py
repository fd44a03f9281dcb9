"""Distributed layers against their serial counterparts (shared by several properties)."""
from sa.scen import *  # noqa
from sa.compare import *  # noqa
from sa import report

S = T.sym


def SZ(n, lo=3):
    """a grid size: any integer >= lo"""
    return Poly.atom(("sym", n, lo))


NLAT, NLON, LMAX, MMAX, B, C = SZ("nlat"), SZ("nlon"), S("lmax"), S("mmax"), S("batch"), S("chan")
NLATO, NLONO = SZ("nlat_out"), SZ("nlon_out")


class Case:
    """one layer: serial(it) and dist(it, grid) build and apply it; both return a tensor (or tuple)"""

    def __init__(self, name, serial, dist, dims=((-2, "lat"), (-1, "lon")), config=None, grids=None, limit=48, chan=()):
        self.name, self.serial, self.dist, self.dims = name, serial, dist, dims
        self.mkconfig = None
        self.config, self.grids, self.limit = config or {}, grids, limit
        self.names = {"nlat", "nlon", "lmax", "mmax", "nlat_out", "nlon_out"} | set(chan)


def mk(case):
    return lambda: Interp(repo(), case.mkconfig() if case.mkconfig else base_config(**case.config))


# ------------------------------------------------------------------ spherical harmonic transforms
def sht_case(name, vec, inv, kw, label, lead=2):
    dt = C64 if inv else F32

    def shape(o, g):
        s = [S("lead%d" % i) for i in range(lead)] + ([P(2)] if vec else [])
        a = [o.attrs["lmax"], o.attrs["mmax"]] if inv else [NLAT, NLON]
        return s + ([g.lat(a[0]), g.lon(a[1])] if g else a)

    def serial(it):
        o = it.call(cls(it, "torch_harmonics." + name), [NLAT, NLON], dict(kw))
        return it.call(o, [O.mk_input("x", shape(o, None), dt)], {})

    def dist(it, g):
        o = it.call(cls(it, "torch_harmonics.distributed.Distributed" + name), [NLAT, NLON], dict(kw))
        return it.call(o, [O.mk_input("x", shape(o, g), dt)], {})
    return Case("Distributed%s[%s]" % (name, label), serial, dist)


def sht_cases(tier):
    out = []
    full = {"lmax": LMAX, "mmax": MMAX}
    for name, vec, inv in [("RealSHT", 0, 0), ("InverseRealSHT", 0, 1), ("RealVectorSHT", 1, 0), ("InverseRealVectorSHT", 1, 1)]:
        out.append(sht_case(name, vec, inv, dict(full, grid="legendre-gauss"), "legendre-gauss, given lmax/mmax"))
        out.append(sht_case(name, vec, inv, dict(full, grid="lobatto", norm="schmidt"), "lobatto schmidt"))
        out.append(sht_case(name, vec, inv, dict(full, grid="equiangular", csphase=False), "equiangular no csphase"))
        out.append(sht_case(name, vec, inv, {}, "defaults"))
        out.append(sht_case(name, vec, inv, dict(full, grid="legendre-gauss", norm="unnorm"), "one leading dim", lead=1))
        if tier == "thorough":
            out.append(sht_case(name, vec, inv, {"grid": "lobatto"}, "lobatto defaults"))
            out.append(sht_case(name, vec, inv, {"grid": "legendre-gauss", "lmax": LMAX}, "lmax only"))
            out.append(sht_case(name, vec, inv, {"grid": "legendre-gauss", "mmax": MMAX}, "mmax only", lead=3))
    return out


# ------------------------------------------------------------------ quadrature
def quad_case(kw, label):
    def serial(it):
        o = it.call(cls(it, "torch_harmonics.QuadratureS2"), [(NLAT, NLON)], dict(kw))
        return it.call(o, [O.mk_input("x", [B, C, NLAT, NLON], F32)], {})

    def dist(it, g):
        o = it.call(cls(it, "torch_harmonics.distributed.DistributedQuadratureS2"), [(NLAT, NLON)], dict(kw))
        return it.call(o, [O.mk_input("x", [B, C, g.lat(NLAT), g.lon(NLON)], F32)], {})
    return Case("DistributedQuadratureS2[%s]" % label, serial, dist, dims=())


def quad_cases(tier):
    return [quad_case({"grid": g, "normalize": n}, "%s normalize=%s" % (g, n)) for g in ("equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal") for n in (False, True)]


# ------------------------------------------------------------------ spectral convolution
def spectral_case(kw, label):
    gin, gout, G = S("cin_per_group"), S("cout_per_group"), S("groups")

    def args(it):
        return [(NLAT, NLON), (NLATO, NLONO), gin * G, gout * G]

    def serial(it):
        o = it.call(cls(it, "torch_harmonics.SpectralConvS2"), args(it), dict(kw, num_groups=G))
        return it.call(o, [O.mk_input("x", [B, gin * G, NLAT, NLON], F32)], {})

    def dist(it, g):
        o = it.call(cls(it, "torch_harmonics.distributed.DistributedSpectralConvS2"), args(it), dict(kw, num_groups=G))
        return it.call(o, [O.mk_input("x", [B, gin * G, g.lat(NLAT), g.lon(NLON)], F32)], {})
    return Case("DistributedSpectralConvS2[%s]" % label, serial, dist)


def spectral_cases(tier):
    out = [spectral_case({"grid_in": "legendre-gauss", "grid_out": "lobatto", "bias": b}, "bias=%s" % b) for b in (False, True)]
    if tier == "thorough":
        out += [spectral_case({"bias": b}, "defaults bias=%s" % b) for b in (False, True)]
    return out


# ------------------------------------------------------------------ resampling
def resample_case(kw, label):
    def build(it, nm):
        return it.call(cls(it, nm), [NLAT, NLON, NLATO, NLONO], dict(kw))

    def serial(it):
        return it.call(build(it, "torch_harmonics.ResampleS2"), [O.mk_input("x", [B, C, NLAT, NLON], F32)], {})

    def dist(it, g):
        return it.call(build(it, "torch_harmonics.distributed.DistributedResampleS2"), [O.mk_input("x", [B, C, g.lat(NLAT), g.lon(NLON)], F32)], {})
    # the resampling trades channels for latitudes without padding: it documents/enforces at least one channel per rank
    return Case("DistributedResampleS2[%s]" % label, serial, dist, chan=("chan",))


def resample_cases(tier):
    return [resample_case({"mode": m, "grid_in": gi, "grid_out": go}, "%s %s->%s" % (m, gi, go)) for m in ("bilinear", "bilinear-spherical")
            for gi, go in ([("equiangular", "equiangular"), ("legendre-gauss", "equiangular")] if tier == "quick" else
                           [("equiangular", "equiangular"), ("legendre-gauss", "equiangular"), ("equiangular", "lobatto"), ("equiangular-trapezoidal", "legendre-gauss")])]


# ------------------------------------------------------------------ DISCO convolutions
def disco_case(tr, opt, kw, label, kshape=(P(2), P(3)), dt=None, cfg=None):
    from sa import model_disco as MD
    name = "DiscreteContinuousConv%sS2" % ("Transpose" if tr else "")
    dt = dt or F32
    G, CI, CO = S("groups"), S("cin"), S("cout")
    kw = dict(kw)
    if kw.pop("groups", None) == 1:
        G = P(1)
    # the longitudes of the finer grid are a multiple of those of the coarser one
    nlon, nlono = (NLON, S("ratio") * NLON) if tr else (S("ratio") * NLONO, NLONO)

    def build(it, nm):
        return it.call(cls(it, nm), [CI * G, CO * G, (NLAT, nlon), (NLATO, nlono), kshape], dict({"groups": G}, **dict(kw, optimized_kernel=opt)))

    def serial(it):
        return it.call(build(it, "torch_harmonics." + name), [O.mk_input("x", [B, CI * G, NLAT, nlon], dt)], {})

    def dist(it, g):
        return it.call(build(it, "torch_harmonics.distributed.Distributed" + name), [O.mk_input("x", [B, CI * G, g.lat(NLAT), g.lon(nlon)], dt)], {})
    c = Case("Distributed%s[%s]" % (name, label), serial, dist, chan=("cin", "cout", "groups"))
    c.mkconfig = lambda: MD.config(opt, **dict({"is_cuda": False}, **(cfg or {})))
    return c


def disco_cases(tier):
    out = []
    for tr in (False, True):
        for opt in (True, False):
            out.append(disco_case(tr, opt, {}, "optimized" if opt else "torch"))
    cuda = {"overrides": {"torch.cuda.is_available": lambda it, a, k, n: True}}
    out.append(disco_case(False, True, {"fused": True}, "fused", cfg=cuda))
    out.append(disco_case(False, True, {"fused": True, "groups": 1, "bias": False}, "fused, one group, no bias", cfg=cuda))
    if tier == "thorough":
        for tr in (False, True):
            out.append(disco_case(tr, True, {"bias": False, "grid_in": "legendre-gauss", "grid_out": "lobatto", "basis_norm_mode": "modal", "basis_type": "morlet"}, "options"))
            out.append(disco_case(tr, True, {"theta_cutoff": Poly.atom(("sym", "theta_cutoff"))}, "bfloat16, given cutoff", dt=BF16))
    return out


# ------------------------------------------------------------------ analysis of one case on one process grid
def shard_of(size, n, r):
    return T.split(size, n, r)


def compare_case(case, gi, want):
    """want: set of rules to decide: 'layout' (sizes, collectives), 'value'"""
    out = report.Obl()
    g = GRIDS[gi]
    subj = "%s on %s" % (case.name, g)

    def run_d(it):
        init_grid(it, g)
        return case.dist(it, g)
    dps = explore(mk(case), run_d, case.limit)
    if dps and dps[0].truncated:
        out.und("paths", subj, "more than %d paths" % case.limit)
    fns = set()
    for dp in dps:
        fns |= dp.it.visited
        if isinstance(dp.exc, GiveUp):
            out.und("analysis", subj, "gave up: %s at %s" % (dp.exc, getattr(dp.exc, "stackloc", "")))
            continue
        out += one_path(case, g, dp, subj, want)
    out.note("functions_analysed", sorted(fns))
    out.note("collective_call_sites", sorted({"%s(%s) %s" % (t[0], t[1], t[3]) for dp in dps for t in dp.it.trace}))
    return out


SHAPE_EVENTS = ("size", "dim", "arity", "index", "unpack", "group", "attr")


def describe(p):
    return " and ".join("%s is %s" % (c, v) for c, v, _ in p.conds) or "always"


def one_path(case, g, dp, subj, want):
    out = report.Obl()
    # serial layer under the same path condition
    def run_s(it):
        T.GT1.discard(None)
        it.known.update(dp.it.known)
        it.eqs.update(dp.it.eqs)
        return case.serial(it)
    sps = explore(mk(case), run_s, 24)
    if sps and sps[0].truncated:
        out.und("paths", subj, "too many serial paths")
    ser_raises = [p for p in sps if isinstance(p.exc, RaiseEx)]
    if isinstance(dp.exc, RaiseEx):
        if ser_raises:
            if "layout" in want:
                out.ok("raises-together", subj)
            return out
        if any(p.result is not None for p in sps):
            if "layout" in want:
                out.bad("rejects-valid-configuration", subj, "%s:%s" % (dp.it.loc(dp.exc.node) if dp.it.stack else "", getattr(dp.exc.node, "lineno", "?")),
                        "the distributed layer raises %s where the serial layer succeeds (path: %s)" % (dp.exc.exc, describe(dp)))
        return out
    if "layout" in want:
        n0 = len(out)
        for kind, msg, loc, fn in dp.it.events:
            if kind in SHAPE_EVENTS:
                out.bad("layout:" + kind, "%s" % fn, loc, "%s: %s (path: %s)" % (subj, msg, describe(dp)))
        good = [p.it for p in sps if p.exc is None]
        bad, und = rejecting_guards(dp.it, case.names, good[:1])
        for c, loc, env in bad:
            out.bad("rejects-valid-input", loc.split(" in ")[-1], loc, "%s: the check %s fails on inputs the serial layer accepts and every rank has data for, e.g. %s (path: %s)" % (subj, c, show_env(env), describe(dp)))
        for c, loc, why in und:
            out.und("rejects-valid-input", subj, "%s: %s" % (c, why), loc)
        if len(out) == n0:
            out.ok("layout", subj, describe(dp))
    dres = dp.result if isinstance(dp.result, tuple) else (dp.result,)
    for sp in sps:
        if not isinstance(sp.exc, type(None)):
            if isinstance(sp.exc, RaiseEx) and "value" in want:
                out.und("value", subj, "serial layer raises on this path")
            continue
        sres = sp.result if isinstance(sp.result, tuple) else (sp.result,)
        its = (dp.it, sp.it)
        if len(sres) != len(dres):
            out.bad("layout:arity", subj, "", "distributed layer returns %d values, serial %d" % (len(dres), len(sres)))
            continue
        for k, (d, s) in enumerate(zip(dres, sres)):
            out += compare_result(case, g, d, s, its, subj, want, dp)
    return out


def where_of(case, dp):
    return case.name.split("[")[0]


def compare_result(case, g, d, s, its, subj, want, dp):
    out = report.Obl()
    if not isinstance(d, Ten) or not isinstance(s, Ten):
        if isinstance(d, Ten) or isinstance(s, Ten) or isinstance(d, Top) or isinstance(s, Top):
            out.und("value", subj, "result not modelled: %r / %r" % (str(d)[:150], str(s)[:150]), str(dp.it.opaque_log[:2])[:300])
        return out
    if len(d.axes) != len(s.axes):
        out.bad("layout:rank", where_of(case, dp), subj, "distributed result has %d dimensions, serial %d" % (len(d.axes), len(s.axes)))
        return out
    env = {}
    kinds = {k % len(s.axes) if s.axes else 0: v for k, v in case.dims}
    good = True
    for k, (da, sa) in enumerate(zip(d.axes, s.axes)):
        full, loc = simp(T.axsize(sa), its), simp(T.axsize(da), its)
        kind = kinds.get(k)
        if kind == "lat" and g.polar == "many":
            exp, idx = T.split(full, g.np(), g.rp()), T.off(full, g.np(), g.rp()) + Poly.atom(da)
        elif kind == "lon" and g.azimuth == "many":
            exp, idx = T.split(full, g.na(), g.ra()), T.off(full, g.na(), g.ra()) + Poly.atom(da)
        else:
            exp, idx = full, Poly.atom(da)
        r = sizes_equal(loc, exp, its)
        if r is None:
            out.und("layout", subj, "size of result dimension %d: %s vs %s" % (k, T.show(loc), T.show(exp)))
            good = False
        elif r is not True:
            good = False
            if "layout" in want:
                out.bad("layout:result-size", where_of(case, dp), subj, "dimension %d of the local result has size %s; the balanced shard of the global result has size %s (%s)" % (k, T.show(loc, 200), T.show(exp, 200), r))
        elif "layout" in want:
            out.ok("layout:result-size", subj)
        env[sa] = idx
    if d.dtype.name and s.dtype.name and "layout" in want:
        if d.dtype != s.dtype:
            out.bad("layout:dtype", where_of(case, dp), subj, "distributed result is %s, serial %s" % (d.dtype, s.dtype))
        else:
            out.ok("layout:dtype", subj)
    if "value" not in want or not good:
        return out
    if d.expr is None or s.expr is None:
        out.und("value", subj, "value not modelled", str(dp.it.opaque_log[:3])[:400])
        return out
    v = values_equal(d.expr, T.subst(s.expr, env), d.axes, its)
    if v is True:
        out.ok("value", subj, describe(dp))
    elif v is None and (LAST[0] or "").startswith("no sizes"):
        pass            # the two path conditions exclude each other
    elif v is None:
        out.und("value", subj, "value numbers not comparable: %s (path: %s)" % (LAST[0], describe(dp)))
    else:
        out.bad("value", where_of(case, dp), subj, "local result differs from the corresponding part of the serial result (path: %s); %s" % (describe(dp), v))
    return out


def all_cases(tier):
    return sht_cases(tier) + quad_cases(tier) + spectral_cases(tier) + resample_cases(tier) + disco_cases(tier)


def jobs_for(job, tier):
    """heaviest first, so that the pool finishes evenly"""
    cs = all_cases(tier)
    order = sorted(range(len(cs)), key=lambda i: 0 if "Spectral" in cs[i].name or "fused" in cs[i].name or "[torch" in cs[i].name else 1 if "Resample" in cs[i].name else 2)
    return [(job, (i, gi, tier)) for i in order for gi in range(len(GRIDS) if tier == "thorough" else 4)]
