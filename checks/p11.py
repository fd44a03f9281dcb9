"""P11: calls leave no trace: arguments, cached tables and earlier results are never modified, and results do not depend on the history of calls."""
from checks.p08 import *  # noqa
from checks import p09

META = {
    "level": "other",
    "explanation": "Layers and functions are abstractly interpreted with every tensor carrying its storage origin (caller's argument, cached result, layer state, fresh). No in-place operation may reach storage of an argument or of a cached result; "
                   "layers may not keep a cached tensor itself; results may not share storage with layer state. History: a layer (or function) is interpreted after another one that differs in one argument, and after a first call with another dtype and batch size; "
                   "the value number must equal that of a fresh one. The caching decorator itself is interpreted: with copy=True the result shares no storage with the cached one, and calls with different arguments are not confused.",
    "assumptions": ["functools.lru_cache distinguishes all arguments", "torch operators behave as their transfer functions in sa/torchops.py"],
}
CI_, CO_ = S("cin"), S("cout")
VEC2 = P(2)


def grid_in(dt, n=0, lead=None):
    return O.mk_input("x%d" % n, (lead or [S("lead%d" % n)]) + [NLAT, NLON], DT(dt))


class Sc:
    """a layer: how it is built, called, and which arguments are varied one at a time"""

    def __init__(self, name, path, args, kw, call, vary, cfg=base_config, dts=("float32", "float64"), inv=False):
        self.name, self.path, self.args, self.kw, self.call, self.vary, self.cfg, self.dts = name, path, args, kw, call, vary, cfg, dts

    def make(self, it, **kw):
        a, k = [L(list(x)) if isinstance(x, tuple) else x for x in self.args], dict(self.kw)
        for n, v in kw.items():
            if isinstance(n, str) and n.startswith("arg"):
                a[int(n[3:])] = L(list(v)) if isinstance(v, tuple) else v
            else:
                k[n] = v
        keep = [(x, list(x.items)) for x in a if isinstance(x, L)]
        o = it.call(cls(it, self.path), a, k)
        it.kept_lists = getattr(it, "kept_lists", []) + keep
        return o


def sht(name):
    inv, vec = name.startswith("Inverse"), "Vector" in name

    def call(it, o, dt, n):
        lead = [S("lead%d" % n)] + ([VEC2] if vec else [])
        x = O.mk_input("x%d" % n, lead + [LMAX, MMAX], DT("complex64" if dt == "float32" else "complex128")) if inv else grid_in(dt, n, lead)
        return it.call(o, [x], {})
    return Sc(name, "torch_harmonics." + name, [NLAT, NLON], dict(lmax=LMAX, mmax=MMAX, grid="equiangular", norm="ortho", csphase=True), call,
              [dict(norm="schmidt"), dict(csphase=False), dict(grid="legendre-gauss"), dict(lmax=LMAX + 1), dict(mmax=MMAX + 1), dict(arg0=NLAT + 1), dict(arg1=NLON + 2)])


def disco(tr, opt):
    def call(it, o, dt, n):
        return it.call(o, [O.mk_input("x%d" % n, [S("lead%d" % n), CI * G, NLAT, NLON], DT(dt))], {})
    return Sc("%s %s" % (LAYER[tr][0], "optimized" if opt else "torch"), "torch_harmonics." + LAYER[tr][0], [CI * G, CO * G, (NLAT, NLON), (NLATO, NLONO), P(3)], dict(groups=G, optimized_kernel=opt, basis_type="piecewise linear"), call,
              [dict(basis_norm_mode="mean"), dict(theta_cutoff=T.sym("cutoff")), dict(grid_in="legendre-gauss"), dict(grid_out="legendre-gauss"), dict(arg2=(NLAT + 1, NLON))], lambda: MD.config(opt))


def attn(opt):
    si, so = (NLAT, NLONO * RAT), (NLATO, NLONO)

    def call(it, o, dt, n):
        d = DT(dt)
        b = S("lead%d" % n)
        return it.call(o, [O.mk_input("q%d" % n, [b, CI_, NLATO, NLONO], d)] + [O.mk_input("%s%d" % (x, n), [b, CI_, NLAT, NLONO * RAT], d) for x in "kv"], {})
    return Sc("NeighborhoodAttentionS2 %s" % ("optimized" if opt else "torch"), "torch_harmonics.NeighborhoodAttentionS2", [CI_, si, so], dict(k_channels=CK * NH, out_channels=CV * NH, num_heads=NH, optimized_kernel=opt), call,
              [dict(theta_cutoff=T.sym("cutoff")), dict(grid_in="legendre-gauss"), dict(grid_out="legendre-gauss"), dict(scale=T.sym("scale"))], lambda: MA.config(opt, modular=True, is_contiguous=False), dts=("float32", "float32"))


def glob():
    si, so = (NLAT, NLONO * RAT), (NLATO, NLONO)

    def call(it, o, dt, n):
        d, b = DT(dt), S("lead%d" % n)
        return it.call(o, [O.mk_input("q%d" % n, [b, CI_, NLATO, NLONO], d)] + [O.mk_input("%s%d" % (x, n), [b, CI_, NLAT, NLONO * RAT], d) for x in "kv"], {})
    return Sc("AttentionS2", "torch_harmonics.AttentionS2", [CI_, NH, si, so], dict(k_channels=CK * NH, out_channels=CV * NH), call, [dict(grid_in="legendre-gauss"), dict(scale=T.sym("scale"))], lambda: MA.config(False, modular=True, is_contiguous=False), dts=("float32", "float32"))


def plain(name, args, kw, vary, chan=False, dts=("float32", "float64")):
    def call(it, o, dt, n):
        return it.call(o, [grid_in(dt, n, [S("lead%d" % n), S("chan") if not chan else chan])], {})
    return Sc(name, "torch_harmonics." + name, args, kw, call, vary, dts=dts)


def grf():
    def call(it, o, dt, n):
        m = it.getattr(it.getattr(o, "isht", None), "lmax", None)
        return it.call(o, [S("lead%d" % n), O.mk_input("xi%d" % n, [S("lead%d" % n), m, m], C64)], {})
    return Sc("GaussianRandomFieldS2", "torch_harmonics.random_fields.GaussianRandomFieldS2", [NLAT], dict(alpha=T.sym("alpha"), tau=T.sym("tau"), sigma=T.sym("sigma"), radius=T.sym("radius"), grid="equiangular"), call,
              [dict(alpha=T.sym("alpha2")), dict(radius=T.sym("radius2")), dict(grid="legendre-gauss")], dts=("float32", "float32"))


def scenarios():
    out = [sht(n) for n in SPEC]
    out += [disco(tr, opt) for tr in (False, True) for opt in (True, False)]
    out += [attn(True), attn(False), glob()]
    out += [plain("QuadratureS2", [(NLAT, NLON)], dict(grid="equiangular", normalize=False), [dict(normalize=True), dict(grid="legendre-gauss"), dict(arg0=(NLAT, NLON + 1))]),
            plain("ResampleS2", [NLAT, NLON, NLATO, NLONO], dict(grid_in="equiangular", grid_out="legendre-gauss", mode="bilinear"), [dict(mode="bilinear-spherical"), dict(grid_in="legendre-gauss"), dict(grid_out="equiangular"), dict(arg2=NLATO + 1)]),
            plain("SpectralConvS2", [(NLAT, NLON), (NLATO, NLONO), S("cin_per_group") * S("groups"), S("cout_per_group") * S("groups")], dict(num_groups=S("groups"), bias=True), [dict(grid_in="legendre-gauss"), dict(grid_out="legendre-gauss")], S("cin_per_group") * S("groups"), ("float32", "bfloat16")),
            grf()]
    return out


def tensors_of(o, pre="", seen=None, depth=0):
    seen = set() if seen is None else seen
    if id(o) in seen or depth > 6:
        return
    seen.add(id(o))
    if isinstance(o, Ten):
        yield pre, o
    elif isinstance(o, Obj):
        for k, v in list(o.attrs.items()):
            yield from tensors_of(v, pre + "." + k if pre else k, seen, depth + 1)
    elif isinstance(o, ExtObj):
        for k, v in list(o.attrs.items()):
            yield from tensors_of(v, pre + "." + str(k) if pre else str(k), seen, depth + 1)
    elif isinstance(o, (tuple, list)):
        for i, v in enumerate(o):
            yield from tensors_of(v, "%s[%d]" % (pre, i), seen, depth + 1)
    elif isinstance(o, L):
        for i, v in enumerate(o.items):
            yield from tensors_of(v, "%s[%d]" % (pre, i), seen, depth + 1)
    elif isinstance(o, dict):
        for k, v in o.items():
            yield from tensors_of(v, "%s[%s]" % (pre, k), seen, depth + 1)


def tags(org, kind):
    return sorted(str(t[1]) for t in org if t[0] == kind)


def job_effects(i):
    """no in-place operation on arguments or cached tables; no result inside layer state"""
    s = scenarios()[i]
    out = report.Obl()

    def run(it):
        o = s.make(it)
        held = [(n, t.org) for n, t in tensors_of(o)]
        for n, t in tensors_of(o):
            t.org = frozenset([("state", n)]) | frozenset(x for x in t.org if x[0] == "cache")
        n0 = len(it.sideeffects)
        r = s.call(it, o, "float32", 0)
        return held, n0, r
    fns = set()
    for p in explore(lambda: Interp(repo(), s.cfg()), run, 40):
        fns |= p.it.visited
        if not feasible(p):
            continue
        if p.exc is not None:
            if isinstance(p.exc, GiveUp):
                out.und("effects", s.name, "gave up: %s" % p.exc)
            continue
        held, n0, r = p.result
        for org, how, loc, fn in p.it.sideeffects:
            for t in tags(org, "input"):
                out.bad("effects:argument", fn, loc, "%s: %s modifies the caller's tensor '%s' in place (path: %s)" % (s.name, how, t, describe(p)))
            for t in tags(org, "cache"):
                out.bad("effects:cache", fn, loc, "%s: %s modifies the cached result of %s in place (path: %s)" % (s.name, how, t, describe(p)))
        for n, org in held:
            for t in tags(org, "cache"):
                out.bad("effects:cache", s.name, n, "%s keeps the cached result of %s itself in '%s': a change there reaches every later user (path: %s)" % (s.name, t, n, describe(p)))
        for n, t in tensors_of(r):
            for x in tags(t.org, "state"):
                out.bad("effects:result", s.name, n, "%s returns a tensor sharing storage with its own '%s' (path: %s)" % (s.name, x, describe(p)))
        for lst, items in getattr(p.it, "kept_lists", []):
            if lst.items != items:
                out.bad("effects:argument", s.name, "list argument", "%s modifies a list passed by the caller (path: %s)" % (s.name, describe(p)))
        out.ok("effects", "%s: %d in-place operations, %d tensors held" % (s.name, len(p.it.sideeffects), len(held)))
    out.note("functions_analysed", sorted(fns))
    return out


def job_history(i, v):
    """the layer after another one that differs in one argument equals a fresh layer"""
    s = scenarios()[i]
    other = s.vary[v]

    def run(it):
        s.make(it, **other)
        o = s.make(it)
        return s.call(it, o, "float32", 0)
    return decide("history:construction", "%s after one with %s" % (s.name, ", ".join("%s=%s" % kv for kv in other.items())), s.path, run, lambda it, _: s.call(it, s.make(it), "float32", 0), s.cfg(), limit=40, may_raise=True, scfg=s.cfg(), events=())


def job_second(i):
    """the second call of a layer equals the first call of a fresh one"""
    s = scenarios()[i]

    def run(it):
        o = s.make(it)
        s.call(it, o, s.dts[0], 0)
        return s.call(it, o, s.dts[1], 1)
    seen = []

    def sp(it, r):
        e = s.call(it, s.make(it), s.dts[1], 1)
        seen.append((r, e))
        return e
    subj = "%s called with %s after %s" % (s.name, s.dts[1], s.dts[0])
    # a narrowing cast is kept as a marker, so that a value cached at lower precision differs from a fresh one
    cfg, scfg = dict(s.cfg(), rounding=True), dict(s.cfg(), rounding=True)
    out = decide("history:second-call", subj, s.path, run, sp, cfg, limit=40, may_raise=True, scfg=scfg, events=())
    for r, e in seen:
        if isinstance(r, Ten) and isinstance(e, Ten) and r.dtype.name and e.dtype.name and r.dtype.name != e.dtype.name:
            out.bad("history:second-call", s.path, subj, "returns %s instead of %s" % (r.dtype, e.dtype))
    return out


# ------------------------------------------------------------------ cached functions
FUNCS = {
    "torch_harmonics.quadrature.legendre_gauss_weights": ([SZ("n", 2)], {"a": P(-1), "b": P(1)}, [dict(arg0=SZ("n", 2) + 1), dict(a=P(0))]),
    "torch_harmonics.quadrature.lobatto_weights": ([SZ("n", 2)], {"a": P(-1), "b": P(1)}, [dict(a=P(0))]),
    "torch_harmonics.quadrature.clenshaw_curtiss_weights": ([SZ("n", 2)], {"a": P(-1), "b": P(1)}, [dict(a=P(0))]),
    "torch_harmonics.quadrature.trapezoidal_weights": ([SZ("n", 2)], {"a": P(-1), "b": P(1), "periodic": False}, [dict(periodic=True), dict(b=P(2))]),
    "torch_harmonics.quadrature.precompute_latitudes": ([NLAT], {"grid": "equiangular"}, [dict(grid="legendre-gauss"), dict(grid="lobatto")]),
    "torch_harmonics.quadrature.precompute_longitudes": ([NLON], {}, [dict(arg0=NLON + 1)]),
    "torch_harmonics.legendre._precompute_legpoly": ([SZ("mmax", 1), SZ("lmax", 1), "theta"], {"norm": "ortho", "inverse": False, "csphase": True}, [dict(norm="schmidt"), dict(inverse=True), dict(csphase=False), dict(arg0=SZ("mmax", 1) + 1)]),
    "torch_harmonics.legendre._precompute_dlegpoly": ([SZ("mmax", 1), SZ("lmax", 1), "theta"], {"norm": "ortho", "inverse": False, "csphase": True}, [dict(norm="schmidt"), dict(inverse=True), dict(csphase=False)]),
}


def call_func(it, name, over):
    a, k, _ = FUNCS[name]
    th = ten([NPTS], lambda i: O.ewise(None, "sigmoid", [Poly.atom(("T", "x", (i,)))]) * Poly.atom(("pi",)))
    th.org = frozenset([("input", "theta")])
    a = [th if x == "theta" else x for x in a]
    k = dict(k)
    for n, v in over.items():
        if n.startswith("arg"):
            a[int(n[3:])] = v
        else:
            k[n] = v
    f = name.rsplit(".", 1)
    return it.call(cls(it, name), a, k)


def func_cfg(name):
    return without({"quadrature": "_weights", "legendre": "legpoly"}[name.split(".")[1]], "precompute_latitudes", "precompute_longitudes", "_precompute_")


def job_function(name):
    out = report.Obl()
    short = name.split(".", 1)[1]
    for p in explore(lambda: Interp(repo(), func_cfg(name)), lambda it: call_func(it, name, {}), 24):
        if p.exc is not None or not feasible(p):
            continue
        for org, how, loc, fn in p.it.sideeffects:
            for kind, what in (("input", "the caller's tensor"), ("cache", "the cached result of")):
                for t in tags(org, kind):
                    out.bad("effects:" + kind, fn, loc, "%s: %s modifies %s %s in place" % (short, how, what, t))
        for n, t in tensors_of(p.result):
            for x in tags(t.org, "cache"):
                out.bad("effects:cache", short, short, "returns the cached tensor itself: a caller's change reaches every later caller (path: %s)" % describe(p))
        out.ok("effects", short)
    for v in FUNCS[name][2]:
        def run(it):
            call_func(it, name, v)
            return call_func(it, name, {})
        out += decide("history:function", "%s after a call with %s" % (short, ", ".join("%s=%s" % kv for kv in v.items())), name, run, lambda it, _: call_func(it, name, {}), func_cfg(name), limit=24, may_raise=True, scfg=func_cfg(name), events=())
    return out


def job_decorator(copy):
    """torch_harmonics.cache.lru_cache"""
    out = report.Obl()
    subj = "lru_cache(copy=%s)" % copy
    x, y = (lambda: O.mk_input("a", [NLAT], F64)), (lambda: O.mk_input("b", [NLAT], F64))

    def run(it):
        dec = it.call(cls(it, "torch_harmonics.cache.lru_cache"), [], {"typed": True, "copy": copy})
        f = it.call(dec, [cls(it, "vspec.cached_probe")], {})
        r0 = it.call(f, [P(3)], {"b": P(5)})
        r1 = it.call(f, [P(4)], {"b": P(5)})
        r2 = it.call(f, [P(4)], {"b": P(6)})
        return L([r0, r1, r2])
    for p in explore(lambda: Interp(repo(), base_config()), run, 8):
        if p.exc is not None:
            out.und("cache-decorator", subj, "not evaluated: %s" % p.exc)
            continue
        for k, (r, c) in enumerate(zip(p.result.items, ((3, 5), (4, 5), (4, 6)))):
            ts = list(tensors_of(r))
            if len(ts) != 4:
                out.und("cache-decorator", subj, "result not modelled: %s" % str(r)[:100])
                continue
            for n, t in ts:
                if copy and tags(t.org, "cache"):
                    out.bad("cache-decorator", "torch_harmonics/cache.py lru_cache", subj, "element %s of a cached result is returned without being copied" % n)
                else:
                    out.ok("cache-decorator", "%s, element %s" % (subj, n))
            if isinstance(ts[0][1].expr, Poly) and ts[0][1].expr.constval() is not None and ts[0][1].expr.constval() != c[0] * 100 + c[1]:
                out.bad("cache-decorator", "torch_harmonics/cache.py lru_cache", subj, "a call returns the result of another call with different arguments")
    return out


def run(tier):
    sc = scenarios()
    t = [(job_second, (i,)) for i in range(len(sc))] + [(job_effects, (i,)) for i in range(len(sc))] + [(job_function, (n,)) for n in FUNCS] + [(job_decorator, (c,)) for c in (True, False)]
    t += [(job_history, (i, v)) for i, s in enumerate(sc) for v in range(len(s.vary))]
    return report.run_tasks(t)
