"""P06: the serial DISCO layers equal their definition on every code path, and registered backward passes are the derivatives of their forward passes."""
from checks.p05 import *  # noqa
from sa import model_disco as MD, diff as D

META = {
    "level": "other",
    "explanation": "DISCO layers are abstractly interpreted for symbolic sizes, channel counts and groups on each code path (torch reference, optimized kernels, fused, saved intermediate, k-packed); "
                   "the value number must equal the definition sum_c sum_k w[o,c,k] sum_n psi val x, resp. its transpose. The backward function registered for each custom operator / autograd function is interpreted as well and must "
                   "equal the symbolic derivative of the forward value number.",
    "assumptions": ["torch operators behave as their transfer functions in sa/torchops.py", "the CUDA kernels compute what the CPU kernels are shown to compute", "psi tables handed to the kernels are sorted by (kernel, row, column)", "the sparse filter tensor is arbitrary but equal for equal arguments"],
}
G, CI, CO = S("groups"), S("cin"), S("cout")
LAYER = {False: ("DiscreteContinuousConvS2", "disco"), True: ("DiscreteContinuousConvTransposeS2", "disco_transpose")}


def make(it, tr, kw, kshape):
    name = LAYER[tr][0]
    o = it.call(cls(it, "torch_harmonics." + name), [CI * G, CO * G, (NLAT, NLON), (NLATO, NLONO), kshape], dict({"groups": G}, **kw))
    if it.config.get("kpacked") and isinstance(o, Obj) and "kpacked_device_supported" in o.attrs:
        o.attrs["kpacked_device_supported"] = True
    return o


def xin(dt=F32):
    return O.mk_input("x", [B, CI * G, NLAT, NLON], dt)


def job_layer(tr, opt, kw, kshape, dt=F32, cfgkw=None):
    kw = dict(kw)
    name, sp = LAYER[tr]

    def run(it):
        return it.call(make(it, tr, dict(kw, optimized_kernel=opt), kshape), [xin(dt)], {})

    def spec_(it, _):
        fb = it.call(cls(it, "torch_harmonics.filter_basis.get_filter_basis"), [], {"kernel_shape": kshape, "basis_type": kw.get("basis_type", "piecewise linear")})
        K = it.getattr(fb, "kernel_size", None)
        w = O.mk_input("param:weight", [CO * G, CI, K], F32)
        b = O.mk_input("param:bias", [CO * G], F32) if kw.get("bias", True) else None
        return it.call(cls(it, "vspec." + sp), [xin(dt), w, b, G, (NLAT, NLON), (NLATO, NLONO), fb, K, kw.get("grid_in", "equiangular"), kw.get("grid_out", "equiangular"), kw.get("theta_cutoff"), kw.get("basis_norm_mode", "nodal")], {})
    return decide("disco-layer", "%s %s %s%s" % (name, "optimized" if opt else "torch", sorted(kw.items(), key=str), dt), name, run, spec_, MD.config(opt, **dict(cfgkw or ())), limit=60, scfg=MD.config(opt))


def float_dep(t):
    return isinstance(t, Ten) and t.known() and any(nm == "x" or nm.startswith("param:") for nm in tensor_names(t.expr))


def tensor_names(x, out=None):
    out = set() if out is None else out
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                tensor_names(a, out)
    elif isinstance(x, tuple):
        if len(x) >= 2 and x[0] == "T":
            out.add(x[1])
        for y in x:
            if isinstance(y, (tuple, Poly)):
                tensor_names(y, out)
    return out


def job_grad(tr, kw, kshape, dt=F32, cfgkw=None):
    kw = dict(kw)
    name = LAYER[tr][0]
    subj = "%s %s%s" % (name, sorted(kw.items(), key=str), dt)

    def run(it):
        it.call(make(it, tr, dict(kw, optimized_kernel=True), kshape), [xin(dt)], {})
        return regrad(it)
    return decide_grad("disco-gradient", subj, name, run, MD.config(True, all_grads=True, **dict(cfgkw or ())))


def regrad(it):
    """re-apply the last recorded differentiable operation to independent inputs and run its backward: (result, [(arg name, arg, gradient)])"""
    if not it.tape:
        return None
    rec = it.tape[-1]
    dep = [float_dep(a) for a in rec[3]]
    args = [O.mk_input("a%d" % i, list(a.shape), a.dtype) if d else a for i, (a, d) in enumerate(zip(rec[3], dep))]
    if isinstance(rec[0], tuple):
        r = it.call_fn(rec[0][2], list(args), {}, None)
    else:
        r = O.autograd_apply(it, rec[0], list(args), {}, None)
    rec = it.tape[-1]
    if not isinstance(r, Ten):
        return None
    go = O.mk_input("go", list(r.shape), r.dtype)
    gr = O.autograd_backward(it, rec, [go])
    return (r, go, [(i, a) for i, (a, d) in enumerate(zip(args, dep)) if d], gr, rec[0][1] if isinstance(rec[0], tuple) else rec[0].name, len(args))


def decide_grad(rule, subj, where, run, cfg, limit=80):
    out = report.Obl()
    fns = set()
    ps = explore(lambda: Interp(repo(), cfg), run, limit)
    if ps and ps[0].truncated:
        out.und(rule, subj, "more than %d paths" % limit)
    for p in ps:
        fns |= p.it.visited
        if not feasible(p):
            continue
        if isinstance(p.exc, GiveUp) or p.exc is not None:
            out.und(rule, subj, "not analysed: %s" % p.exc)
            continue
        if p.result is None:
            continue
        r, go, deps, gr, op, nargs = p.result
        for kind, msg, loc, fn in p.it.events:
            if kind in SHAPE_EVENTS + ("arity", "attr", "unpack"):
                out.bad(rule + ":" + kind, fn, loc, "%s: %s (path: %s)" % (subj, msg, describe(p)))
        gs = flat(gr) if not isinstance(gr, Top) else None
        if gs is None:
            out.und(rule, subj, "backward not modelled: %s" % gr)
            continue
        if len(gs) != nargs:
            out.bad(rule + ":arity", op, subj, "the backward of %s returns %d gradients for %d inputs" % (op, len(gs), nargs))
            continue
        for i, a in deps:
            g = gs[i]
            s2 = "%s: gradient of input %d of %s" % (subj, i, op)
            if g is None:
                out.bad(rule, op, s2, "no gradient is returned although the input is differentiable")
                continue
            if not isinstance(g, Ten) or not g.known() or not r.known():
                out.und(rule, s2, "not modelled", str(p.it.opaque_log[:2])[:300])
                continue
            try:
                js, e = D.vjp(r.expr, r.axes, T.subst(go.expr, {x: Poly.atom(y) for x, y in zip(go.axes, r.axes)}), "a%d" % i, list(a.shape))
            except D.NotDifferentiable as ex:
                out.und(rule, s2, "forward not differentiated: %s" % ex)
                continue
            compare(out, rule, s2, op, g, Ten(js, e, a.dtype, O.FRESH), (p.it,))
    out.note("functions_analysed", sorted(f for f in fns if "vspec" not in f))
    return out


def run(tier):
    from checks import kern
    t = kern.disco_tasks()
    for tr in (False, True):
        for opt in (False, True):
            for kw in ({}, {"bias": False, "grid_in": "legendre-gauss", "basis_norm_mode": "mean"}, {"theta_cutoff": T.sym("cutoff"), "grid_out": "lobatto"}):
                t.append((job_layer, (tr, opt, tuple(kw.items()), P(3))))
    t.append((job_layer, (False, True, (("fused", True),), P(3))))
    t.append((job_grad, (False, (), P(3))))
    t.append((job_grad, (True, (), P(3))))
    t.append((job_grad, (False, (("fused", True),), P(3))))
    for fu in (False, True):
        t.append((job_layer, (False, True, (("fused", fu),), P(3), DT("bfloat16"), (("kpacked", True),))))
        if not fu or tier == "thorough":
            t.append((job_grad, (False, (("fused", fu),), P(3), DT("bfloat16"), (("kpacked", True),))))
    return report.run_tasks(t)
