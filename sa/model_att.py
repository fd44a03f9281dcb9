"""Model of the neighbourhood pattern and of the attention operators (what the compiled kernels are specified to compute)."""
from . import terms as T
from .terms import Poly, P
from .values import *  # noqa
from . import torchops as O
from .model_disco import basis_id, sig_of, I64
from .scen import getarg, num, as_poly, MISSING


def nbr_tensors(sig):
    """(row, col, row offsets) of the pattern: rows sorted, every output point has a neighbour"""
    nn = Poly.atom(("fn", "def:nbrnnz") + sig)
    out = []
    for part in ("row", "col"):
        a = T.new_axis(nn)
        out.append(Ten([a], Poly.atom(("fn", "def:nbr", part) + sig + (Poly.atom(a),)), I64, O.FRESH))
    a = T.new_axis(sig[0] + 1)
    out.append(Ten([a], Poly.atom(("fn", "def:nbroff") + sig + (Poly.atom(a),)), I64, O.FRESH))
    return out


def signature(it, ins, outs, fb, gi, go, cut, tn):
    """rows live on the 'out' grid of the precomputation, columns on its 'in' grid"""
    return (num(outs[0]), num(outs[1]), num(ins[0]), num(ins[1]), bool(tn), repr((basis_id(it, fb), gi, go)), sig_of(it, cut))


def sum_precompute(it, fn, args, kw, node):
    v = {k: getarg(fn, args, kw, k) for k in ("in_shape", "out_shape", "filter_basis", "grid_in", "grid_out", "theta_cutoff", "transpose_normalization")}
    if any(x is MISSING for x in v.values()):
        return MISSING
    ins, outs = it.iterate(v["in_shape"]), it.iterate(v["out_shape"])
    if not isinstance(ins, list) or not isinstance(outs, list) or len(ins) != 2 or len(outs) != 2 or not isinstance(v["transpose_normalization"], bool):
        return MISSING
    row, col, off = nbr_tensors(signature(it, ins, outs, v["filter_basis"], v["grid_in"], v["grid_out"], v["theta_cutoff"], v["transpose_normalization"]))
    ker = Ten([T.new_axis(row.shape[0])], T.ZERO, I64, O.FRESH)
    idx = O.stack(it, L([ker, row, col]), P(0), node)
    return (idx, O.opq_ten(it, "psi_vals", [], [row.shape[0]], DT("float64")), off)


def sum_vspec_nbr(it, fn, args, kw, node):
    ins, outs, fb, gi, go, cut, tn = args
    row, col, _ = nbr_tensors(signature(it, it.iterate(ins), it.iterate(outs), fb, gi, go, cut, tn))
    return (row, col)


def sig_from_col(col):
    """the pattern a column tensor belongs to"""
    if not isinstance(col, Ten) or not col.known() or len(col.expr.t) != 1:
        return None
    (m, c), = col.expr.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0][:3] != ("fn", "def:nbr", "col") or m[0][0][-1] != Poly.atom(col.axes[0]):
        return None
    return m[0][0][3:-1]


def attention(it, args, node):
    """attention_kernels.forward on NHWC tensors with packed heads"""
    from checks.p05 import cls
    k, v, q, quad, col, off, nh, wi, ho, wo = args
    sig = sig_from_col(col)
    if sig is None or not isinstance(off, Ten) or not off.known() or off.expr != Poly.atom(("fn", "def:nbroff") + sig + (Poly.atom(off.axes[0]),)):
        return Top("attention with unknown neighbourhood")
    row = nbr_tensors(sig)[0]
    return it.call(cls(it, "vspec.attention"), [k, v, q, quad, row, col, nh, wi, ho, wo, sig[4]], {})


def opcall(it, name, args, kw, node):
    p = name.split(".")
    if p[0] != "attention_kernels" or len(p) < 2:
        return MISSING
    if p[1] in ("permute_to_nhwc", "permute_to_nchw"):
        if len(args) != 1 or not isinstance(args[0], Ten) or len(args[0].axes) != 4:
            return Top(p[1])
        x = args[0]
        pm = (0, 2, 3, 1) if p[1].endswith("nhwc") else (0, 3, 1, 2)
        ax = [T.new_axis(x.shape[i]) for i in pm]
        return Ten(ax, T.subst(x.expr, {x.axes[i]: Poly.atom(a) for i, a in zip(pm, ax)}) if x.known() else None, x.dtype, O.FRESH)
    if p[1] == "forward":
        if len(args) != 10:
            it.event("arity", "attention_kernels.forward called with %d arguments, its schema has 10" % len(args), node)
            return Top("forward")
        return attention(it, list(args), node)
    if p[1] == "backward":
        if len(args) != 11:
            it.event("arity", "attention_kernels.backward called with %d arguments, its schema has 11" % len(args), node)
            return Top("backward")
        args = list(args)
        go = args.pop(3)
        return gradients(it, lambda ins: attention(it, ins + args[3:], node), args[:3], go, (0, 1, 2), node)
    return MISSING


def gradients(it, f, args, go, which, node):
    """symbolic derivatives of sum(go * f(args))"""
    from . import diff as D
    ins = [O.mk_input("bw%d" % i, list(a.shape), a.dtype) for i, a in enumerate(args)]
    y = f(ins)
    if not isinstance(y, Ten) or not y.known() or not all(isinstance(a, Ten) and a.known() for a in args + [go]):
        return Top("attention backward")
    if len(go.axes) != len(y.axes):
        it.event("dim", "the attention backward gets a gradient of %d dimensions" % len(go.axes), node)
        return Top("attention backward")
    for a, b in zip(go.shape, y.shape):
        if not it.same(a, b):
            O.size_mismatch(it, "the attention backward gets a gradient of size %s where the output has size %s" % (T.show(a, 60), T.show(b, 60)), a, b, node)
            return Top("attention backward")
    out = []
    for i in which:
        js, e = D.vjp(y.expr, y.axes, T.subst(go.expr, {x: Poly.atom(z) for x, z in zip(go.axes, y.axes)}), "bw%d" % i, list(args[i].shape))
        for k, b in enumerate(args):
            e = T.instantiate(e, "bw%d" % k, b.axes, b.expr)
        out.append(Ten(js, e, args[i].dtype, O.FRESH))
    return tuple(out)


def sum_bwd(up, which):
    def f(it, fn, args, kw, node):
        from checks.p05 import cls
        v = [getarg(fn, args, kw, k) for k in ("kx", "vx", "qy", "dy", "quad_weights", "col_idx", "row_off", "nlon_in", "nlat_out", "nlon_out")]
        if any(x is MISSING for x in v):
            return MISSING
        sig = sig_from_col(v[5])
        if sig is None or sig[4] is not up or not isinstance(v[6], Ten) or not v[6].known() or v[6].expr != Poly.atom(("fn", "def:nbroff") + sig + (Poly.atom(v[6].axes[0]),)):
            return MISSING
        r = nbr_tensors(sig)[0]
        g = gradients(it, lambda ins: it.call(cls(it, "vspec.attention_cf"), ins + [v[4], r, v[5]] + v[7:] + [up], {}), v[:3], v[3], (which,), node)
        return g if isinstance(g, Top) else g[0]
    return f


def sum_fwd(up):
    def f(it, fn, args, kw, node):
        """the reference forward kernels: decided against the definition on their own"""
        from checks.p05 import cls
        v = [getarg(fn, args, kw, k) for k in ("kx", "vx", "qy", "quad_weights", "col_idx", "row_off", "nlon_in", "nlat_out", "nlon_out")]
        if any(x is MISSING for x in v):
            return MISSING
        sig = sig_from_col(v[4])
        if sig is None or sig[4] is not up or not isinstance(v[5], Ten) or not v[5].known() or v[5].expr != Poly.atom(("fn", "def:nbroff") + sig + (Poly.atom(v[5].axes[0]),)):
            return MISSING
        r = nbr_tensors(sig)[0]
        return it.call(cls(it, "vspec.attention_cf"), v[:4] + [r, v[4]] + v[6:] + [up], {})
    return f


def config(optimized, **kw):
    from .scen import base_config
    extra = {} if not kw.pop("modular", False) else {"*._neighborhood_s2_attention_fwd_torch": sum_fwd(False), "*._neighborhood_s2_attention_upsample_fwd_torch": sum_fwd(True)}
    if extra:
        for up in (False, True):
            for i, n in enumerate("kvq"):
                extra["*._neighborhood_s2_attention_%sbwd_d%s_torch" % ("upsample_" if up else "", n)] = sum_bwd(up, i)
    yes = lambda v: (lambda it, args, kws, node: v)
    return base_config(overrides={"attention_helpers.optimized_kernels_is_available": yes(optimized), "disco_helpers.optimized_kernels_is_available": yes(optimized)},
                       summaries={"vspec.NBR": sum_vspec_nbr, "*._precompute_convolution_tensor_s2": sum_precompute, **extra}, opcall=opcall, record_ops=True, **kw)
