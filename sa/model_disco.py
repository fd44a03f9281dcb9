"""Model of the DISCO filter tensor and of the contraction operators (what the compiled kernels are specified to compute)."""
from . import terms as T
from .terms import Poly, P
from .values import *  # noqa
from . import torchops as O
from .scen import getarg, num, as_poly, MISSING

NNZ = Poly.atom(("sym", "nnz", 1))
PARTS = ("ker", "row", "col", "val")
I64, F64_ = DT("int64"), DT("float64")


def sig_of(it, v):
    return v if isinstance(v, Poly) else repr(v)


def psi_atom(part, sig, n):
    return Poly.atom(("fn", "def:psi", part) + sig + (n,))


def basis_id(it, fb):
    if isinstance(fb, Obj) and fb.cls is not None:
        ks = fb.attrs.get("kernel_shape")
        return (fb.cls.name if hasattr(fb.cls, "name") else fb.cls.node.name, repr(ks))
    return repr(fb)


def psi_sig(it, in_shape, out_shape, K, fb, gi, go, cutoff, teps, tn, mode, mq, sort):
    """(kernel size, nlat_out, nlat_in, nlon_in, nnz, options...): psi is an arbitrary function of these"""
    return (num(K), num(out_shape[0]), num(in_shape[0]), num(in_shape[1]), NNZ, sort, repr((basis_id(it, fb), gi, go, tn, mode, mq)), num(out_shape[1]), sig_of(it, cutoff), sig_of(it, teps))


def psi_tensors(sig):
    out = {}
    for k in PARTS:
        a = T.new_axis(NNZ)
        out[k] = Ten([a], psi_atom(k, sig, Poly.atom(a)), F64_ if k == "val" else I64, O.FRESH)
    return out


def sum_precompute(it, fn, args, kw, node):
    v = {k: getarg(fn, args, kw, k) for k in ("in_shape", "out_shape", "filter_basis", "grid_in", "grid_out", "theta_cutoff", "theta_eps", "transpose_normalization", "basis_norm_mode", "merge_quadrature")}
    if any(x is MISSING for x in v.values()):
        return MISSING
    ins, outs = it.iterate(v["in_shape"]), it.iterate(v["out_shape"])
    K = it.getattr(v["filter_basis"], "kernel_size", node)
    if not isinstance(K, Poly) or not isinstance(ins, list) or not isinstance(outs, list) or len(ins) != 2 or len(outs) != 2:
        return MISSING
    te = v["theta_eps"]
    te = as_poly(te) if not isinstance(te, Poly) else te
    sig = psi_sig(it, ins, outs, K, v["filter_basis"], v["grid_in"], v["grid_out"], v["theta_cutoff"], te, v["transpose_normalization"], v["basis_norm_mode"], v["merge_quadrature"], False)
    t = psi_tensors(sig)
    idx = O.stack(it, L([t["ker"], t["row"], t["col"]]), P(0), node)
    roff = O.opq_ten(it, "psi_roff", [], [sig[1] + 1], I64)
    return (idx, t["val"], roff)


def sum_vspec_psi(it, fn, args, kw, node):
    ins, outs, fb, gi, go, cut, tn, mode = args
    K = it.getattr(fb, "kernel_size", node)
    sig = psi_sig(it, it.iterate(ins), it.iterate(outs), K, fb, gi, go, cut, Poly.const(1e-3), tn, mode, True, False)
    t = psi_tensors(sig)
    return tuple(t[k] for k in PARTS)


def sum_vspec_contract(name):
    def h(it, fn, args, kw, node):
        x, psi, K, Ho, Wo = args
        ker, row, col, val = psi
        return contraction(it, name, [x, val, ker, row, col, val, K, Ho, Wo], node)
    return h


def part_of(t):
    """(part, sig, index) when t is exactly one of psi's arrays"""
    if not isinstance(t, Ten) or not t.known() or len(t.axes) != 1:
        return None
    ts = t.expr.t
    if len(ts) != 1:
        return None
    (m, c), = ts.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0][:2] != ("fn", "def:psi"):
        return None
    a = m[0][0]
    return a[2], a[3:-1], a[-1]


def ext_preprocess(it, args, kw, node):
    """preprocess_psi(K, nlat_out, ker, row, col, vals): sorts the arrays in place by (ker, row), returns the row offsets"""
    if len(args) != 6:
        return Top("preprocess_psi")
    K, Ho = args[0], args[1]
    ps = [part_of(t) for t in args[2:]]
    for t in args[2:]:
        if isinstance(t, Ten) and len(t.axes) != 1:
            it.event("dim", "preprocess_psi gets an array with %d dimensions" % len(t.axes), node)
            return Top("preprocess_psi")
    if any(p is None for p in ps) and all(isinstance(t, Ten) and t.known() and len(t.axes) == 1 for t in args[2:]) and isinstance(K, Poly) and isinstance(Ho, Poly):
        return preprocess_any(it, K, Ho, args[2:], node)
    if any(p is None for p in ps) or [p[0] for p in ps] != list(PARTS) or len({p[1] for p in ps}) != 1:
        return Top("preprocess_psi of unknown arrays")
    sig = ps[0][1]
    for got, exp, what in ((K, sig[0], "kernel size"), (Ho, sig[1], "number of rows")):
        if isinstance(got, Poly) and not it.same(got, exp):
            O.size_mismatch(it, "preprocess_psi gets %s %s, psi has %s" % (what, T.show(got), T.show(exp)), got, exp, node)
    s2 = sig[:5] + (True,) + sig[6:]
    for t, k in zip(args[2:], PARTS):
        it.mutate(t, node, "preprocess_psi")
        t.expr = psi_atom(k, s2, Poly.atom(t.axes[0]))
    n = Poly.atom(("fn", "def:psirows") + s2)
    a = T.new_axis(n + 1)
    return Ten([a], Poly.atom(("fn", "def:psiroff") + s2 + (Poly.atom(a),)), I64, O.FRESH)


def preprocess_any(it, K, Ho, ts, node):
    """arrays derived from psi (a selection of its entries): sorted in place by (kernel, row), so the order of the entries is unknown but the set is kept.
    The contraction does not depend on the order, hence the entries keep their expressions; kernel and row numbers have to be in range"""
    for t in ts:
        it.mutate(t, node, "preprocess_psi")
    for t, bound, what in ((ts[0], K, "kernel index"), (ts[1], Ho, "row")):
        it.use_index(t.expr, t.axes, bound, node)
    return O.opq_ten(it, "psi_roff_any", [], [T.sym("psi_rows") + 1], I64)


def contraction(it, name, args, node):
    """disco_kernels.forward / backward: out[b,c,k,t,q] = sum_n [ker=k][row=t] val * x[b,c,col//W,(col%W + s*q) mod W], and its transpose"""
    if len(args) != 9:
        it.event("arity", "disco_kernels.%s called with %d arguments, its schema has 9" % (name, len(args)), node)
        return Top(name)
    x, roff, ker, row, col, val, K, Ho, Wo = args
    if not all(isinstance(t, Ten) for t in (x, roff, ker, row, col, val)) or not all(isinstance(v, Poly) for v in (K, Ho, Wo)):
        return Top(name)
    fwd = name == "forward"
    if len(x.axes) != (4 if fwd else 5):
        it.event("dim", "disco_kernels.%s gets a tensor with %d dimensions" % (name, len(x.axes)), node)
        return Top(name)
    sh = [x.shape[0], x.shape[1]] + ([K, Ho, Wo] if fwd else [Ho, Wo])
    ax = [T.new_axis(s) for s in sh]
    if not all(t.known() for t in (x, ker, row, col, val)):
        return Ten(ax, None, x.dtype, O.FRESH)
    if not fwd and not it.same(x.shape[2], K):
        O.size_mismatch(it, "disco_kernels.backward with kernel_size %s on a tensor with %s kernel entries" % (T.show(K), T.show(x.shape[2])), x.shape[2], K, node)
    if not all(it.same(t.shape[0], val.shape[0]) for t in (ker, row, col)):
        return Ten(ax, None, x.dtype, O.FRESH)
    n = T.new_axis(val.shape[0])
    N = Poly.atom(n)
    at = lambda t: T.subst(t.expr, {t.axes[0]: N})
    k_, r_, c_, v_ = at(ker), at(row), at(col), at(val)
    i = [Poly.atom(a) for a in ax]
    if fwd:
        W = x.shape[3]
        s = T.fdiv(W, Wo)
        lat, lon = T.fdiv(c_, W), T.mod(T.mod(c_, W) + s * i[4], W)
        e = v_ * T.delta(k_ - i[2]) * T.delta(r_ - i[3]) * T.subst(x.expr, dict(zip(x.axes, [i[0], i[1], lat, lon])))
        e = T.sum_over(e, [n])
    else:
        Wi = x.shape[4]
        s = T.fdiv(Wo, Wi)
        q = T.new_axis(Wi)
        lat, lon = T.fdiv(c_, Wo), T.mod(T.mod(c_, Wo) + s * Poly.atom(q), Wo)
        e = v_ * T.delta(lat - i[2]) * T.delta(lon - i[3]) * T.subst(x.expr, dict(zip(x.axes, [i[0], i[1], k_, r_, Poly.atom(q)])))
        e = T.sum_over(e, [n, q])
    return Ten(ax, e, x.dtype, O.FRESH)


PK = ("idx", "vals", "count")


def pack_tensor(kind, part, sig, sizes):
    ax = [T.new_axis(s) for s in sizes]
    return Ten(ax, Poly.atom(("fn", kind, part) + sig + tuple(Poly.atom(a) for a in ax)), F64_ if part == "vals" else I64, O.FRESH)


def pack_of(t, kind):
    if not isinstance(t, Ten) or not t.known() or len(t.expr.t) != 1:
        return None
    (m, c), = t.expr.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0][:2] != ("fn", kind):
        return None
    a = m[0][0]
    n = len(t.axes)
    if tuple(a[-n:]) != tuple(Poly.atom(x) for x in t.axes):
        return None
    return a[2], a[3:-n]


def ext_pack(it, args, kw, node):
    """pack_psi_dense(K, nlat_out, nlon_in, pad, ker, row, col, vals, roff): the same entries, dense per (k, row)"""
    if len(args) != 9:
        return Top("pack_psi_dense")
    ps = [part_of(t) for t in args[4:8]]
    if any(p is None for p in ps) and isinstance(args[0], Poly) and isinstance(args[1], Poly):
        return tuple(O.opq_ten(it, "pack_any", [], sz, F64_ if k == 1 else I64) for k, sz in enumerate(([args[0], args[1], T.sym("nbr_pad"), P(2)], [args[0], args[1], T.sym("nbr_pad")], [args[0], args[1]])))
    if any(p is None for p in ps) or [p[0] for p in ps] != list(PARTS) or len({p[1] for p in ps}) != 1:
        return Top("pack_psi_dense of unknown arrays")
    sig = ps[0][1]
    for got, exp, what in ((args[0], sig[0], "kernel size"), (args[1], sig[1], "number of rows"), (args[2], sig[3], "number of input longitudes")):
        if isinstance(got, Poly) and not it.same(got, exp):
            O.size_mismatch(it, "pack_psi_dense gets %s %s, psi has %s" % (what, T.show(got), T.show(exp)), got, exp, node)
    K, Ho, pad = sig[0], sig[1], T.sym("nbr_pad")
    return tuple(pack_tensor("def:pack", k, sig, sz) for k, sz in zip(PK, ([K, Ho, pad, P(2)], [K, Ho, pad], [K, Ho])))


def sum_kpack(it, fn, args, kw, node):
    ps = [pack_of(a, "def:pack") for a in args[:3]]
    if all(p is None for p in ps) and all(isinstance(a, Ten) for a in args[:3]):
        K, Ho, pad = args[0].shape[0], args[0].shape[1], args[0].shape[2]
        kp = T.fdiv(K + 7, P(8)) * 8
        return tuple(O.opq_ten(it, "kpack_any", [], sz, F64_ if k == 1 else I64) for k, sz in enumerate(([Ho, pad, P(2)], [Ho, pad, kp], [Ho]))) + (kp,)
    if any(p is None for p in ps) or [p[0] for p in ps] != list(PK):
        return MISSING
    sig = ps[0][1]
    kp = T.fdiv(sig[0] + 7, P(8)) * 8
    pad = T.sym("nbr_pad")
    return tuple(pack_tensor("def:kpack", k, sig, sz) for k, sz in zip(PK, ([sig[1], pad, P(2)], [sig[1], pad, kp], [sig[1]]))) + (kp,)


def kpacked(it, args, node):
    if len(args) != 7:
        it.event("arity", "disco_kernels.forward_kpacked called with %d arguments, its schema has 7" % len(args), node)
        return Top("kpacked")
    ps = [pack_of(a, "def:kpack") for a in args[1:4]]
    if any(p is None for p in ps) or len({p[1] for p in ps}) != 1:
        return Top("kpacked")
    if [p[0] for p in ps] != list(PK):
        it.event("shape", "disco_kernels.forward_kpacked gets its tables in the order %s" % [p[0] for p in ps], node)
        return Top("kpacked")
    t = psi_tensors(ps[0][1])
    return contraction(it, "forward", [args[0], t["val"], t["ker"], t["row"], t["col"], t["val"]] + list(args[4:]), node)


def opcall(it, name, args, kw, node):
    p = name.split(".")
    if p[0] == "disco_kernels" and len(p) >= 2:
        if p[1] == "forward_kpacked":
            return kpacked(it, list(args), node)
        if p[1] in ("forward", "backward"):
            return contraction(it, p[1], list(args), node)
    return MISSING


def sum_split(it, fn, args, kw, node):
    """_build_kernel_split_csr: the same entries, kernel by kernel, with kernel index 0"""
    v = [getarg(fn, args, kw, k) for k in ("ker_idx", "row_idx", "col_idx", "vals")]
    K = getarg(fn, args, kw, "kernel_size")
    ps = [part_of(t) for t in v]
    if any(p is None for p in ps) and all(isinstance(t, Ten) and t.known() for t in v) and isinstance(K, Poly):
        u = lambda nm, sz, dt: O.opq_ten(it, nm, [], sz, dt)
        n = v[3].shape
        return (u("split_roff_any", [T.sym("psi_rows") + K], I64), u("split_off_any", [P(2), K + 1], I64)) + tuple(u("split_%s_any" % k, list(n), F64_ if k == "val" else I64) for k in PARTS)
    if any(p is None for p in ps) or [p[0] for p in ps] != list(PARTS) or not isinstance(K, Poly):
        return MISSING
    sig = ps[0][1]
    if sig[5] is not True:
        return MISSING
    t = psi_tensors(sig)
    t["ker"].expr = T.ZERO
    nr = Poly.atom(("fn", "def:psirows") + sig) + K
    a = T.new_axis(nr)
    roff = Ten([a], Poly.atom(("fn", "def:psisplitroff") + sig + (Poly.atom(a),)), I64, O.FRESH)
    b, c = T.new_axis(P(2)), T.new_axis(K + 1)
    off = Ten([b, c], T.delta(Poly.atom(b)) * Poly.atom(("fn", "def:psisplitoff", "row") + sig + (Poly.atom(c),)) + T.delta(Poly.atom(b) - 1) * Poly.atom(("fn", "def:psisplitoff", "nnz") + sig + (Poly.atom(c),)), I64, O.FRESH)
    return (roff, off, t["ker"], t["row"], t["col"], t["val"])


def sum_offsets(it, fn, args, kw, node):
    """_split_csr_python_offsets: the two rows of the offsets table as tuples of numbers"""
    t = args[0] if args else kw.get("split_nnz_off")
    if not isinstance(t, Ten) or not t.known() or len(t.axes) != 2 or not t.shape[1].is_const():
        return MISSING
    n = t.shape[1].intval()
    f = lambda i, j: T.subst(t.expr, {t.axes[0]: P(i), t.axes[1]: P(j)})
    return (tuple(f(0, j) for j in range(n)), tuple(f(1, j) for j in range(n)))


def config(optimized, overrides=None, **kw):
    from .scen import base_config
    yes = lambda v: (lambda it, args, kws, node: v)
    return base_config(
        overrides={"disco_helpers.optimized_kernels_is_available": yes(optimized), "disco_helpers.cuda_kernels_is_available": yes(False),
                   "disco_helpers.preprocess_psi": ext_preprocess, "disco_helpers.pack_psi_dense": ext_pack, **(overrides or {})},
        summaries={"*._split_csr_python_offsets": sum_offsets, "vspec.PSI": sum_vspec_psi, "vspec.CONTRACT": sum_vspec_contract("forward"), "vspec.CONTRACT_T": sum_vspec_contract("backward"), "*._precompute_convolution_tensor_s2": sum_precompute, "*._build_kernel_split_csr": sum_split, "*._maybe_kpack_psi": sum_kpack},
        opcall=opcall, record_ops=True, **kw)
