"""P08: neighbourhood attention equals its definition, forward and backward."""
from checks.p06 import *  # noqa
from fractions import Fraction
from sa import model_att as MA, randint

META = {
    "level": "other",
    "explanation": "The reference attention kernels (forward and the three hand-written gradients, gather and upsampling) are abstractly interpreted for symbolic sizes over an arbitrary neighbourhood pattern; their nested loops become recurrences, "
                   "which must equal the quadrature-weighted softmax of specs/vspec.py resp. its symbolic derivative, with every exponent bounded by zero. The registered operators, their registered backward passes, the layout conversions and the layers "
                   "(projections, head split, query/key normalisation, scale, cutoff, direction) are interpreted on top and compared with the definition of the whole layer.",
    "assumptions": ["torch operators behave as their transfer functions in sa/torchops.py", "the CUDA kernels compute what the CPU kernels are shown to compute", "every output point has at least one neighbour; the pattern is arbitrary but equal for equal arguments"],
}
CK, CV, RAT, NH = S("ck"), S("cv"), S("lonratio"), S("nheads")
RAT2 = SZ("lonratio2", 2)
HI, WI, HO, WO = SZ("hin", 1), SZ("win", 1), SZ("hout", 1), SZ("wout", 1)
KT = "torch_harmonics.attention.kernels_torch.attention_torch."


def setup(up):
    wi, wo = (WI, WI * RAT2) if up else (WO * RAT, WO)
    sig = ((HI, wi, HO, wo) if up else (HO, wo, HI, wi)) + (up, "pattern", T.ONE)
    return sig, wi, wo


def job_fwd(up):
    sig, wi, wo = setup(up)

    def ins():
        return O.mk_input("k", [B, CK, HI, wi], F32), O.mk_input("v", [B, CV, HI, wi], F32), O.mk_input("q", [B, CK, HO, wo], F32), O.mk_input("quad", [HI], F32)

    def run(it):
        k, v, q, w = ins()
        row, col, off = MA.nbr_tensors(sig)
        return it.call(cls(it, KT + ("_neighborhood_s2_attention_upsample_fwd_torch" if up else "_neighborhood_s2_attention_fwd_torch")), [k, v, q, w, col, off, wi, HO, wo], {})

    def sp(it, _):
        k, v, q, w = ins()
        row, col, off = MA.nbr_tensors(sig)
        return it.call(cls(it, "vspec.attention_cf"), [k, v, q, w, row, col, wi, HO, wo, up], {})
    subj = "forward, %s" % ("upsampling" if up else "gather")
    return bounded_exponents(decide("attention-reference", subj, KT + "fwd", run, sp, MA.config(False)), subj, KT + "fwd", run)


def bounded_exponents(out, subj, where, run, names=("q",)):
    """logits of any magnitude: the shifted exponentials neither overflow nor all vanish"""
    for p in explore(lambda: Interp(repo(), MA.config(False)), run, 8):
        if not isinstance(p.result, Ten) or not p.result.known() or not feasible(p):
            continue
        for sign in (-1, 1):
            e = p.result.expr
            q, k = O.mk_input("q", [T.ONE] * 4, F32), O.mk_input("k", [T.ONE] * 4, F32)
            e = T.instantiate(e, "q", q.axes, (q.expr * q.expr + T.ONE) * (sign * 2000))
            e = T.instantiate(e, "k", k.axes, k.expr * k.expr + T.ONE)          # every logit is large, and of this sign
            try:
                m = randint.survives(e, p.result.axes, path_conds(p.it))
            except Unknown as ex:
                out.und("attention-overflow", subj, str(ex))
                continue
            if m is not None:
                out.bad("attention-overflow", where, subj, "has no finite value for large %s logits (%s): the exponentials %s" % ("negative" if sign < 0 else "positive", show_env(m), "all vanish" if sign < 0 else "overflow"))
            else:
                out.ok("attention-overflow", subj)
    return out


def job_bwd(up, which):
    """hand-written reference gradient = derivative of the definition"""
    sig, wi, wo = setup(up)
    randint.START[0] = 2 if up else 1

    def ins():
        return [O.mk_input(n, s, F32) for n, s in (("k", [B, CK, HI, wi]), ("v", [B, CV, HI, wi]), ("q", [B, CK, HO, wo]), ("dy", [B, CV, HO, wo]), ("quad", [HI]))]

    def run(it):
        row, col, off = MA.nbr_tensors(sig)
        return it.call(cls(it, KT + "_neighborhood_s2_attention_%sbwd_d%s_torch" % ("upsample_" if up else "", which)), ins() + [col, off, wi, HO, wo], {})

    def sp(it, _):
        k, v, q, dy, w = ins()
        row, col, off = MA.nbr_tensors(sig)
        y = it.call(cls(it, "vspec.attention_cf"), [k, v, q, w, row, col, wi, HO, wo, up], {})
        js, e = D.vjp(y.expr, y.axes, T.subst(dy.expr, {a: Poly.atom(b) for a, b in zip(dy.axes, y.axes)}), which, list({"k": k, "v": v, "q": q}[which].shape))
        return Ten(js, e, F32, O.FRESH)
    subj = "gradient of %s, %s" % (which, "upsampling" if up else "gather")
    return bounded_exponents(decide("attention-reference", subj, KT + "bwd_d" + which, run, sp, MA.config(False)), subj, KT + "bwd_d" + which, run)


def layer_inputs(case, hk=None):
    """(names, shapes): channel counts are multiples of the number of heads"""
    si, so = case["shapes"]
    ci = S("cin")
    q = O.mk_input("q", [B, ci, so[0], so[1]], F32)
    k = O.mk_input("k", [B, ci, si[0], si[1]], F32) if case.get("key", True) else None
    v = O.mk_input("v", [B, ci, si[0], si[1]], F32) if case.get("value", True) else None
    if case.get("shared"):
        v = k
    return q, k, v


def params(case):
    ck, cv, ci = CK * NH, CV * NH, S("cin")
    p = lambda n, *s: O.mk_input("param:" + n, list(s), F32)
    b = case.get("bias", True)
    out = []
    for n, co, c2 in (("q", ck, ci), ("k", ck, ci), ("v", cv, ci), ("proj", cv, cv)):
        out += [p(n + "_weights", co, c2, T.ONE, T.ONE), p(n + "_bias", co) if b else None]
    qn = case.get("use_qknorm", False)
    return out + [p("q_norm_weights", CK) if qn else None, p("k_norm_weights", CK) if qn else None]


NBH_CASES = {
    "self": dict(shapes=((NLAT, NLON), (NLAT, NLON)), key=False, value=False),
    "gather": dict(shapes=((NLAT, NLONO * RAT), (NLATO, NLONO)), grid_in="legendre-gauss", grid_out="lobatto"),
    "gather, cutoff": dict(shapes=((NLAT, NLONO * RAT), (NLATO, NLONO)), theta_cutoff=T.sym("cutoff"), bias=False, scale=T.sym("scale"), use_qknorm=True),
    "gather, shared key and value": dict(shapes=((NLAT, NLONO * RAT), (NLATO, NLONO)), shared=True),
    "upsampling": dict(shapes=((NLAT, NLON), (NLATO, NLON * RAT2)), grid_in="legendre-gauss", grid_out="equiangular", use_qknorm=True),
}
GLOBAL_CASES = {
    "self": dict(shapes=((NLAT, NLON), (NLAT, NLON)), key=False, value=False),
    "cross": dict(shapes=((NLAT, NLONO * RAT), (NLATO, NLONO)), grid_in="legendre-gauss", grid_out="lobatto", use_qknorm=True, bias=False),
    "scaled, evaluation mode": dict(shapes=((NLAT, NLONO * RAT), (NLATO, NLONO)), scale=T.sym("scale"), bias=False, drop_rate=P(Fraction(1, 2)), training=False),
}


def job_layer8(glob, name, opt):
    case = (GLOBAL_CASES if glob else NBH_CASES)[name]
    randint.START[0], randint.PTS[0] = 3, 5 if glob else 16
    c = "AttentionS2" if glob else "NeighborhoodAttentionS2"
    si, so = case["shapes"]
    kw = {k: v for k, v in case.items() if k in ("grid_in", "grid_out", "theta_cutoff", "bias", "scale", "use_qknorm", "drop_rate")}

    def run(it):
        kk = dict(kw, k_channels=CK * NH, out_channels=CV * NH)
        if glob:
            o = it.call(cls(it, "torch_harmonics." + c), [S("cin"), NH, si, so], kk)
        else:
            o = it.call(cls(it, "torch_harmonics." + c), [S("cin"), si, so], dict(kk, num_heads=NH, optimized_kernel=opt))
        if isinstance(o, Obj) and "training" in case:
            o.attrs["training"] = case["training"]
        q, k, v = layer_inputs(case)
        return it.call(o, [q] + ([k, v] if k is not None else []), {})

    def sp(it, _):
        q, k, v = layer_inputs(case)
        k, v = q if k is None else k, q if v is None else v
        gi, go = kw.get("grid_in", "equiangular"), kw.get("grid_out", "equiangular")
        if glob:
            return it.call(cls(it, "vspec.global_attention"), [q, k, v] + params(case) + [NH, kw.get("scale"), si, so, gi], {})
        fb = it.call(cls(it, "torch_harmonics.filter_basis.get_filter_basis"), [], {"kernel_shape": P(1), "basis_type": "zernike"})
        return it.call(cls(it, "vspec.neighborhood_attention"), [q, k, v] + params(case) + [NH, kw.get("scale"), si, so, fb, gi, go, kw.get("theta_cutoff"), name == "upsampling"], {})
    return decide("attention-layer", "%s %s%s" % (c, name, "" if glob else ", optimized" if opt else ", torch"), c, run, sp, MA.config(opt, modular=True, is_contiguous=False), limit=40, scfg=MA.config(opt))


def job_layout(fwd, opt):
    """layout conversions are the stated permutation and never alias their input; the two directions are inverse"""
    name = "to_nhwc" if fwd else "to_nchw"
    pm = (0, 2, 3, 1) if fwd else (0, 3, 1, 2)

    def ins():
        return O.mk_input("x", [B, CK, HI, WI], F32)

    def run(it):
        return it.call(cls(it, "torch_harmonics.attention._layout." + name), [ins()], {})

    def sp(it, _):
        x = ins()
        return it.call(it.getattr(x, "permute", None), [P(i) for i in pm], {})
    out = decide("attention-layout", "%s, %s" % (name, "optimized" if opt else "torch"), name, run, sp, MA.config(opt))
    for p in explore(lambda: Interp(repo(), MA.config(opt)), run, 8):
        if isinstance(p.result, Ten):
            if p.result.org & ins().org:
                out.bad("attention-layout:alias", name, name, "returns a tensor sharing memory with its argument (path: %s)" % describe(p))
            else:
                out.ok("attention-layout:alias", name)
    return out


def job_op(opt, up):
    """the registered operator on NHWC tensors with packed heads, and its registered backward"""
    sig, wi, wo = setup(up)
    randint.START[0], randint.PTS[0] = 3, 30
    mod = "torch_harmonics.attention." + ("optimized.attention_optimized._neighborhood_s2_attention_optimized" if opt else "kernels_torch.attention_torch._neighborhood_s2_attention_torch")

    def ins():
        return [O.mk_input(n, s, F32) for n, s in (("param:k", [B, HI, wi, CK * NH]), ("param:v", [B, HI, wi, CV * NH]), ("param:q", [B, HO, wo, CK * NH]), ("quad", [HI]))]

    def run(it):
        row, col, off = MA.nbr_tensors(sig)
        return it.call(cls(it, mod), ins() + [col, off, NH, wi, HO, wo], {})

    def sp(it, _):
        k, v, q, w = ins()
        row, col, off = MA.nbr_tensors(sig)
        return it.call(cls(it, "vspec.attention"), [k, v, q, w, row, col, NH, wi, HO, wo, up], {})
    out = decide("attention-operator", "%s, %s" % (mod.split(".")[-1], "upsampling" if up else "gather"), mod, run, sp, MA.config(opt, modular=True), limit=20, scfg=MA.config(opt))

    def grad(it):
        run(it)
        return regrad(it)
    out += decide_grad("attention-gradient", "%s, %s" % (mod.split(".")[-1], "upsampling" if up else "gather"), mod, grad, MA.config(opt, modular=True, all_grads=True), limit=20)
    return out


def run(tier):
    from checks import kern
    t = kern.attention_tasks()
    t += [(job_bwd, (up, w)) for up in (True, False) for w in "kqv"]
    t += [(job_op, (opt, up)) for opt in (False, True) for up in (True, False)]
    t += [(job_layer8, (True, n, False)) for n in GLOBAL_CASES]
    t += [(job_layer8, (False, n, opt)) for n in NBH_CASES for opt in (True, False)]
    t += [(job_fwd, (up,)) for up in (True, False)]
    t += [(job_layout, (fwd, opt)) for fwd in (False, True) for opt in (False, True)]
    return report.run_tasks(t)
