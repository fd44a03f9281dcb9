"""The compiled CPU kernels: their C++ sources are abstractly interpreted and compared with the definitions the Python analysis assumes for the operators."""
from checks.p05 import *  # noqa
import glob
import os
from sa import cxx as C, model_disco as MD, model_att as MA, diff as D, randint
from sa.randint import Undef

I64 = DT("int64")
_prog = {}


def program(ns):
    """translation units of one extension"""
    if ns not in _prog:
        d = os.path.join(scen_root(), "torch_harmonics", "disco" if ns == "psi" or ns.startswith("disco") else "attention", "optimized")
        _prog[ns] = C.Program(sorted(glob.glob(d + "/*.cpp")) + ([] if ns == "psi" else sorted(glob.glob(d + "/kernels_cpu/*.cpp"))), ns)
    return _prog[ns]


def scen_root():
    return repo().root


def ct(c, t, name):
    """tensor argument of the C++ operator with the elements of an abstract tensor"""
    sh = list(t.shape)
    st = C.CT(None, sh, t.dtype).strides()
    return C.CT(c.newarr(name, C.numel(sh), lambda x: T.subst(t.expr, dict(zip(t.axes, C.unravel(x, sh, st))))), sh, t.dtype)


def to_args(args, after=()):
    def make(c):
        v = [ct(c, a, "arg%d" % k) if isinstance(a, Ten) else a for k, a in enumerate(args)]
        c.changed = [C.CT(v[k].arr, list(v[k].shape), v[k].dtype) for k in after]         # arguments the function updates
        return v
    return make


def as_ten(v, axes):
    return Ten(axes, v.at([Poly.atom(a) for a in axes]), v.dtype, O.FRESH)


class Path:
    """path of a C++ function in the form the comparisons expect"""

    def __init__(self, c):
        self.taken = []
        for a, v in c.conds:
            cd, val = C.cond_of(a, v)
            self.taken.append((cd.key, cd, val, ""))
        self.guards, self.eqs, self.events, self.opaque_log, self.known = [], {}, [], [], {}


def where(c):
    return "%s:%s" % (os.path.relpath(c[0], scen_root()), c[1]) if c else ""


def preload(ns):
    """parse the extension's sources once, before the tasks are distributed"""
    from concurrent.futures import ThreadPoolExecutor
    p = program(ns)

    def one(f):
        try:
            p.tu(f)
        except Exception:       # reported by the tasks that need it
            p.failed.add(f)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, p.files))


def kernel(rule, ns, op, subj, args, spec, valid=(), blocks=None, only=None, large=False, after=(), track=None):
    """every path of operator op on args equals spec(it) (one or several tensors); arguments satisfying `valid` are not rejected"""
    out = report.Obl()
    track = track or TRACK[0]
    if track:
        rule = {"oob": "buffer-bounds", "race": "schedule"}[track]
    try:
        if track == "race":
            for c, r in C.explore(program(ns), op, to_args(args, after), blocks=blocks, track="marks"):
                safety(out, rule, subj, ns + "::" + op, c, Path(c), None)
            if any(o["status"] == "violation" for o in out):
                return out
        ps = C.explore(program(ns), op, to_args(args, after), blocks=blocks, track=track)
    except C.Unk as e:
        out.und(rule, subj, "not analysed: %s" % e)
        return out
    exp = None
    loc = ns + "::" + op
    fns, seen = set(), set()
    for c, r in ps:
        pt = Path(c)
        fns |= c.visited
        if track == "oob":
            def again(sites, zero, k=ps.index((c, r))):
                try:
                    c2 = C.explore(program(ns), op, to_args(args, after), blocks=blocks, track=track, sites=sites)[k][0]
                except (C.Unk, IndexError):
                    return None
                for s in sites:
                    o = zero(c2.vars.get(s, T.ZERO), subj, "%s, '%s' at %s" % (loc, s[2], where(s[1])), "accesses '%s' outside its bounds at %s" % (s[2], where(s[1])))
                    if any(x["status"] == "violation" for x in o):
                        return o
            safety(out, rule, subj, loc, c, pt, again)
            continue
        for g, at, conds in c.guards:
            if g.constval() is not None:
                continue
            cd, v = C.cond_of(g, True)
            pre = [C.cond_of(a, b) for a, b in conds if a is not g]
            if (cd.key, at) in seen:
                continue
            seen.add((cd.key, at))
            try:
                env = sample([], pre + list(valid) + [(cd, v)], random.Random(7), tries=600, strict=True)
            except Unknown as ex:
                out.und(rule + ":rejects", subj, str(ex))
                continue
            if env is not None:
                out.bad(rule + ":rejects", loc, where(at), "%s: rejects valid arguments (%s)" % (subj, show_env(env)))
            else:
                out.ok(rule + ":rejects", "%s, check at %s" % (subj, where(at)))
        try:
            if pt.taken and sample([], [(x[1], x[2]) for x in pt.taken] + list(valid), random.Random(5), tries=1500) is None:
                continue
        except Unknown:
            pass
        if isinstance(r, C.Rejected):
            out.bad(rule + ":rejects", loc, where(r.args[0] if r.args else None), "%s: always rejects these arguments (%s)" % (subj, path_text(pt)))
            continue
        for nt in c.notes:
            if nt[0] in ("narrow-float", "narrow-int"):
                out.bad(rule + ":" + nt[0], loc, where(nt[1]), "%s: loses precision in an implicit conversion" % subj)
        if exp is None:
            exp = spec_tensors(spec)
            if exp is None:
                out.und(rule, subj, "definition not evaluated")
                return out
        rs = (list(r) if isinstance(r, (tuple, list)) else [r]) + c.changed
        if len(rs) != len(exp):
            out.bad(rule, loc, subj, "returns %d tensors, expected %d" % (len(rs), len(exp)))
            continue
        for k, (g, e) in enumerate(zip(rs, exp)):
            s2 = subj + (" [%d]" % k if len(exp) > 1 else "")
            if only is not None and k != only:
                continue
            if not isinstance(g, C.CT):
                out.und(rule, s2, "result not modelled")
                continue
            if g.dtype.name != e.dtype.name:
                out.bad(rule + ":dtype", loc, s2, "returns %s, expected %s" % (g.dtype, e.dtype))
            if len(g.shape) != len(e.axes):
                out.bad(rule, loc, s2, "has %d dimensions, expected %d" % (len(g.shape), len(e.axes)))
                continue
            compare(out, rule, s2, loc, as_ten(g, [T.new_axis(s) for s in g.shape]), e, (pt,))
            if large and not track:
                large_logits(out, rule + ":overflow", s2, loc, as_ten(g, [T.new_axis(s) for s in g.shape]), pt)
    out.note("functions_analysed", sorted(fns))
    return out


TRACK = [None]


def safety(out, rule, subj, loc, c, pt, again):
    """no access outside a buffer, no element written by two iterations of a parallel loop"""
    def zero(e, subj, loc, text):
        o = report.Obl()
        compare(o, rule, subj, loc, Ten([], e, I64, O.FRESH), Ten([], T.ZERO, I64, O.FRESH), (pt,))
        for x in o:
            x["detail"] = x["detail"].replace("differs from its definition", text).split(" at index")[0]
        return o
    for at, name, e, conds in c.races:
        out.extend(zero(e, "%s, '%s'" % (subj, name), "%s, parallel loop at %s" % (loc, where(at)), "'%s' is written by several iterations of the parallel loop at %s" % (name, where(at))))
    v = c.vars["oob" if rule == "buffer-bounds" else "race"]
    if rule == "buffer-bounds" or v.t:
        o = zero(v, subj, loc, "accesses a buffer outside its bounds" if rule == "buffer-bounds" else "an element is written by several iterations of a parallel loop")
        if rule == "buffer-bounds" and any(x["status"] == "violation" for x in o):
            o = again(list(c.sites), zero) or o
        out.extend(o)


def tracked(track, f, *args):
    TRACK[0] = track
    try:
        return f(*args)
    finally:
        TRACK[0] = None


def large_logits(out, rule, subj, loc, g, pt):
    """logits of any magnitude: the shifted exponentials neither overflow nor all vanish"""
    q, k = O.mk_input("q", [T.ONE] * 4, F32), O.mk_input("k", [T.ONE] * 4, F32)
    for sign in (-1, 1):
        e = T.instantiate(g.expr, "q", q.axes, (q.expr * q.expr + T.ONE) * (sign * 2000))
        e = T.instantiate(e, "k", k.axes, k.expr * k.expr + T.ONE)
        try:
            m = randint.survives(e, g.axes, path_conds(pt))
        except Unknown as ex:
            out.und(rule, subj, str(ex))
            continue
        if m is not None:
            out.bad(rule, loc, subj, "has no finite value for large %s logits (%s): the exponentials %s" % ("negative" if sign < 0 else "positive", show_env(m), "all vanish" if sign < 0 else "overflow"))
        else:
            out.ok(rule, subj)


def path_text(pt):
    return " and ".join("%s is %s" % (c, v) for _, c, v, _ in pt.taken) or "unconditionally"


def spec_tensors(spec):
    for q in explore(lambda: Interp(repo(), MA.config(False)), spec, 4):
        if q.exc is None:
            es = flat(q.result)
            if all(isinstance(e, Ten) and e.known() for e in es):
                return es
    return None


# ------------------------------------------------------------------ DISCO
K_, HI_, WO_, HO_, RAT_, NNZ = SZ("ker", 1), SZ("hin", 1), SZ("wout", 1), SZ("hout", 1), SZ("lonratio", 1), SZ("nnz", 0)


def disco_args(fwd, dt, srt=True):
    wi = WO_ * RAT_
    sig = (K_, HO_, HI_, wi, NNZ, srt, "kernel")
    d = DT(dt)
    tab = lambda p, t: ten([NNZ], lambda n: Poly.atom(("fn", "def:psi", p) + sig + (n,)), t)
    x = O.mk_input("x", [B, S("chan")] + ([HI_, wi] if fwd else [K_, HO_, WO_]), d)
    roff = ten([Poly.atom(("fn", "def:psirows") + sig) + 1], lambda n: Poly.atom(("fn", "def:psiroff") + sig + (n,)), I64)
    return [x, roff] + [tab(p, I64) for p in ("ker", "row", "col")] + [tab("val", DT("float32") if dt in ("float16", "bfloat16") else d)] + ([K_, HO_, WO_] if fwd else [K_, HI_, wi])


def job_psi(dt):
    """preprocess_psi sorts a tensor precomputed row by row by kernel index and returns the row offsets"""
    nz = SZ("nnz", 1)
    srt = (K_, HO_, HI_, WO_ * RAT_, nz, True, "kernel")
    sig = srt[:5] + ("rows",) + srt[6:]
    parts = lambda g: [ten([nz], lambda n, p=p: Poly.atom(("fn", "def:psi", p) + g + (n,)), DT(dt) if p == "val" else I64) for p in ("ker", "row", "col", "val")]
    roff = ten([Poly.atom(("fn", "def:psirows") + srt) + 1], lambda n: Poly.atom(("fn", "def:psiroff") + srt + (n,)), I64)
    randint.START[0], randint.PTS[0] = 2, 12
    randint.PREFER.clear()
    randint.PREFER.update({"ker": (1, 3), "nnz": (1, 7), "hout": (1, 3), "hin": (1, 2), "wout": (1, 2), "lonratio": (1, 2)})
    return kernel("cpu-helper", "psi", "=preprocess_psi", "preprocess_psi, %s" % dt, [K_, HO_] + parts(sig), lambda it: tuple([roff] + parts(srt)), after=(2, 3, 4, 5))


def job_disco_kernel(fwd, dt):
    a = disco_args(fwd, dt)
    op = "forward" if fwd else "backward"
    randint.START[0], randint.PTS[0] = 1, 40
    return kernel("cpu-kernel", "disco_kernels", op, "disco %s, %s" % (op, dt), a, lambda it: MD.contraction(it, op, a, None))


# ------------------------------------------------------------------ attention
def job_attention_kernel(bwd, up, heads, which=None, dt="float32"):
    """heads: 1 (no head folding) or None (any number above 1); which: the gradient compared"""
    from checks import p08
    sig, wi, wo = p08.setup(up)
    CK, CV, HI, HO = p08.CK, p08.CV, p08.HI, p08.HO
    NH = P(1) if heads == 1 else SZ("nheads2", 2)
    d = DT(dt)
    randint.START[0], randint.PTS[0] = (3, 10) if bwd else (2, 60)
    randint.PREFER.clear()
    randint.PREFER.update({"batch": (1, 2), "nheads2": (2, 2), "ck": (1, 2), "cv": (1, 2), "wout": (2, 5), "win": (1, 3), "lonratio": (1, 3), "hin": (1, 2), "hout": (1, 3)})
    k, v, q, dy, w = [O.mk_input(n, s, t) for n, s, t in (("k", [B, HI, wi, CK * NH], d), ("v", [B, HI, wi, CV * NH], d), ("q", [B, HO, wo, CK * NH], d), ("dy", [B, HO, wo, CV * NH], d), ("quad", [HI], F32))]
    row, col, off = MA.nbr_tensors(sig)

    def fwd(it, k, v, q):
        return it.call(cls(it, "vspec.attention"), [k, v, q, w, row, col, NH, wi, HO, wo, up], {})

    def spec(it):
        if not bwd:
            return retype(fwd(it, k, v, q), d)
        return tuple(retype(g, d) for g in MA.gradients(it, lambda ins: fwd(it, *ins), [k, v, q], dy, (0, 1, 2), None))
    subj = "attention %s, %s, %s, %s" % ("backward" if bwd else "forward", "upsampling" if up else "gather", "one head" if heads == 1 else "several heads", dt)
    go = lambda n: kernel("cpu-kernel", "attention_kernels", "backward" if bwd else "forward", subj, [k, v, q] + ([dy] if bwd else []) + [w, col, off, NH, wi, HO, wo], spec, blocks={64: n}, only=which, large=True)
    out = go(2)             # the cache block of 64 longitudes is replaced by a small one, so that several blocks are visited at small sizes
    if any(o["status"] == "violation" for o in out):
        again = {(o["rule"], o["subject"]) for n in (3, 1) for o in go(n) if o["status"] == "violation"}
        for o in out:
            if o["status"] == "violation" and (o["rule"], o["subject"]) not in again:
                o["status"], o["detail"] = "undecided", "not confirmed with another block size"
    return out


def retype(t, d):
    return Ten(t.axes, t.expr, d, t.org)


def job_permute_kernel(op):
    x = O.mk_input("x", [B, S("d1"), S("d2"), S("d3")], F32)
    pm = (0, 2, 3, 1) if op.endswith("nhwc") else (0, 3, 1, 2)
    return kernel("cpu-kernel", "attention_kernels", op, op, [x], lambda it: it.call(it.getattr(x, "permute", None), [P(i) for i in pm], {}))


def disco_tasks():
    preload("disco_kernels")
    preload("psi")
    return [(job_psi, (dt,)) for dt in ("float32", "float64")] + [(job_disco_kernel, (fwd, dt)) for fwd in (False, True) for dt in ("float32", "float64", "bfloat16")]


def attention_tasks():
    preload("attention_kernels")
    t = [(job_attention_kernel, (True, up, h, w)) for up in (True, False) for h in (None, 1) for w in (0, 1, 2)]
    t += [(job_attention_kernel, (False, up, h)) for up in (True, False) for h in (None, 1)]
    return t + [(job_permute_kernel, (op,)) for op in ("permute_to_nhwc", "permute_to_nchw")]


def safety_tasks(tier="quick"):
    out = []
    for f, x in disco_tasks() + attention_tasks():
        if tier == "quick" and (f in (job_psi, job_disco_kernel) and x[-1] != "float32" or f is job_attention_kernel and x[2] == 1):
            continue
        out += [(tracked, (t, f) + x) for t in ("race", "oob") if not (t == "oob" and f is job_attention_kernel and x[0] and x[3])]
    return out
