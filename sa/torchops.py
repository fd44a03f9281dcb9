"""Transfer functions for library calls (torch, numpy, math, builtins, torch.distributed)."""
import ast
from fractions import Fraction
from . import terms as T
from .terms import Poly, P
from .values import *  # noqa
from .interp import RaiseEx, MISSING, GiveUp, Module

BUILTINS = {"len", "range", "min", "max", "sum", "abs", "int", "float", "bool", "str", "list", "tuple", "dict", "set", "zip", "enumerate", "isinstance", "divmod",
            "print", "getattr", "setattr", "hasattr", "reversed", "sorted", "any", "all", "map", "filter", "round", "type", "super", "property", "staticmethod", "classmethod",
            "NotImplementedError", "open", "callable", "iter", "next", "slice", "complex", "pow", "id", "object", "repr", "hash", "frozenset", "issubclass", "NotImplemented", "__file__"}

FRESH = frozenset([("fresh",)])


def fresh(axes, expr, dtype=UNK):
    return Ten(axes, expr, dtype, FRESH)


def tkey(t):
    """canonical hashable description of a tensor value (axes abstracted)"""
    if t.expr is None:
        return ("tensor?", t.id)
    return closure(t)


def closure(t):
    d = 1 + max([T.depth(t.expr)] + [T.depth(s) for s in t.shape])
    env = {a: Poly.atom(("bv", d, i)) for i, a in enumerate(t.axes)}
    return ("lam", tuple(t.shape), T.subst(t.expr, env), t.dtype.name)


def opq_ten(it, name, args, sizes, dtype, real=True):
    """element of an uninterpreted tensor-valued function of args"""
    ax = [T.new_axis(s) for s in sizes]
    nm = ("op", name) + tuple(it.keyof(a) for a in args)
    idx = tuple(Poly.atom(a) for a in ax)
    if dtype.name and dtype.name.startswith("complex"):
        e = Poly.atom(("T", nm + ("re",), idx)) + T.I * Poly.atom(("T", nm + ("im",), idx))
    else:
        e = Poly.atom(("T", nm, idx))
    return fresh(ax, e, dtype)


def gidx(a):
    """global index denoted by local axis a (a sharded axis addresses its own chunk)"""
    s = T.axsize(a)
    if len(s.t) == 1:
        (m, c), = s.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "split":
            _, S, n, i = m[0][0]
            return T.off(S, n, i) + Poly.atom(a)
    return Poly.atom(a)


def mk_input(name, sizes, dtype, org=None, glob=True):
    ax = [T.new_axis(s) for s in sizes]
    idx = tuple(gidx(a) if glob else Poly.atom(a) for a in ax)
    if dtype.name and dtype.name.startswith("complex"):
        e = Poly.atom(("T", name + ".re", idx)) + T.I * Poly.atom(("T", name + ".im", idx))
    else:
        e = Poly.atom(("T", name, idx))
    return Ten(ax, e, dtype, frozenset([("input", name)]) if org is None else org)


def name_param(it, obj, name, v):
    if v.meta.get("named"):
        return v
    pre = it.config.get("param_prefix", "")
    full = "param:" + pre + name
    r = mk_input(full, v.shape, v.dtype, frozenset([("param", name)]))
    v.axes, v.expr, v.org = r.axes, r.expr, r.org
    v.meta["named"] = True
    v.param = name
    return v


def callable_value(v):
    return isinstance(v, Fn) or isinstance(v, tuple) and len(v) > 1 and v[0] in ("partial", "bound", "memo")


def retag(v, tag):
    if isinstance(v, Ten):
        r = Ten(v.axes, v.expr, v.dtype, frozenset([tag]), v.param)
        r.meta = dict(v.meta)
        return r
    if isinstance(v, tuple):
        return tuple(retag(x, tag) for x in v)
    if isinstance(v, L):
        r = L([retag(x, tag) for x in v.items])
        r.fam = v.fam
        return r
    if isinstance(v, dict):
        return {k: retag(x, tag) for k, x in v.items()}
    return v


# ---------------------------------------------------------------- broadcasting
def is_one(s):
    return s.intval() == 1


def broadcast(it, ts, node=None, what="broadcast"):
    """unify axes of tensors (Poly scalars allowed); returns axes, [expr]"""
    n = max([len(t.axes) for t in ts if isinstance(t, Ten)] + [0])
    axes = [None] * n
    envs = [dict() for _ in ts]
    for pos in range(1, n + 1):
        cands = []
        for k, t in enumerate(ts):
            if isinstance(t, Ten) and len(t.axes) >= pos:
                cands.append((k, t.axes[-pos]))
        rep = None
        for k, a in cands:
            if not is_one(T.axsize(a)):
                rep = a
                break
        if rep is None:
            rep = cands[0][1]
        for k, a in cands:
            if a == rep:
                continue
            sa, sr = T.axsize(a), T.axsize(rep)
            if is_one(sa):
                envs[k][a] = T.ZERO
            else:
                if not it.same(sa, sr):
                    size_mismatch(it, "%s of dimension -%d: %s vs %s" % (what, pos, T.show(sa), T.show(sr)), sa, sr, node)
                envs[k][a] = Poly.atom(rep)
        axes[-pos] = rep
    # fresh axes for the result, so that operands stay independent
    out = []
    ren = {}
    for a in axes:
        na = T.new_axis(T.axsize(a))
        ren[a] = Poly.atom(na)
        out.append(na)
    exprs = []
    for k, t in enumerate(ts):
        if isinstance(t, Ten):
            if t.expr is None:
                exprs.append(None)
                continue
            env = {}
            for a in t.axes:
                q = envs[k].get(a, Poly.atom(a))
                ax = T.is_axis(q)
                env[a] = ren[ax] if ax is not None and ax in ren else q
            exprs.append(T.subst(t.expr, env))
        else:
            exprs.append(t)
    return out, exprs


def size_mismatch(it, msg, a, b, node):
    from .compare import path_conds
    from .randint import distinguish, Unknown
    if understood(a) and understood(b):
        axes = sorted(v for v in (T.freevars(a) | T.freevars(b)) if v[0] in ("ax", "fi"))
        try:
            d = distinguish(a, b, axes, path_conds(it))
        except Unknown as e:
            it.undecided.append(("%s (%s)" % (msg, e), it.loc(node)))
            return
        if d is not None:
            it.event("size", "%s; e.g. %s" % (msg, d), node)
    else:
        it.undecided.append((msg, it.loc(node)))


OPQ_SYMS = ("cnt", "len", "unk")


def understood(p):
    """no atoms that stand for something the analysis did not model"""
    for m in p.t:
        for a, _ in m:
            if a[0] == "sym" and isinstance(a[1], str) and a[1].startswith(OPQ_SYMS):
                return False
            if a[0] in ("opqnum",):
                return False
            for x in a[1:]:
                if isinstance(x, Poly) and not understood(x):
                    return False
    return True


def as_num(v):
    return isinstance(v, Poly)


INTFN = ("def:nbr", "def:nbroff", "def:nbrnnz", "floordiv", "int")


def pydtype(v):
    if isinstance(v, Poly):
        if any(a == T.I_ATOM for m in v.t for a, _ in m):
            return DT("complex64")
        c = v.constval()
        if c is not None and c.denominator == 1:
            return DT("int64")
        if v.is_const():
            return DT("float32")
        return DT("int64") if all(c.denominator == 1 for c in v.t.values()) and not any(a[0] in ("pi", "fn", "inv") and not (a[0] == "fn" and a[1] in INTFN) for m in v.t for a, _ in m) else DT("float32")
    if isinstance(v, bool):
        return DT("bool")
    return UNK


def binop(it, op, a, b, node):
    k = type(op).__name__
    if isinstance(a, bool) and isinstance(b, (Poly, Ten)):
        a = P(int(a))
    if isinstance(b, bool) and isinstance(a, (Poly, Ten)):
        b = P(int(b))
    if isinstance(a, Cond) and isinstance(b, (Poly, Cond)) or isinstance(b, Cond) and isinstance(a, Poly):
        return Poly.atom(("fn", "condarith", k, it.keyof(a), it.keyof(b)))
    if isinstance(a, Poly) and isinstance(b, Poly):
        return num_binop(it, k, a, b, node)
    if isinstance(a, str) and isinstance(b, str) and k == "Add":
        return a + b
    if isinstance(a, str):
        return "{?}"
    la, lb = isinstance(a, (L, tuple)), isinstance(b, (L, tuple))
    if k == "Add" and la and lb:
        x, y = it.iterate(a), it.iterate(b)
        if isinstance(x, list) and isinstance(y, list):
            return L(x + y) if isinstance(a, L) else tuple(x + y)
        return concat_fam(it, x, y)
    if k == "Mult" and (la and isinstance(b, Poly) or lb and isinstance(a, Poly)):
        seq, n = (a, b) if la else (b, a)
        x = it.iterate(seq)
        c = n.intval()
        if isinstance(x, list) and c is not None:
            return L(x * max(c, 0)) if isinstance(seq, L) else tuple(x * max(c, 0))
        if isinstance(x, list) and len(x) == 1:
            l = L([])
            l.fam = Fam(n, new_fi(n), x[0])
            return l
        return Top("list repetition")
    if isinstance(a, Ten) or isinstance(b, Ten):
        if not isinstance(a, (Ten, Poly)) or not isinstance(b, (Ten, Poly)):
            return Top("tensor arithmetic with unknown")
        nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Pow": "pow", "MatMult": "matmul", "FloorDiv": "floordiv", "Mod": "remainder"}.get(k)
        if nm == "matmul":
            return matmul(it, a, b, node)
        if nm is None:
            return ewise(it, "bin_" + k, [a, b], promote_vals(a, b))
        return binary(it, nm, a, b, node)
    return Top("binop %s" % k)


def concat_fam(it, x, y):
    f = Top("list concatenation")
    l = L([])
    nx = P(len(x)) if isinstance(x, list) else (x.n if isinstance(x, Fam) else None)
    ny = P(len(y)) if isinstance(y, list) else (y.n if isinstance(y, Fam) else None)
    if nx is None or ny is None:
        return f
    fi = new_fi(nx + ny)
    i = Poly.atom(fi)
    el = Top("concatenated list")

    def at(z, k):
        if isinstance(z, Fam) and isinstance(z.elem, Poly):
            return T.subst(z.elem, {z.idx: k})
        if isinstance(z, list) and all(isinstance(e, Poly) for e in z):
            r = T.ZERO
            for j, e in enumerate(z):
                r = r + T.delta(k - j) * e
            return r
        return None
    ex, ey = at(x, i), at(y, i - nx)
    if isinstance(x, list) and isinstance(y, Fam) and ey is not None and x and all(isinstance(e, Poly) and it.simplify(T.subst(ey, {fi: P(j)})) == it.simplify(e) for j, e in enumerate(x)):
        l.fam = Fam(nx + ny, fi, ey)        # the prefix continues the family
        return l
    if ex is not None and ey is not None:
        el = T.ind(i, T.ZERO, nx) * ex + T.ind(i, nx, nx + ny) * ey
    l.fam = Fam(nx + ny, fi, el)
    l.fam.parts = (x, y)
    return l


def num_binop(it, k, a, b, node=None):
    if k == "Add":
        return a + b
    if k == "Sub":
        return a - b
    if k == "Mult":
        return a * b
    if k == "Div":
        return a * T.inv(b)
    if k == "FloorDiv":
        if b.constval() == 0:
            raise RaiseEx("ZeroDivisionError")
        return T.fdiv(it.simplify(a), it.simplify(b))
    if k == "Mod":
        if b.constval() == 0:
            raise RaiseEx("ZeroDivisionError")
        a2 = it.simplify(a)
        return rank_mod(it, a2, b)
    if k == "Pow":
        e = b.intval()
        if e is not None and 0 <= e <= 8:
            return a.pow(e)
        if e is not None and -8 <= e < 0:
            return T.inv(a.pow(-e))
        return Poly.atom(("fn", "pow", a, b))
    if k in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
        x, y = a.intval(), b.intval()
        if x is not None and y is not None:
            return P({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "LShift": x << y if y < 64 else 0, "RShift": x >> y if y >= 0 else 0}[k])
        return Poly.atom(("fn", k, a, b))
    return Poly.atom(("fn", k, a, b))


def rank_mod(it, a, q):
    """(rank + c) mod size, canonical"""
    r = T.mod(a, q)
    if len(r.t) == 1:
        (m, c), = r.t.items()
        if c == 1 and len(m) == 1 and m[0][0][0] == "mod":
            inner, qq = m[0][0][1], m[0][0][2]
            # strip inner multiples: mod(mod(x,q)+y,q) = mod(x+y,q)
            z = T.ZERO
            changed = False
            for mm, cc in inner.t.items():
                if len(mm) == 1 and mm[0][1] == 1 and mm[0][0][0] == "mod" and mm[0][0][2] == qq and cc.denominator == 1:
                    z = z + Poly.const(cc) * mm[0][0][1]
                    changed = True
                else:
                    z = z + Poly({mm: cc})
            if changed:
                return rank_mod(it, z, qq)
    return r


def promote_vals(a, b):
    da = a.dtype if isinstance(a, Ten) else pydtype(a)
    db = b.dtype if isinstance(b, Ten) else pydtype(b)
    return promote(da, db, not isinstance(a, Ten) or (isinstance(b, Ten) and not a.axes and bool(b.axes)), not isinstance(b, Ten) or (isinstance(a, Ten) and not b.axes and bool(a.axes)))


def binary(it, nm, a, b, node=None):
    dt = promote_vals(a, b)
    axes, (x, y) = broadcast(it, [a, b], node, "operands of %s" % nm)
    if x is None or y is None:
        return fresh(axes, None, dt)
    if nm == "add":
        e = x + y
    elif nm == "sub":
        e = x - y
    elif nm == "mul":
        e = x * y
    elif nm in ("div", "true_divide"):
        e = x * T.inv(y)
        if dt.name and DType.INFO[dt.name][0] < 2:
            dt = DT("float32")
    elif nm == "pow":
        k = y.intval()
        if k is not None and 0 <= k <= 6:
            e = x.pow(k)
        elif k is not None and -6 <= k < 0:
            e = T.inv(x.pow(-k))
        else:
            e = Poly.atom(("fn", "pow", x, y))
    elif nm == "floordiv":
        e = T.fdiv(x, y)
    elif nm == "remainder":
        e = T.mod(x, y)
    else:
        e = Poly.atom(("fn", nm, x, y))
    return fresh(axes, e, dt)


def cplx(e, dt, nm, args):
    if dt.name and dt.name.startswith("complex"):
        return Poly.atom(("fn", "re:" + nm) + tuple(args)) + T.I * Poly.atom(("fn", "im:" + nm) + tuple(args))
    return Poly.atom(("fn", nm) + tuple(args))


def ewise(it, nm, args, dt=UNK, extra=()):
    ts = [a if isinstance(a, (Ten, Poly)) else None for a in args]
    if any(t is None for t in ts):
        return Top("elementwise %s of unknown" % nm)
    if not any(isinstance(t, Ten) for t in ts):
        return Poly.atom(("fn", nm) + tuple(ts) + tuple(extra))
    axes, ex = broadcast(it, ts, None, nm)
    if any(e is None for e in ex):
        return fresh(axes, None, dt)
    return fresh(axes, cplx(None, dt, nm, tuple(ex) + tuple(extra)), dt)


# ---------------------------------------------------------------- dims helpers
def dimof(it, t, d, node=None, extra=0):
    n = len(t.axes) + extra
    k = d.intval() if isinstance(d, Poly) else None
    if k is None:
        return None
    if k < -n or k >= n:
        it.event("dim", "dimension %d out of range for a tensor with %d dimensions" % (k, n), node)
        return None
    return k % n


def permute(t, order):
    r = Ten([t.axes[i] for i in order], t.expr, t.dtype, t.org)
    return r


def view_like(t, axes, expr):
    return Ten(axes, expr, t.dtype, t.org)


def shape_args(it, args):
    if len(args) == 1 and isinstance(args[0], (L, tuple, Fam)):
        x = it.iterate(args[0])
    else:
        x = list(args)
    if isinstance(x, list):
        x = [s.expr if isinstance(s, Ten) and not s.axes and s.expr is not None and s.dtype.name and "int" in s.dtype.name else s for s in x]
        if all(isinstance(s, Poly) for s in x):
            return x
    return None


def reshape(it, t, new, node=None):
    if new is None:
        return Top("reshape to unknown shape")
    old = t.shape
    new = list(new)
    neg = [i for i, s in enumerate(new) if s.constval() == -1]
    tot = T.ONE
    for s in old:
        tot = tot * s
    if neg:
        rest = tot
        for i, s in enumerate(new):
            if i in neg:
                continue
            q = T.divide_exact(rest, s)
            if q is None:
                q = None
                break
            rest = q
        if q is None if len(new) > 1 else False:
            new[neg[0]] = Poly.atom(("sym", "unk%d" % next(T._counter)))
            return fresh([T.new_axis(s) for s in new], None, t.dtype)
        new[neg[0]] = rest
    else:
        tn = T.ONE
        for s in new:
            tn = tn * s
        if not it.same(tn, tot):
            size_mismatch(it, "reshape of %s elements to %s" % (T.show(tot), T.show(tn)), tot, tn, node)
            r = fresh([T.new_axis(s) for s in new], None, t.dtype)
            r.org = t.org
            return r
    i = j = 0
    nax = [T.new_axis(s) for s in new]
    env = {}
    ok = True
    while i < len(old) or j < len(new):
        if i < len(old) and is_one(old[i]) and not (j < len(new) and is_one(new[j])):
            env[t.axes[i]] = T.ZERO
            i += 1
            continue
        if j < len(new) and is_one(new[j]) and not (i < len(old) and is_one(old[i])):
            j += 1
            continue
        if i >= len(old) or j >= len(new):
            ok = False
            break
        gi, gj = [i], [j]
        po, pn = old[i], new[j]
        i += 1
        j += 1
        while not it.same(po, pn):
            if i < len(old) and T.divide_exact(pn, po) is not None:
                po = po * old[i]
                gi.append(i)
                i += 1
            elif j < len(new) and T.divide_exact(po, pn) is not None:
                pn = pn * new[j]
                gj.append(j)
                j += 1
            else:
                ok = False
                break
        if not ok:
            break
        if len(gi) == 1 and len(gj) == 1:
            env[t.axes[gi[0]]] = Poly.atom(nax[gj[0]])
            continue
        lin = T.ZERO
        for q in gj:
            lin = lin * new[q] + Poly.atom(nax[q])
        rem = lin
        for q in reversed(gi):
            if q == gi[0]:
                env[t.axes[q]] = rem
            else:
                env[t.axes[q]] = T.mod(rem, old[q])
                rem = T.fdiv(rem, old[q])
    if not ok:
        r = fresh(nax, None, t.dtype)
    else:
        r = fresh(nax, T.subst(t.expr, env) if t.expr is not None else None, t.dtype)
    r.org = t.org
    return r


def may_be_one(it, n, node):
    """a squeezed dimension of unknown size: both cases are followed"""
    import ast
    if is_one(n):
        return True
    if it is None or not understood(n) or T.nonneg(n - 2) or not T.nonneg(n - 1) and not is_count(n):
        return False
    c = it.compare(ast.Eq(), n, P(1))
    return it.decide(c, node)


def is_count(n):
    return len(n.t) == 1 and all(len(m) == 1 and m[0][0][0] == "T" and isinstance(m[0][0][1], tuple) and m[0][0][1][0] == "argw" for m in n.t)


EXCEED = {}


def may_exceed(it, b, S):
    """can b be larger than S on the current path? (True only with sizes that show it)"""
    if T.nonneg(S - b) or not understood(b) or not understood(S):
        return False
    from .compare import path_conds
    from . import randint
    conds = path_conds(it)
    key = (b, S, repr(conds))
    if key not in EXCEED:
        axes = sorted(v for v in (T.freevars(b) | T.freevars(S)) if v[0] in ("ax", "fi"))
        try:
            r = randint.out_of_range(b - 1, axes, S, conds, trials=3, pts=20)
            EXCEED[key] = isinstance(r, tuple) and r[2] >= r[3] - 1e-9
        except (randint.Unknown, randint.Undef, RecursionError):
            EXCEED[key] = False
    return EXCEED[key]


def norm_slice(it, s, S, node=None):
    """start, length, step of a slice over size S, or None"""
    def fix(v, default):
        if v is None:
            return default
        if not isinstance(v, Poly):
            return None
        c = v.constval()
        if c is not None:
            return S + v if c < 0 else v
        sg = T.sign(v)
        if sg == -1:
            return S + v
        return v
    step = s.step.intval() if isinstance(s.step, Poly) else (1 if s.step is None else None)
    if step is None and isinstance(s.step, Poly) and T.sign(s.step) in (None, 1):
        step = s.step              # a step that is not positive is an error
    elif step is None or step <= 0:
        return None
    a, b = fix(s.start, T.ZERO), fix(s.stop, S)
    if a is None or b is None:
        return None
    # clamp constants
    if s.stop is not None and T.nonneg(b - S):
        b = S
    elif s.stop is not None and it is not None and b != S and may_exceed(it, b, S):
        b = T.pmin(b, S)
    ln = b - a
    if step != 1:
        ln = T.fdiv(ln + (step - 1), P(step))
    return a, ln, step


def as_ints(idx):
    """0-d integer tensors select like integers; so do the bounds of a slice"""
    f = lambda i: i.expr if isinstance(i, Ten) and not i.axes and i.expr is not None and i.dtype.name and "int" in i.dtype.name else i
    return tuple(slice(f(i.start), f(i.stop), f(i.step)) if isinstance(i, slice) else f(i) for i in idx)


def index(it, t, idx, node=None):
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = as_ints(idx)
    if isinstance(t, Top):
        return t
    n_real = sum(1 for i in idx if i is not None and i is not Ellipsis)
    if any(isinstance(i, Top) or isinstance(i, Cond) for i in idx):
        return Top("index with unknown")
    for i in idx:
        if isinstance(i, (L, Fam)):
            return adv_index(it, t, idx, node)
        if isinstance(i, Ten):
            return adv_index(it, t, idx, node)
    if n_real > len(t.axes):
        it.event("dim", "too many indices (%d) for a tensor with %d dimensions" % (n_real, len(t.axes)), node)
        return Top("too many indices")
    out = []
    env = {}
    ell = [k for k, i in enumerate(idx) if i is Ellipsis]
    if ell:
        k = ell[0]
        idx = list(idx[:k]) + [slice(None)] * (len(t.axes) - n_real) + list(idx[k + 1:])
    else:
        idx = list(idx) + [slice(None)] * (len(t.axes) - n_real)
    p = 0
    for i in idx:
        if i is None:
            out.append(T.new_axis(1))
            continue
        if isinstance(i, bool):
            return Top("boolean index")
        a = t.axes[p]
        S = T.axsize(a)
        p += 1
        if isinstance(i, Poly):
            c = i.constval()
            if c is not None and c < 0:
                i = S + i
            cs = S.intval()
            if c is not None and cs is not None and not (-cs <= c < cs):
                it.event("index", "index %s out of range for size %s" % (c, cs), node)
            elif cs is None or c is None:
                it.use_index(i, [], S, node)
            env[a] = i
        elif isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                out.append(a)
                continue
            r = norm_slice(it, i, S, node)
            if r is None:
                return Top("unsupported slice")
            st, ln, step = r
            if it.same(ln, S) and step == 1 and not st.t:
                out.append(a)
                continue
            na = T.new_axis(ln)
            env[a] = st + step * Poly.atom(na)
            out.append(na)
        else:
            return Top("index kind")
    return view_like(t, out, T.subst(t.expr, env) if t.expr is not None else None)


def rlam(axes, e):
    """e as a function of the given free axes"""
    d = 1 + max([T.depth(e)] + [T.depth(T.axsize(a)) for a in axes])
    return ("rlam", d, len(axes), T.subst(e, {a: Poly.atom(("bv", d, i)) for i, a in enumerate(axes)}))


def argwhere(it, t):
    """positions of the true elements, in lexicographic order"""
    if not isinstance(t, Ten) or t.expr is None:
        return Top("argwhere")
    nm = ("argw", tuple(t.shape), rlam(t.axes, t.expr))
    n = Poly.atom(("T", nm + ("count",), ()))
    a, j = T.new_axis(n), T.new_axis(P(len(t.axes)))
    e = T.ZERO
    for k in range(len(t.axes)):
        e = e + T.delta(Poly.atom(j) - k) * Poly.atom(("T", nm + (k,), (Poly.atom(a),)))
    return fresh([a, j], e, DT("int64"))


def scatter_add(it, t, dim, index, src, node, inplace):
    """t[index[n]] += src[n] along dim"""
    if not (isinstance(t, Ten) and isinstance(index, Ten) and isinstance(src, Ten)):
        return Top("scatter_add")
    k = dimof(it, t, dim, node)
    e = None
    if k is not None and t.expr is not None and index.expr is not None and src.expr is not None and len(index.axes) == len(t.axes) == len(src.axes):
        n = T.new_axis(T.axsize(index.axes[k]))
        env = [Poly.atom(a) for a in t.axes]
        at = lambda v: T.subst(v.expr, {a: (Poly.atom(n) if i == k else env[i]) for i, a in enumerate(v.axes)})
        e = t.expr + T.sum_over(T.delta(at(index) - env[k]) * at(src), [n])
    if inplace:
        it.mutate(t, node, "scatter_add_")
        t.expr = e
        return t
    return fresh(list(t.axes), e, t.dtype)


def index_add(it, t, dim, index, src, alpha, node, inplace):
    if not (isinstance(t, Ten) and isinstance(index, Ten) and isinstance(src, Ten)):
        return Top("index_add")
    k = dimof(it, t, dim, node)
    e = None
    if k is not None and t.expr is not None and index.expr is not None and src.expr is not None and len(index.axes) == 1 and len(t.axes) == len(src.axes):
        n = T.new_axis(T.axsize(index.axes[0]))
        env = [Poly.atom(a) for a in t.axes]
        s = T.subst(src.expr, {a: (Poly.atom(n) if i == k else env[i]) for i, a in enumerate(src.axes)})
        e = t.expr + T.sum_over(T.delta(T.subst(index.expr, {index.axes[0]: Poly.atom(n)}) - env[k]) * s, [n]) * (alpha if isinstance(alpha, Poly) else T.ONE)
    if inplace:
        it.mutate(t, node, "index_add_")
        t.expr = e
        return t
    return fresh(list(t.axes), e, t.dtype)


def multi_index(it, t, idx, node):
    """several integer-tensor indices (broadcast together), ints and full slices"""
    pos = [k for k, i in enumerate(idx) if isinstance(i, (Ten, Poly))]
    tens = [idx[k] for k in pos if isinstance(idx[k], Ten)]
    adjacent = pos == list(range(pos[0], pos[-1] + 1))
    rank = max(len(x.axes) for x in tens)
    sizes = [None] * rank
    for x in tens:
        for r, s in enumerate(reversed(x.shape)):
            q = rank - 1 - r
            if sizes[q] is None or is_one(sizes[q]):
                sizes[q] = s
            elif not is_one(s) and not it.same(sizes[q], s):
                size_mismatch(it, "index tensors of sizes %s and %s" % (T.show(sizes[q]), T.show(s)), sizes[q], s, node)
                return Top("index mismatch")
    nax = [T.new_axis(s) for s in sizes]
    out, env, known = [], {}, t.expr is not None
    placed = False
    if not adjacent:
        out += nax
        placed = True
    for a, i in zip(t.axes, idx):
        if isinstance(i, Ten):
            if not placed:
                out += nax
                placed = True
            if i.expr is None:
                known = False
                continue
            e = {}
            for r, b in enumerate(reversed(i.axes)):
                e[b] = T.ZERO if is_one(T.axsize(b)) else Poly.atom(nax[rank - 1 - r])
            v = T.subst(i.expr, e)
            it.use_index(i.expr, i.axes, T.axsize(a), node)
            c = v.constval()
            env[a] = T.axsize(a) + v if c is not None and c < 0 else v
        elif isinstance(i, Poly):
            if not placed:
                out += nax
                placed = True
            c = i.constval()
            env[a] = T.axsize(a) + i if c is not None and c < 0 else i
        elif i.start is None and i.stop is None and i.step is None:
            out.append(a)
        else:
            r = norm_slice(it, i, T.axsize(a), node)
            if r is None:
                return Top("slice")
            na = T.new_axis(r[1])
            env[a] = r[0] + r[2] * Poly.atom(na)
            out.append(na)
    return fresh(out, T.subst(t.expr, env) if known else None, t.dtype)


def adv_index(it, t, idx, node=None):
    """one integer-tensor index (others full slices / ints): gather"""
    n_real = sum(1 for i in idx if i is not None and i is not Ellipsis)
    ell = [k for k, i in enumerate(idx) if i is Ellipsis]
    if ell:
        k = ell[0]
        idx = list(idx[:k]) + [slice(None)] * (len(t.axes) - n_real) + list(idx[k + 1:])
    else:
        idx = list(idx) + [slice(None)] * (len(t.axes) - n_real)
    tens = [i for i in idx if isinstance(i, Ten)]
    if len(tens) == 1 and all(isinstance(i, (Ten, slice)) for i in idx) and tens[0].dtype.name != "bool" and len(idx) == len(t.axes):
        out, env = [], {}
        for a, i in zip(t.axes, idx):
            if isinstance(i, Ten):
                nax = [T.new_axis(s) for s in i.shape]
                out += nax
                if i.expr is None:
                    return fresh_unknown(it, [T.axsize(o) for o in out], t.dtype)
                env[a] = T.subst(i.expr, {o: Poly.atom(n) for o, n in zip(i.axes, nax)})
                it.use_index(i.expr, i.axes, T.axsize(a), node)
            else:
                if i.start is None and i.stop is None and i.step is None:
                    out.append(a)
                else:
                    r = norm_slice(it, i, T.axsize(a), node)
                    if r is None:
                        return Top("slice")
                    na = T.new_axis(r[1])
                    env[a] = r[0] + r[2] * Poly.atom(na)
                    out.append(na)
        return fresh(out, T.subst(t.expr, env) if t.expr is not None else None, t.dtype)
    if len(tens) >= 1 and all(isinstance(i, (Ten, slice, Poly)) for i in idx) and all(i.dtype.name != "bool" for i in tens) and len(idx) == len(t.axes):
        return multi_index(it, t, idx, node)
    if len(tens) == 1 and tens[0].dtype.name == "bool" and idx and idx[0] is tens[0] and all(isinstance(i, slice) and i == slice(None) for i in idx[1:]) and len(tens[0].axes) <= len(t.axes):
        m = tens[0]
        if all(it.same(T.axsize(a), T.axsize(b)) for a, b in zip(m.axes, t.axes)):
            w = argwhere(it, m)
            if isinstance(w, Ten):
                nd = len(m.axes)
                cols = [index(it, w, (slice(None), P(j)), node) for j in range(nd)]
                return multi_index(it, t, cols + [slice(None)] * (len(t.axes) - nd), node)
    return Top("advanced index")


def fresh_unknown(it, sizes, dt):
    return fresh([T.new_axis(s) for s in sizes], None, dt)


def store(it, t, idx, v, node=None):
    """t[idx] = v"""
    if t.expr is None:
        return
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = as_ints(idx)
    if isinstance(v, bool):
        v = P(int(v))
    n_real = sum(1 for i in idx if i is not None and i is not Ellipsis)
    ell = [k for k, i in enumerate(idx) if i is Ellipsis]
    if any(not (isinstance(i, (Poly, slice)) or i is Ellipsis) for i in idx) or n_real > len(t.axes) or not isinstance(v, (Poly, Ten)):
        t.expr = Poly.atom(("T", ("op", "store", it.keyof(t), tuple(it.keyof(i) for i in idx), it.keyof(v)), tuple(Poly.atom(a) for a in t.axes)))
        return
    if ell:
        k = ell[0]
        idx = list(idx[:k]) + [slice(None)] * (len(t.axes) - n_real) + list(idx[k + 1:])
    else:
        idx = list(idx) + [slice(None)] * (len(t.axes) - n_real)
    mask = T.ONE
    rel = []            # (axis of t, relative index expression, size) for the slots of v
    for a, i in zip(t.axes, idx):
        S = T.axsize(a)
        if isinstance(i, Poly):
            c = i.constval()
            if c is not None and c < 0:
                i = S + i
            mask = mask * T.delta(Poly.atom(a) - i)
        else:
            r = norm_slice(it, i, S)
            if r is None:
                t.expr = None
                return
            st, ln, step = r
            if step != 1:
                mask = mask * T.ind(Poly.atom(a), st, st + step * ln) * T.delta(T.mod(Poly.atom(a) - st, P(step)))
                rel.append((a, T.fdiv(Poly.atom(a) - st, P(step)), ln))
                continue
            if not (it.same(ln, S) and not st.t):
                mask = mask * T.ind(Poly.atom(a), st, st + ln)
            rel.append((a, Poly.atom(a) - st, ln))
    if isinstance(v, Ten):
        if v.expr is None:
            t.expr = None
            return
        if len(v.axes) > len(rel):
            it.event("dim", "assigning a %d-dimensional value to a %d-dimensional slot" % (len(v.axes), len(rel)), node)
            t.expr = None
            return
        env = {}
        for va, (a, e, ln) in zip(reversed(v.axes), reversed(rel)):
            sv = T.axsize(va)
            if is_one(sv):
                env[va] = T.ZERO
            else:
                if not it.same(sv, ln):
                    size_mismatch(it, "assignment of size %s into a slot of size %s" % (T.show(sv), T.show(ln)), sv, ln, node)
                env[va] = e
        val = T.subst(v.expr, env)
    else:
        val = v
    t.expr = t.expr * (T.ONE - mask) + mask * val


def fam_index(it, fam, i, node=None):
    if isinstance(i, Poly):
        c = i.constval()
        if c is not None and c < 0:
            i = fam.n + i
        r = subst_value(fam.elem, {fam.idx: it.simplify(i)})
        return r
    if isinstance(i, slice):
        if i.start is None and i.stop is None and i.step is None:
            return fam
        if i.step is None and (i.start is None) and isinstance(i.stop, Poly):
            st = i.stop
            if st.constval() is not None and st.constval() < 0:
                st = fam.n + st
            fi = new_fi(st)
            return Fam(st, fi, subst_value(fam.elem, {fam.idx: Poly.atom(fi)}))
        if i.step is None and isinstance(i.start, Poly) and i.stop is None:
            fi = new_fi(fam.n - i.start)
            return Fam(fam.n - i.start, fi, subst_value(fam.elem, {fam.idx: Poly.atom(fi) + i.start}))
    return Top("family slice")


def accumulate(it, args, kw, node):
    """itertools.accumulate(xs) (running sums)"""
    if len(args) != 1 or [k for k in kw if k != "initial"]:
        return Top("accumulate")
    x = it.iterate(args[0])
    init = kw.get("initial")
    if isinstance(x, list):
        out = [] if init is None else [init]
        for v in x:
            out.append(v if not out else binop_values(it, out[-1], v, node))
        return L(out)
    if not isinstance(x, Fam) or not isinstance(x.elem, Poly):
        return Top("accumulate")
    fi = new_fi(x.n)
    i = Poly.atom(fi)
    e = None
    if len(x.elem.t) == 1:
        (m, c), = x.elem.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "split" and m[0][0][3] == Poly.atom(x.idx):
            e = T.off(m[0][0][1], m[0][0][2], i + 1)
    if e is None:
        j = T.new_axis(i + 1)
        e = T.sum_over(T.subst(x.elem, {x.idx: Poly.atom(j)}), [j])
    l = L([])
    l.fam = Fam(x.n, fi, e)
    return l if init is None else concat_fam(it, [init], l.fam)


def binop_values(it, a, b, node):
    import ast
    return it.binop(ast.Add(), a, b, node)


def fam_store(it, lst, i, v):
    """lst[i] = v for a family: keeps the family if v is what the element already was"""
    fam = lst.fam
    if isinstance(i, Poly) and isinstance(v, Ten) and isinstance(fam.elem, Ten):
        return
    fam.elem = Top("family store")


def fsum(it, fam):
    """sum of a numeric family"""
    e = fam.elem
    if isinstance(e, Poly):
        if len(e.t) == 1:
            (m, c), = e.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "split":
                _, S, n, i = m[0][0]
                if i == Poly.atom(fam.idx):
                    if fam.n == n:
                        return S
                    return T.off(S, n, fam.n)
        T.AXSIZE[fam.idx[1]] = fam.n
        return T.sum_over(e, [fam.idx])
    return Top("sum of family")


# ---------------------------------------------------------------- structural ops
def cat(it, ts, d, node=None):
    x = it.iterate(ts)
    if isinstance(x, Fam):
        e = x.elem
        if not isinstance(e, Ten):
            return Top("cat of unknown")
        k = dimof(it, e, d, node)
        if k is None:
            return Top("cat dim")
        a = e.axes[k]
        s = T.axsize(a)
        for j, b in enumerate(e.axes):
            if j != k and x.idx in T.freevars(T.axsize(b)):
                size_mismatch(it, "cat along dimension %d: size %s of dimension %d differs between the pieces" % (k, T.show(T.axsize(b)), j), T.axsize(b), T.ZERO, node)
                return Top("cat mismatch")
        if len(s.t) == 1:
            (m, c), = s.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "split":
                _, S, n, i = m[0][0]
                if i == Poly.atom(x.idx) and it.same(n, x.n):
                    B = T.new_axis(S)
                    ex = None
                    if e.expr is not None:
                        ex = T.subst(e.expr, {a: Poly.atom(B) - T.off(S, n, i)})
                        if x.idx in T.freevars(ex):
                            ex = it.simplify(T.subst(it.simplify(e.expr), {a: Poly.atom(B) - it.simplify(T.off(S, n, i))}))
                        if x.idx in T.freevars(ex):
                            # depends on the piece itself: the piece that owns position B
                            ex = T.subst(e.expr, {a: Poly.atom(B) - T.off(S, n, i)})
                            ex = it.simplify(T.subst(ex, {x.idx: Poly.atom(("own", S, n, Poly.atom(B)))}))
                    return fresh(e.axes[:k] + [B] + e.axes[k + 1:], ex, e.dtype)
        if x.idx not in T.freevars(s):
            # equal pieces
            B = T.new_axis(s * x.n)
            ex = None
            if e.expr is not None:
                ex = T.subst(e.expr, {a: T.mod(Poly.atom(B), s), x.idx: T.fdiv(Poly.atom(B), s)})
            return fresh(e.axes[:k] + [B] + e.axes[k + 1:], ex, e.dtype)
        B = T.new_axis(fsum(it, Fam(x.n, x.idx, s)) if isinstance(fsum(it, Fam(x.n, x.idx, s)), Poly) else T.sym("unk%d" % next(T._counter)))
        ex = None
        if e.expr is not None:
            T.AXSIZE[x.idx[1]] = x.n
            nm = ("fcat", x.n, rlam([x.idx], s), rlam([x.idx] + list(e.axes), e.expr), k)
            ax = tuple(Poly.atom(q) for q in e.axes[:k] + [B] + e.axes[k + 1:])
            if e.dtype.name and e.dtype.name.startswith("complex"):
                ex = Poly.atom(("T", nm + ("re",), ax)) + T.I * Poly.atom(("T", nm + ("im",), ax))
            else:
                ex = Poly.atom(("T", nm, ax))
        return fresh(e.axes[:k] + [B] + e.axes[k + 1:], ex, e.dtype)
    if not isinstance(x, list) or not x or not all(isinstance(t, Ten) for t in x):
        return Top("cat of unknown")
    if len(x) == 1:
        return fresh(x[0].axes, x[0].expr, x[0].dtype)
    k = dimof(it, x[0], d, node)
    if k is None:
        return Top("cat dim")
    n = len(x[0].axes)
    tot = T.ZERO
    base = [T.new_axis(s) for s in x[0].shape]
    dt = x[0].dtype
    for t in x[1:]:
        dt = promote(dt, t.dtype)
        if len(t.axes) != n:
            it.event("dim", "cat of tensors with %d and %d dimensions" % (n, len(t.axes)), node)
            return Top("cat rank")
    offs = []
    for t in x:
        offs.append(tot)
        tot = tot + T.axsize(t.axes[k])
    B = T.new_axis(tot)
    base[k] = B
    ex = T.ZERO
    for t, o in zip(x, offs):
        env = {}
        for j, a in enumerate(t.axes):
            if j == k:
                env[a] = Poly.atom(B) - o
            else:
                if not it.same(T.axsize(a), T.axsize(base[j])):
                    size_mismatch(it, "cat along dimension %d: sizes %s and %s of dimension %d differ" % (k, T.show(T.axsize(a)), T.show(T.axsize(base[j])), j), T.axsize(a), T.axsize(base[j]), node)
                env[a] = Poly.atom(base[j])
        if t.expr is None or ex is None:
            ex = None
            continue
        ex = ex + T.ind(Poly.atom(B), o, o + T.axsize(t.axes[k])) * T.subst(t.expr, env)
    return fresh(base, ex, dt)


def stack(it, ts, d, node=None):
    x = it.iterate(ts)
    if not isinstance(x, list) or not all(isinstance(t, Ten) for t in x) or not x:
        return Top("stack of unknown")
    k = dimof(it, x[0], d, node, extra=1)
    if k is None:
        return Top("stack dim")
    S = T.new_axis(len(x))
    base = [T.new_axis(s) for s in x[0].shape]
    ex = T.ZERO
    dt = x[0].dtype
    for i, t in enumerate(x):
        dt = promote(dt, t.dtype)
        if len(t.axes) != len(base):
            it.event("dim", "stack of tensors of different rank", node)
            return Top("stack rank")
        env = {}
        for a, b in zip(t.axes, base):
            if not it.same(T.axsize(a), T.axsize(b)):
                size_mismatch(it, "stack of sizes %s and %s" % (T.show(T.axsize(a)), T.show(T.axsize(b))), T.axsize(a), T.axsize(b), node)
            env[a] = Poly.atom(b)
        if t.expr is None or ex is None:
            ex = None
            continue
        ex = ex + T.delta(Poly.atom(S) - i) * T.subst(t.expr, env)
    return fresh(base[:k] + [S] + base[k:], ex, dt)


def torch_split(it, t, sections, d, node=None):
    k = dimof(it, t, d, node)
    if k is None:
        return Top("split dim")
    a = t.axes[k]
    S = T.axsize(a)
    sec = it.iterate(sections) if not isinstance(sections, Poly) else sections
    if isinstance(sec, Fam) and isinstance(sec.elem, Poly):
        e = sec.elem
        tot = fsum(it, sec)
        if isinstance(tot, Poly) and not it.same(tot, S):
            size_mismatch(it, "split sizes sum to %s but the dimension has size %s" % (T.show(tot), T.show(S)), tot, S, node)
            return Top("split sizes")
        fi = new_fi(sec.n)
        sz = T.subst(e, {sec.idx: Poly.atom(fi)})
        na = T.new_axis(sz)
        o = None
        if len(e.t) == 1:
            (m, c), = e.t.items()
            if c == 1 and len(m) == 1 and m[0][0][0] == "split" and m[0][0][3] == Poly.atom(sec.idx):
                o = T.off(m[0][0][1], m[0][0][2], Poly.atom(fi))
        if sec.idx not in T.freevars(e):
            o = e * Poly.atom(fi)
        ex = T.subst(t.expr, {a: Poly.atom(na) + o}) if (o is not None and t.expr is not None) else None
        return Fam(sec.n, fi, Ten(t.axes[:k] + [na] + t.axes[k + 1:], ex, t.dtype, t.org))
    if isinstance(sec, list) and all(isinstance(s, Poly) for s in sec):
        tot = T.ZERO
        out = []
        for s in sec:
            na = T.new_axis(s)
            out.append(Ten(t.axes[:k] + [na] + t.axes[k + 1:], T.subst(t.expr, {a: Poly.atom(na) + tot}) if t.expr is not None else None, t.dtype, t.org))
            tot = tot + s
        if not it.same(tot, S):
            size_mismatch(it, "split sizes sum to %s but the dimension has size %s" % (T.show(tot), T.show(S)), tot, S, node)
        return tuple(out)
    if isinstance(sec, Poly):
        n = T.divide_exact(S, sec)
        if n is not None and n.intval() is not None:
            return torch_split(it, t, L([sec] * n.intval()), d, node)
        if n is not None:
            fi = new_fi(n)
            na = T.new_axis(sec)
            return Fam(n, fi, Ten(t.axes[:k] + [na] + t.axes[k + 1:], T.subst(t.expr, {a: Poly.atom(na) + sec * Poly.atom(fi)}) if t.expr is not None else None, t.dtype, t.org))
        n = T.fdiv(S + sec - 1, sec)
        fi = new_fi(n)
        na = T.new_axis(Poly.atom(("chunk", S, sec, Poly.atom(fi))))
        return Fam(n, fi, Ten(t.axes[:k] + [na] + t.axes[k + 1:], T.subst(t.expr, {a: Poly.atom(na) + sec * Poly.atom(fi)}) if t.expr is not None else None, t.dtype, t.org))
    return Top("split")


def reduce_sum(it, t, dims, keepdim=False, node=None, mean=False):
    if dims is None:
        ks = list(range(len(t.axes)))
    else:
        ds = it.iterate(dims) if isinstance(dims, (L, tuple)) else [dims]
        if not isinstance(ds, list):
            return Top("sum dims")
        ks = [dimof(it, t, d, node) for d in ds]
        if any(k is None for k in ks):
            return Top("sum dims")
    red = [t.axes[k] for k in ks]
    ex = None
    if t.expr is not None:
        ex = T.sum_over(t.expr, red)
        if mean:
            for a in red:
                ex = ex * T.inv(T.axsize(a))
    axes = []
    for k, a in enumerate(t.axes):
        if k in ks:
            if keepdim:
                axes.append(T.new_axis(1))
        else:
            axes.append(a)
    dt = t.dtype
    if dt.name in ("bool", "int32", "int16", "int8", "uint8"):
        dt = DT("int64")
    return fresh(axes, ex, dt)


def reduce_other(it, nm, t, dims, keepdim, dt, node=None):
    if dims is None:
        ks = list(range(len(t.axes)))
    else:
        ds = it.iterate(dims) if isinstance(dims, (L, tuple)) else [dims]
        if not isinstance(ds, list):
            return Top("reduce dims")
        ks = [dimof(it, t, d, node) for d in ds]
        if any(k is None for k in ks):
            return Top("reduce dims")
    keep = [a for k, a in enumerate(t.axes) if k not in ks]
    red = [a for k, a in enumerate(t.axes) if k in ks]
    ex = None
    if t.expr is not None:
        d = 1 + max([T.depth(t.expr)] + [T.depth(T.axsize(a)) for a in red])
        env = {a: Poly.atom(("bv", d, i)) for i, a in enumerate(red)}
        ex = Poly.atom(("fn", "reduce:" + nm, tuple(T.axsize(a) for a in red), T.subst(t.expr, env)))
    axes = [(T.new_axis(1) if keepdim else None) if k in ks else a for k, a in enumerate(t.axes)]
    return fresh([a for a in axes if a is not None], ex, dt)


def einsum(it, eq, ops, node=None):
    if not isinstance(eq, str):
        return Top("einsum equation")
    if len(ops) == 1 and isinstance(ops[0], (L, tuple)):
        ops = it.iterate(ops[0])
    if not all(isinstance(o, Ten) for o in ops):
        return Top("einsum operand")
    eq = eq.replace(" ", "")
    lhs, _, rhs = eq.partition("->")
    ins = lhs.split(",")
    if len(ins) != len(ops):
        it.event("arity", "einsum %r with %d operands" % (eq, len(ops)), node)
        return Top("einsum arity")
    sizes = {}
    lab_ax = {}
    ell_n = 0
    exprs = []
    dt = ops[0].dtype
    for o in ops[1:]:
        if o.dtype != dt and not (o.dtype.name is None or dt.name is None):
            it.event("dtype", "einsum operands of different dtypes %s and %s" % (dt, o.dtype), node)
        dt = promote(dt, o.dtype)
    parsed = []
    for s, o in zip(ins, ops):
        if "..." in s:
            pre, post = s.split("...")
            ne = len(o.axes) - len(pre) - len(post)
            if ne < 0:
                it.event("dim", "einsum %r: operand has %d dimensions, needs at least %d" % (eq, len(o.axes), len(pre) + len(post)), node)
                return Top("einsum rank")
            ell_n = max(ell_n, ne)
            labs = list(pre) + ["...%d" % (ne - i) for i in range(ne)] + list(post)
        else:
            labs = list(s)
            if len(labs) != len(o.axes):
                it.event("dim", "einsum %r: operand has %d dimensions, equation names %d" % (eq, len(o.axes), len(labs)), node)
                return Top("einsum rank")
        parsed.append(labs)
    for labs, o in zip(parsed, ops):
        for l, a in zip(labs, o.axes):
            s = T.axsize(a)
            if l in sizes:
                if not it.same(sizes[l], s):
                    if is_one(sizes[l]):
                        sizes[l] = s
                    elif not is_one(s):
                        size_mismatch(it, "einsum %r: label %s is %s in one operand and %s in another" % (eq, l, T.show(sizes[l]), T.show(s)), sizes[l], s, node)
            else:
                sizes[l] = s
    for l, s in sizes.items():
        lab_ax[l] = T.new_axis(s)
    ex = T.ONE
    for labs, o in zip(parsed, ops):
        if o.expr is None:
            ex = None
            break
        env = {}
        for l, a in zip(labs, o.axes):
            env[a] = T.ZERO if is_one(T.axsize(a)) and not is_one(sizes[l]) else Poly.atom(lab_ax[l])
        ex = ex * T.subst(o.expr, env)
    if not _ or rhs is None:
        cnt = {}
        for labs in parsed:
            for l in labs:
                cnt[l] = cnt.get(l, 0) + 1
        outl = ["...%d" % (ell_n - i) for i in range(ell_n)] + sorted(l for l, c in cnt.items() if c == 1 and not l.startswith("..."))
    else:
        outl = []
        if "..." in rhs:
            pre, post = rhs.split("...")
            outl = list(pre) + ["...%d" % (ell_n - i) for i in range(ell_n)] + list(post)
        else:
            outl = list(rhs)
            if ell_n:
                it.event("dim", "einsum %r drops broadcast dimensions" % eq, node)
    for l in outl:
        if l not in lab_ax:
            it.event("dim", "einsum %r: output label %s not in inputs" % (eq, l), node)
            return Top("einsum label")
    red = [lab_ax[l] for l in lab_ax if l not in outl]
    if ex is not None:
        ex = T.sum_over(ex, red)
    return fresh([lab_ax[l] for l in outl], ex, dt)


def matmul(it, a, b, node=None):
    if not isinstance(a, Ten) or not isinstance(b, Ten):
        return Top("matmul")
    if a.sparse or b.sparse:
        if a.sparse:
            return sparse_mm(it, a, b, node)
        return Top("sparse matmul")
    na, nb = len(a.axes), len(b.axes)
    if na == 1 and nb == 1:
        return einsum(it, "i,i->", [a, b], node)
    if na >= 2 and nb == 1:
        return einsum(it, "...ij,j->...i", [a, b], node)
    if na == 1 and nb >= 2:
        return einsum(it, "i,...ij->...j", [a, b], node)
    return einsum(it, "...ij,...jk->...ik", [a, b], node)


def sparse_mm(it, a, b, node=None):
    return einsum(it, "ij,jk->ik" if len(b.axes) == 2 else "...ij,...jk->...ik", [dense_view(a), b], node)


def dense_view(a):
    r = Ten(a.axes, a.expr, a.dtype, a.org)
    return r


def fft_op(it, nm, x, kw, node):
    d = kw.get("dim", P(-1))
    k = dimof(it, x, d, node) if isinstance(x, Ten) else None
    if k is None:
        return Top("fft")
    a = x.axes[k]
    N = T.axsize(a)
    norm = kw.get("norm")
    norm = norm if isinstance(norm, str) else "backward"
    n = kw.get("n")
    if nm == "rfft":
        if isinstance(n, Poly) and not it.same(n, N):
            return opq_ten(it, "rfft_n", [x, n, norm], x.shape[:k] + [T.fdiv(n, P(2)) + 1] + x.shape[k + 1:], to_complex(x.dtype))
        m = T.new_axis(T.fdiv(N, P(2)) + 1)
        ex = None
        if x.dtype.name and x.dtype.name.startswith("complex"):
            it.event("dtype", "rfft of a complex tensor", node)
        if x.expr is not None:
            b = T.new_axis(N)
            e = T.subst(x.expr, {a: Poly.atom(b)})
            W = Poly.atom(("T", "rfftR:" + norm, (N, Poly.atom(b), Poly.atom(m)))) + T.I * Poly.atom(("T", "rfftI:" + norm, (N, Poly.atom(b), Poly.atom(m))))
            ex = T.sum_over(e * W, [b])
        dt = to_complex(x.dtype)
        return fresh(x.axes[:k] + [m] + x.axes[k + 1:], ex, dt)
    if nm == "irfft":
        if n is None:
            n = (N - 1) * 2
        if not isinstance(n, Poly):
            return Top("irfft n")
        w = T.new_axis(n)
        ex = None
        if x.expr is not None:
            b = T.new_axis(N)
            e = T.subst(x.expr, {a: Poly.atom(b)})
            re, im = T.re_im(e)
            args = (n, Poly.atom(b), Poly.atom(w))
            ex = T.sum_over(re * Poly.atom(("T", "irfftR:" + norm, args)) + im * Poly.atom(("T", "irfftI:" + norm, args)), [b])
        return fresh(x.axes[:k] + [w] + x.axes[k + 1:], ex, to_real(x.dtype))
    if nm in ("fft", "ifft"):
        if n is not None and not (isinstance(n, Poly) and it.same(n, N)):
            return opq_ten(it, nm + "_n", [x, n, norm], x.shape, to_complex(x.dtype))
        w = T.new_axis(N)
        ex = None
        if x.expr is not None:
            b = T.new_axis(N)
            e = T.subst(x.expr, {a: Poly.atom(b)})
            args = (N, Poly.atom(b), Poly.atom(w))
            ex = T.sum_over(e * (Poly.atom(("T", nm + "R:" + norm, args)) + T.I * Poly.atom(("T", nm + "I:" + norm, args))), [b])
        return fresh(x.axes[:k] + [w] + x.axes[k + 1:], ex, to_complex(x.dtype))
    return Top("fft %s" % nm)


def transpose2(it, t, d0, d1, node=None):
    i, j = dimof(it, t, d0, node), dimof(it, t, d1, node)
    if i is None or j is None:
        return Top("transpose dims")
    ax = list(t.axes)
    ax[i], ax[j] = ax[j], ax[i]
    return view_like(t, ax, t.expr)


# ---------------------------------------------------------------- creation
def dtype_of(it, kw, default=None):
    d = kw.get("dtype")
    if isinstance(d, DT):
        return d
    if d is None:
        return DT(default) if default else UNK
    return UNK


DEFAULT_FLOAT = "float32"


def creation(it, nm, args, kw, node):
    if nm in ("zeros", "ones", "empty", "rand", "randn", "full"):
        if "size" in kw:
            args = [kw["size"]] + list(args)
        sh = args
        fill = None
        if nm == "full":
            fill = args[1] if len(args) > 1 else kw.get("fill_value")
            sh = args[:1]
        s = shape_args(it, sh)
        if s is None:
            return Top("%s of unknown shape" % nm)
        dt = dtype_of(it, kw, DEFAULT_FLOAT if nm != "full" or not isinstance(fill, Poly) else pydtype(fill).name)
        ax = [T.new_axis(x) for x in s]
        if nm == "zeros":
            e = T.ZERO
        elif nm == "ones":
            e = T.ONE
        elif nm == "full" and isinstance(fill, Poly):
            e = fill
        else:
            e = Poly.atom(("T", "%s#%d" % (nm, next(T._counter)), tuple(Poly.atom(a) for a in ax)))
        r = fresh(ax, e, dt)
        if nm == "empty":
            r.meta["uninit"] = True
        return r
    if nm == "arange":
        a = [x for x in args]
        if len(a) == 1:
            lo, hi, st = T.ZERO, a[0], T.ONE
        elif len(a) >= 2:
            lo, hi, st = a[0], a[1], (a[2] if len(a) > 2 else kw.get("step", T.ONE))
        else:
            lo, hi, st = kw.get("start", T.ZERO), kw.get("end"), kw.get("step", T.ONE)
        if not all(isinstance(x, Poly) for x in (lo, hi, st)):
            return Top("arange")
        n = hi - lo if st == T.ONE else T.fdiv(hi - lo + st - 1, st)
        ax = T.new_axis(n)
        return fresh([ax], lo + st * Poly.atom(ax), dtype_of(it, kw, "int64" if all(pydtype(x).name == "int64" for x in (lo, hi, st)) else DEFAULT_FLOAT))
    if nm == "linspace":
        lo, hi = arg(args, kw, 0, "start"), arg(args, kw, 1, "end", kw.get("stop"))
        n = arg(args, kw, 2, "steps", kw.get("num"))
        if not all(isinstance(x, Poly) for x in (lo, hi, n)):
            return Top("linspace")
        ends = kw.get("endpoint", True)
        if not isinstance(ends, bool):
            c = it.truth(ends)
            ends = it.decide(c, node) if not isinstance(c, bool) else c
        ax = T.new_axis(n)
        d = n - 1 if ends else n
        return fresh([ax], lo + (hi - lo) * Poly.atom(ax) * T.inv(d), dtype_of(it, kw, DEFAULT_FLOAT))
    if nm == "eye":
        n = args[0]
        if isinstance(n, Poly):
            a, b = T.new_axis(n), T.new_axis(n)
            return fresh([a, b], T.delta(Poly.atom(a) - Poly.atom(b)), dtype_of(it, kw, DEFAULT_FLOAT))
        return Top("eye")
    if nm in ("zeros_like", "ones_like", "empty_like", "rand_like", "randn_like", "full_like"):
        t = args[0]
        if not isinstance(t, Ten):
            return Top(nm)
        dt = dtype_of(it, kw) if "dtype" in kw else t.dtype
        ax = [T.new_axis(x) for x in t.shape]
        e = {"zeros_like": T.ZERO, "ones_like": T.ONE}.get(nm)
        if nm == "full_like" and len(args) > 1 and isinstance(args[1], Poly):
            e = args[1]
        if e is None:
            e = Poly.atom(("T", "%s#%d" % (nm, next(T._counter)), tuple(Poly.atom(a) for a in ax)))
        r = fresh(ax, e, dt)
        if nm == "empty_like":
            r.meta["uninit"] = True
        return r
    return Top(nm)


UNARY = {"abs", "exp", "log", "sqrt", "sin", "cos", "tan", "arccos", "acos", "arcsin", "asin", "arctan", "atan", "sigmoid", "tanh", "relu", "gelu", "silu", "erf", "rsqrt", "sign", "floor", "ceil",
         "round", "isnan", "isinf", "isfinite", "log1p", "expm1", "softplus", "angle", "square", "reciprocal", "sinc", "cosh", "sinh", "absolute", "logical_not", "deg2rad", "rad2deg", "trunc", "lgamma"}
ALIAS_FN = {"acos": "arccos", "asin": "arcsin", "atan": "arctan", "absolute": "abs"}
VIEWISH = {"contiguous", "detach", "to", "type", "requires_grad_", "cpu", "cuda", "float", "double", "half", "bfloat16", "int", "long", "bool", "type_as", "numpy"}


def unary(it, nm, x, node=None):
    nm = ALIAS_FN.get(nm, nm)
    if isinstance(x, Poly):
        c = x.constval()
        if nm == "abs":
            s = T.sign(x)
            if s in (1, 0):
                return x
            if s == -1:
                return -x
        if c is not None and nm in ("floor", "ceil", "round"):
            import math
            return P({"floor": math.floor, "ceil": math.ceil, "round": round}[nm](c))
        if nm == "sqrt" and c is not None:
            import math
            r = math.isqrt(int(c)) if c.denominator == 1 and c >= 0 else None
            if r is not None and r * r == c:
                return P(r)
        if nm == "square":
            return x * x
        if nm == "reciprocal":
            return T.inv(x)
        return Poly.atom(("fn", nm, x))
    if not isinstance(x, Ten):
        return Top(nm)
    dt = x.dtype
    if nm in ("isnan", "isinf", "isfinite", "logical_not"):
        dt = DT("bool")
    elif nm == "abs" or nm == "angle":
        dt = to_real(dt)
    elif dt.name and DType.INFO[dt.name][0] < 2 and nm not in ("abs", "sign", "floor", "ceil", "round", "square"):
        dt = DT("float32")
    if x.expr is None:
        return fresh(x.axes, None, dt)
    if nm == "square":
        return fresh(x.axes, x.expr * x.expr, dt)
    if nm == "reciprocal":
        return fresh(x.axes, T.inv(x.expr), dt)
    return fresh(x.axes, cplx(None, dt, nm, (x.expr,)), dt)


def cast(it, t, dt, node=None):
    if dt == t.dtype or dt.name is None:
        r = Ten(t.axes, t.expr, dt if dt.name else t.dtype, t.org if dt == t.dtype or dt.name is None else FRESH, None)
        if dt.name is None:
            r.dtype = UNK
        r.sparse = t.sparse
        r.meta = dict(t.meta)
        return r
    ex = t.expr
    org = FRESH if t.dtype.name is not None else t.org
    if ex is not None and t.dtype.name and dt.name:
        ct, cd = DType.INFO[t.dtype.name][0], DType.INFO[dt.name][0]
        if ct == 3 and cd < 3:
            it.event("lossy", "conversion of complex values to %s drops the imaginary part" % dt, node)
            ex = T.re_im(ex)[0]
        elif ct == 2 and cd < 2:
            ex = Poly.atom(("fn", "trunc", ex))
        elif ct == cd == 2 and it.config.get("rounding") and DType.INFO[dt.name][1] < DType.INFO[t.dtype.name][1] and ex.constval() is None:
            ex = Poly.atom(("fn", "round:" + dt.name, ex))
    r = Ten(t.axes, ex, dt, org)
    r.sparse = t.sparse
    r.meta = dict(t.meta)
    return r


# ---------------------------------------------------------------- torch.* functions
def arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


def call_ext(it, name, args, kw, node):
    """library call"""
    args = list(args)
    short = name.split(".")[-1]
    ov = it.overrides.get(name)
    if callable(ov):
        return ov(it, args, kw, node)
    root = name.split(".")[0]
    if root == "builtins":
        return call_builtin(it, short, args, kw, node)
    if name.startswith("torch.distributed.") or root == "dist":
        return call_dist(it, short, args, kw, node)
    if name.startswith("torch.ops."):
        h = it.config.get("opcall")
        if h:
            r = h(it, name[len("torch.ops."):], args, kw, node)
            if r is not MISSING:
                return r
        return call_unknown(it, name, args, kw, node)
    if name.startswith("torch.nn.init."):
        if args and isinstance(args[0], Ten):
            it.mutate(args[0], node, name)
        return args[0] if args else None
    if name == "itertools.accumulate":
        return accumulate(it, args, kw, node)
    if root == "functools" and short == "partial":
        return ("partial", args[0], (tuple(args[1:]), tuple(kw.items())))
    if root == "math" or root == "numpy" and short in ("pi",):
        if short in ("sqrt", "sin", "cos", "tan", "exp", "log", "floor", "ceil", "acos", "asin", "atan", "fabs", "radians", "degrees"):
            nm = "abs" if short == "fabs" else short
            return unary(it, nm, args[0], node)
        if short == "prod":
            x = it.iterate(args[0])
            if isinstance(x, list) and all(isinstance(v, Poly) for v in x):
                r = T.ONE
                for v in x:
                    r = r * v
                return r
        if short == "gcd" or short == "lcm":
            a, b = args[0], args[1]
            if isinstance(a, Poly) and isinstance(b, Poly):
                import math
                if a.intval() is not None and b.intval() is not None:
                    return P(getattr(math, short)(a.intval(), b.intval()))
                return Poly.atom(("fn", short, a, b))
        if short == "pow":
            return num_binop(it, "Pow", args[0], args[1])
        return Poly.atom(("fn", "math." + short, *[a for a in args if isinstance(a, Poly)]))
    if name.endswith("polynomial.legendre.leggauss") and args and isinstance(args[0], Poly):
        out = []
        for part in (0, 1):
            ax = T.new_axis(args[0])
            out.append(fresh([ax], Poly.atom(("fn", "def:quad", "legendre_gauss_weights", part, args[0], Poly.atom(ax))), DT("float64")))
        return tuple(out)
    if name in ("scipy.special.jn", "scipy.special.jv") and len(args) == 2 and isinstance(args[0], Poly):
        x = args[1]
        if isinstance(x, Poly):
            return Poly.atom(("fn", "def:jn", args[0], x))
        if isinstance(x, Ten) and x.expr is not None:
            return fresh(x.axes, Poly.atom(("fn", "def:jn", args[0], x.expr)), DT("float64"))
        return Top("jn")
    if name == "scipy.special.jn_zeros" and len(args) == 2 and all(isinstance(v, Poly) and v.intval() is not None for v in args):
        from sa import defs
        return L([Poly.const(v) for v in defs.jn_zeros(args[0].intval(), args[1].intval())])
    if root in ("warnings", "logging"):
        return None
    if root == "os":
        if short == "getenv" or name == "os.environ.get":
            return args[1] if len(args) > 1 else None
        return Top(name)
    if root == "copy" and short in ("copy", "deepcopy"):
        if not args or short == "copy" and not isinstance(args[0], Ten):
            if args and isinstance(args[0], L):
                r = L(list(args[0].items))
                r.fam = args[0].fam
                return r
            return dict(args[0]) if args and isinstance(args[0], dict) else args[0] if args else None
        return retag(args[0], ("fresh",))
    if name in ("functools.lru_cache", "functools.cache"):
        if args and callable_value(args[0]):
            return ("memo", args[0])
        return ("memo", None)
    if root in ("torch", "numpy"):
        r = torch_fn(it, name, short, args, kw, node)
        if r is not MISSING:
            return r
    return call_unknown(it, name, args, kw, node)


def call_unknown(it, name, args, kw, node):
    it.opaque_log.append(("call " + str(name), it.loc(node)))
    it.unknown_calls = getattr(it, "unknown_calls", set()) | {str(name)}
    try:
        key = ("call", str(name)) + tuple(str(it.keyof(a)) for a in args) + tuple((str(k), str(it.keyof(v))) for k, v in sorted(kw.items(), key=lambda z: str(z[0])))
    except Exception:
        key = ("call", str(name), next(T._counter))
    return Top(key)


def lerp(it, a, b, w, node):
    d = binary(it, "sub", b, a, node)
    d = binary(it, "mul", w, d, node)
    return binary(it, "add", a, d, node)


def searchsorted(it, srt, v, kw, node):
    """number of sorted entries below (left) / not above (right) each value"""
    if not (isinstance(srt, Ten) and isinstance(v, Ten) and len(srt.axes) == 1):
        return Top("searchsorted")
    right = kw.get("side") == "right" or kw.get("right") is True
    e = None
    if srt.expr is not None and v.expr is not None:
        b = T.new_axis(srt.shape[0])
        se = T.subst(srt.expr, {srt.axes[0]: Poly.atom(b)})
        e = T.sum_over(Poly.atom(("fn", "cmp_le" if right else "cmp_lt", se, v.expr)), [b])
    return fresh(list(v.axes), e, DT("int64"))


def torch_fn(it, name, short, args, kw, node):
    T0 = args[0] if args else kw.get("input", kw.get("self"))
    if name == "torch._check" or name == "torch._assert":
        it.check(args[0], node, "torch._check", "RuntimeError")
        return None
    if name.startswith("torch.nn.functional.") or name.startswith("torch.nn."):
        r = nn_fn(it, name, short, args, kw, node)
        if r is not MISSING:
            return r
    if name.startswith("torch.fft."):
        k2 = dict(kw)
        if len(args) > 1 and "n" not in k2 and args[1] is not None:
            k2["n"] = args[1]
        if len(args) > 2:
            k2["dim"] = args[2]
        if len(args) > 3:
            k2["norm"] = args[3]
        return fft_op(it, short, T0, k2, node)
    if short in ("zeros", "ones", "empty", "rand", "randn", "full", "arange", "linspace", "eye", "zeros_like", "ones_like", "empty_like", "rand_like", "randn_like", "full_like"):
        if name.startswith("numpy.random"):
            return Top(name)
        if name.startswith("numpy."):
            kw = dict(kw)
            if "dtype" not in kw:
                if short in ("zeros", "ones", "empty") and len(args) > 1 and isinstance(args[1], DT):
                    kw["dtype"] = args[1]
                    args = args[:1]
                elif short not in ("arange",) and not short.endswith("_like"):
                    kw["dtype"] = DT("float64")
        return creation(it, short, args, kw, node)
    if name in ("torch.autocast", "torch.amp.autocast", "torch.cuda.amp.autocast"):
        return ExtObj(name, args, kw)
    if name in ("torch.no_grad", "torch.enable_grad", "torch.inference_mode", "torch.set_grad_enabled"):
        return ExtObj(name, args, kw)
    if short == "einsum":
        return einsum(it, T0, args[1:], node)
    if short in ("matmul", "mm", "bmm", "dot"):
        return matmul(it, args[0], args[1], node)
    if name in ("torch.sparse.mm",):
        return sparse_mm(it, args[0], args[1], node) if all(isinstance(a, Ten) for a in args[:2]) else Top("sparse mm")
    if short in ("cat", "concat", "concatenate"):
        return cat(it, T0, arg(args, kw, 1, "dim", kw.get("axis", P(0))), node)
    if short == "stack":
        return stack(it, T0, arg(args, kw, 1, "dim", kw.get("axis", P(0))), node)
    if name == "torch.complex" and len(args) >= 2:
        a, b = args[0], args[1]
        if isinstance(a, Ten) and isinstance(b, Ten):
            if a.dtype != b.dtype and a.dtype.name and b.dtype.name:
                it.event("dtype", "torch.complex of %s and %s" % (a.dtype, b.dtype), node)
            axes, (x, y) = broadcast(it, [a, b], node, "torch.complex")
            return fresh(axes, x + T.I * y if x is not None and y is not None else None, to_complex(a.dtype))
        return Top("complex")
    if name == "torch.polar":
        return Top("polar")
    if short == "meshgrid":
        vs = args
        if len(vs) == 1 and isinstance(vs[0], (L, tuple)):
            vs = it.iterate(vs[0])
        xy = kw.get("indexing", "ij" if name.startswith("torch") else "xy") == "xy"
        if isinstance(vs, (list, tuple)) and vs and all(isinstance(v, Ten) and len(v.axes) == 1 for v in vs):
            out = []
            for v in vs:
                axes = [T.new_axis(T.axsize(w.axes[0])) for w in vs]
                k = len(out)
                e = T.subst(v.expr, {v.axes[0]: Poly.atom(axes[k])}) if v.expr is not None else None
                if xy and len(axes) > 1:
                    axes[0], axes[1] = axes[1], axes[0]
                out.append(fresh(axes, e, v.dtype))
            return tuple(out)
        return Top("meshgrid")
    if short in ("tensor", "as_tensor", "asarray", "array", "from_numpy"):
        x = args[0] if args else None
        d = kw.get("dtype") if "dtype" in kw else (args[1] if len(args) > 1 and isinstance(args[1], DT) else None)
        if isinstance(x, Ten):
            r = Ten(x.axes, x.expr, x.dtype, FRESH if short == "tensor" else x.org)
            return cast(it, r, d, node) if isinstance(d, DT) else r
        if isinstance(x, Poly):
            return fresh([], x, d if isinstance(d, DT) else pydtype(x))
        if isinstance(x, (L, tuple)):
            xs = it.iterate(x)
            if isinstance(xs, list) and xs and all(isinstance(v, bool) for v in xs):
                xs = [P(int(v)) for v in xs]
                d = d if isinstance(d, DT) else DT("bool")
            if isinstance(xs, list) and xs and all(isinstance(v, Poly) for v in xs):
                a = T.new_axis(len(xs))
                e = T.ZERO
                for i, v in enumerate(xs):
                    e = e + T.delta(Poly.atom(a) - i) * v
                return fresh([a], e, d if isinstance(d, DT) else pydtype(xs[0]))
            if isinstance(xs, Fam) and isinstance(xs.elem, Poly):
                a = T.new_axis(xs.n)
                return fresh([a], T.subst(xs.elem, {xs.idx: Poly.atom(a)}), d if isinstance(d, DT) else pydtype(xs.elem))
        return Top("tensor literal")
    if short == "view_as_real" and isinstance(T0, Ten):
        a = T.new_axis(2)
        ex = None
        if T0.expr is not None:
            re, im = T.re_im(T0.expr)
            ex = re * T.delta(Poly.atom(a)) + im * T.delta(Poly.atom(a) - 1)
        return Ten(T0.axes + [a], ex, to_real(T0.dtype), T0.org)
    if short == "view_as_complex" and isinstance(T0, Ten):
        ex = None
        if T0.expr is not None:
            ex = T.subst(T0.expr, {T0.axes[-1]: T.ZERO}) + T.I * T.subst(T0.expr, {T0.axes[-1]: T.ONE})
        return Ten(T0.axes[:-1], ex, to_complex(T0.dtype), T0.org)
    if short == "where":
        if len(args) == 3:
            c, a, b = args
            if all(isinstance(x, (Ten, Poly)) for x in args):
                return ewise(it, "where", [c, a, b], promote_vals(a, b) if isinstance(a, (Ten, Poly)) else UNK)
        return Top("where")
    if short == "is_tensor":
        return isinstance(T0, Ten)
    if short in ("is_autocast_enabled",):
        if "autocast" in it.config:
            return bool(it.config["autocast"]) and not any(e.kwargs.get("enabled") is False for e in it.autocast)
        return Cond("opq", ("autocast_enabled",))
    if short in ("get_autocast_dtype", "get_autocast_gpu_dtype"):
        return DT(it.config.get("autocast")) if it.config.get("autocast") else DT("float16")
    if short in ("finfo", "iinfo"):
        o = ExtObj(name, args, kw)
        for k in ("max", "min", "eps", "tiny"):
            o.attrs[k] = Poly.atom(("sym", "finfo_%s_%s" % (k, it.keyof(args[0]) if args else "")))
        return o
    if short in ("promote_types", "result_type") and len(args) == 2 and all(isinstance(a, DT) for a in args):
        return promote(args[0], args[1])
    if short == "Generator" or short == "device" or short in ("Size",):
        if short == "Size":
            return tuple(it.iterate(args[0]) or ())
        return ExtObj(name, args, kw)
    if short in ("manual_seed", "set_default_dtype", "set_default_device", "use_deterministic_algorithms", "set_float32_matmul_precision", "seed"):
        it.sideeffects.append((frozenset([("globalstate", name)]), name, it.loc(node), it.stack[-1].fn.qual))
        return None
    if name in ("torch.sparse_coo_tensor",):
        return sparse_coo(it, args, kw, node)
    if short == "broadcast_tensors":
        return tuple(args)
    if short in ("from_numpy",):
        return T0
    if short == "outer":
        return einsum(it, "i,j->ij", args[:2], node)
    if short == "trapz" or short == "trapezoid":
        return Top(short)
    if name.startswith("torch.utils.checkpoint"):
        return it.call(args[0], args[1:], {k: v for k, v in kw.items() if k not in ("use_reentrant",)}, node)
    if short in DType.INFO or short in DType.ALIAS:
        if name.startswith("numpy."):
            return args[0] if args else Top(name)
    # fall back: function form of a method
    if isinstance(T0, Ten):
        rest = args[1:] if args else []
        k2 = {k: v for k, v in kw.items() if k not in ("input", "self")}
        if short in METHODS or short in UNARY or hasattr_method(short):
            return call_method(it, T0, short, rest, k2, node)
    if isinstance(T0, Poly) and short in UNARY:
        return unary(it, short, T0, node)
    if short in ("add", "sub", "mul", "div", "pow", "multiply", "subtract", "divide") and len(args) == 2:
        if all(isinstance(a, (Poly, Ten)) for a in args):
            return binary(it, {"multiply": "mul", "subtract": "sub", "divide": "div"}.get(short, short), args[0], args[1], node)
    return MISSING


def sparse_coo(it, args, kw, node):
    size = arg(args, kw, 2, "size")
    s = shape_args(it, [size]) if size is not None else None
    if s is None:
        return Top("sparse tensor")
    vals, ix = args[1], args[0]
    r = None
    if isinstance(vals, Ten) and vals.known() and isinstance(ix, Ten) and ix.known() and len(vals.axes) == 1 and len(ix.axes) == 2:
        ax = [T.new_axis(x) for x in s]
        n = vals.axes[0]
        e = vals.expr
        for d in range(len(s)):
            e = e * T.delta(T.subst(ix.expr, {ix.axes[0]: P(d), ix.axes[1]: Poly.atom(n)}) - Poly.atom(ax[d]))
        r = fresh(ax, T.sum_over(e, [n]), vals.dtype)
    if r is None:
        r = opq_ten(it, "sparse_coo", args[:2], s, vals.dtype if isinstance(vals, Ten) else UNK)
    r.sparse = True
    return r


def nn_fn(it, name, short, args, kw, node):
    T0 = args[0] if args else kw.get("input")
    if short == "Parameter":
        if isinstance(T0, Ten):
            r = Ten(T0.axes, T0.expr, T0.dtype, FRESH, param="?")
            r.meta = dict(T0.meta)
            return r
        if T0 is None:
            return Ten([], T.sym("emptyparam"), UNK, FRESH, param="?")
        return T0
    if short == "pad" and isinstance(T0, Ten):
        spec = it.iterate(arg(args, kw, 1, "pad"))
        mode = arg(args, kw, 2, "mode", "constant")
        val = arg(args, kw, 3, "value", T.ZERO)
        if val is None:
            val = T.ZERO
        if isinstance(spec, list) and all(isinstance(s, Poly) for s in spec) and mode == "constant" and isinstance(val, Poly):
            axes = list(T0.axes)
            ex = T0.expr
            for k in range(len(spec) // 2):
                lo, hi = spec[2 * k], spec[2 * k + 1]
                if not lo.t and not hi.t:
                    continue
                i = len(axes) - 1 - k
                if i < 0:
                    it.event("dim", "pad specification too long", node)
                    return Top("pad")
                a = axes[i]
                S = T.axsize(a)
                na = T.new_axis(S + lo + hi)
                if ex is not None:
                    m = T.ind(Poly.atom(na), lo, lo + S)
                    ex = m * T.subst(ex, {a: Poly.atom(na) - lo}) + (T.ONE - m) * val
                axes[i] = na
            return fresh(axes, ex, T0.dtype)
        return Top("pad")
    if short in ("softmax", "log_softmax") and name.startswith("torch.nn.functional") and isinstance(T0, Ten):
        return softmax(it, short, T0, arg(args, kw, 1, "dim"), node)
    if short == "rms_norm" and isinstance(T0, Ten):
        return rms_norm(it, T0, arg(args, kw, 1, "normalized_shape"), arg(args, kw, 2, "weight"), arg(args, kw, 3, "eps"), node)
    if short == "scaled_dot_product_attention" and len(args) >= 3 and all(isinstance(x, Ten) for x in args[:3]):
        return sdpa(it, args[:3], arg(args, kw, 3, "attn_mask"), arg(args, kw, 4, "dropout_p", T.ZERO), arg(args, kw, 5, "is_causal", False), kw.get("scale"), node)
    if name.startswith("torch.nn.functional.") and short in UNARY and isinstance(T0, Ten):
        return unary(it, short, T0, node)
    if short == "conv2d" and isinstance(T0, Ten):
        w = arg(args, kw, 1, "weight")
        b = arg(args, kw, 2, "bias")
        stride = arg(args, kw, 3, "stride", T.ONE)
        groups = kw.get("groups", args[6] if len(args) > 6 else T.ONE)
        if isinstance(w, Ten) and len(w.axes) == 4 and len(T0.axes) == 4 and is_one(w.shape[2]) and is_one(w.shape[3]):
            return conv1x1(it, T0, w, b, groups, node)
        return Top("conv2d")
    if short == "normalize" and isinstance(T0, Ten):
        return opq_ten(it, "normalize", [T0] + args[1:] + [kw.get("p"), kw.get("dim")], T0.shape, T0.dtype)
    if short == "linear" and isinstance(T0, Ten) and len(args) > 1 and isinstance(args[1], Ten):
        y = einsum(it, "...i,oi->...o", [T0, args[1]], node)
        b = arg(args, kw, 2, "bias")
        return binary(it, "add", y, b, node) if isinstance(b, Ten) else y
    if short in ("Identity",):
        return ExtObj("torch.nn.Identity", args, kw)
    if short in ("ModuleList", "ParameterList"):
        o = Obj(None)
        o.attrs["__items__"] = list(it.iterate(args[0]) or []) if args else []
        return o
    if short == "Sequential":
        return ExtObj("torch.nn.Sequential", args, kw)
    if short == "ModuleDict":
        return dict(args[0]) if args and isinstance(args[0], dict) else {}
    if name.startswith("torch.nn.") and short[:1].isupper():
        return ExtObj(name, args, kw)
    if short == "interpolate" and isinstance(T0, Ten):
        return Top("interpolate")
    return MISSING


def softmax(it, name, t, d, node):
    k = dimof(it, t, d, node) if isinstance(d, Poly) else None
    if k is None or t.expr is None:
        return opq_ten(it, name, [t, d], t.shape, t.dtype)
    e = Poly.atom(("fn", "exp", t.expr))
    a = t.axes[k]
    n = T.new_axis(T.axsize(a))
    z = T.sum_over(T.subst(e, {a: Poly.atom(n)}), [n])
    x = t.expr - Poly.atom(("fn", "log", z)) if name == "log_softmax" else e * T.inv(z)
    return Ten(list(t.axes), x, t.dtype, FRESH)


def rms_norm(it, t, shape, w, eps, node):
    """x / sqrt(mean(x^2 over the trailing dimensions) + eps) * weight"""
    sh = it.iterate(shape) if shape is not None else None
    if not isinstance(sh, list) or not sh or len(sh) > len(t.axes) or t.expr is None:
        return opq_ten(it, "rms_norm", [t, shape, w, eps], t.shape, t.dtype)
    for a, b in zip(t.axes[-len(sh):], sh):
        if not isinstance(b, Poly):
            return Top("rms_norm")
        if not it.same(T.axsize(a), b):
            size_mismatch(it, "rms_norm over %s normalises %s" % (T.show(b), T.show(T.axsize(a))), T.axsize(a), b, node)
    ax = t.axes[-len(sh):]
    nx = [T.new_axis(T.axsize(a)) for a in ax]
    cnt = T.ONE
    for a in ax:
        cnt = cnt * T.axsize(a)
    sq = T.sum_over(T.subst(t.expr * t.expr, {a: Poly.atom(n) for a, n in zip(ax, nx)}), nx)
    e = eps if isinstance(eps, Poly) else P(Fraction(1, 10 ** 6))
    r = Ten(list(t.axes), t.expr * T.inv(Poly.atom(("fn", "sqrt", sq * T.inv(cnt) + e))), t.dtype, FRESH)
    return binary(it, "mul", r, w, node) if isinstance(w, Ten) else r


def sdpa(it, qkv, mask, p, causal, scale, node):
    q, k, v = qkv
    if causal is not False or (mask is not None and not isinstance(mask, Ten)) or (isinstance(mask, Ten) and mask.dtype.name == "bool"):
        return Top("scaled_dot_product_attention")
    if scale is None:
        scale = T.inv(Poly.atom(("fn", "sqrt", q.shape[-1])))
    if not isinstance(scale, Poly) or not isinstance(p, Poly):
        return Top("scaled_dot_product_attention")
    s = einsum(it, "...le,...se->...ls", [q, k], node)
    s = binary(it, "mul", s, scale, node)
    if mask is not None:
        s = binary(it, "add", s, mask, node)
    a = softmax(it, "softmax", s, P(-1), node)
    if p != T.ZERO:
        a = binary(it, "mul", a, T.ONE + p, node)       # dropout: some other value
    return einsum(it, "...ls,...se->...le", [a, v], node)


def conv1x1(it, x, w, b, groups, node):
    O, Cg = w.shape[0], w.shape[1]
    C = x.shape[1]
    if not it.same(C, Cg * groups):
        size_mismatch(it, "convolution over %s channels with a weight for %s" % (T.show(C), T.show(Cg * groups)), C, Cg * groups, node)
    wt = index(it, w, (slice(None), slice(None), T.ZERO, T.ZERO))
    if groups.intval() == 1:
        y = einsum(it, "bchw,oc->bohw", [x, wt], node)
    else:
        Og = T.divide_exact(O, groups)
        if Og is None:
            return Top("grouped conv")
        xr = reshape(it, x, [x.shape[0], groups, Cg, x.shape[2], x.shape[3]], node)
        wr = reshape(it, wt, [groups, Og, Cg], node)
        y = einsum(it, "bgchw,goc->bgohw", [xr, wr], node)
        y = reshape(it, y, [x.shape[0], O, x.shape[2], x.shape[3]], node)
    if isinstance(b, Ten):
        y = binary(it, "add", y, reshape(it, b, [P(1), O, P(1), P(1)], node), node)
    return y


def call_extobj(it, f, args, kw, node):
    short = f.name.split(".")[-1]
    if short == "Identity" or short.startswith("Dropout") or short == "DropPath":
        return args[0] if args else None
    if short == "Sequential":
        x = args[0]
        for m in f.args:
            x = it.call(m, [x], {}, node)
        return x
    if short == "p2p":
        return None
    if f.name.startswith("torch.nn.") and args and isinstance(args[0], Ten):
        x = args[0]
        if short in ("GELU", "ReLU", "SiLU", "Sigmoid", "Tanh", "LeakyReLU", "ELU", "Softplus"):
            return unary(it, short.lower(), x, node)
        if short == "Conv2d":
            k = f.kwargs.get("kernel_size", f.args[2] if len(f.args) > 2 else None)
            outc = f.kwargs.get("out_channels", f.args[1] if len(f.args) > 1 else None)
            inc = f.kwargs.get("in_channels", f.args[0] if f.args else None)
            if isinstance(outc, Poly) and len(x.axes) == 4:
                if isinstance(inc, Poly) and not it.same(inc, x.shape[1]):
                    size_mismatch(it, "Conv2d expects %s channels, gets %s" % (T.show(inc), T.show(x.shape[1])), inc, x.shape[1], node)
                if isinstance(k, Poly) and k.intval() == 1:
                    return opq_ten(it, "Conv2d#%d" % id(f), [x], [x.shape[0], outc] + x.shape[2:], x.dtype)
            return Top("Conv2d")
        if short == "Linear":
            outc = f.kwargs.get("out_features", f.args[1] if len(f.args) > 1 else None)
            inc = f.kwargs.get("in_features", f.args[0] if f.args else None)
            if isinstance(outc, Poly):
                if isinstance(inc, Poly) and not it.same(inc, x.shape[-1]):
                    size_mismatch(it, "Linear expects %s features, gets %s" % (T.show(inc), T.show(x.shape[-1])), inc, x.shape[-1], node)
                return opq_ten(it, "Linear#%d" % id(f), [x], x.shape[:-1] + [outc], x.dtype)
        if short in ("LayerNorm", "InstanceNorm2d", "BatchNorm2d", "GroupNorm"):
            return opq_ten(it, "%s#%d" % (short, id(f)), [x], x.shape, x.dtype)
    return call_unknown(it, f.name, args, kw, node)


# ---------------------------------------------------------------- tensor methods
METHODS = set("""view reshape permute transpose t T mT flatten unflatten unsqueeze squeeze expand expand_as repeat repeat_interleave contiguous clone detach to type float double half bfloat16 int long bool
cuda cpu size dim numel ndimension item sum mean prod max min amax amin argmax argmin norm narrow select split chunk flip roll movedim swapaxes tile index_select gather scatter scatter_ scatter_add scatter_add_
add sub mul div pow matmul mm bmm add_ sub_ mul_ div_ copy_ zero_ fill_ neg conj resolve_conj real imag is_floating_point is_complex new_zeros new_empty new_ones new_full type_as numel requires_grad_ masked_fill clamp clamp_ clip
softmax log_softmax any all cumsum diff tolist numpy element_size data_ptr stride is_contiguous storage_offset to_dense coalesce indices values is_cuda device unbind index_add index_add_ index_copy_ view_as reshape_as
masked_fill_ argsort sort nonzero unique bincount nan_to_num trunc where lt gt le ge eq ne maximum minimum atan2 arctan2 fmod remainder floor_divide true_divide broadcast_to addcmul lerp std var logsumexp tril triu diagonal outer squeeze_ unsqueeze_
interp searchsorted concatenate ravel astype copy flatten argwhere""".split())


def hasattr_method(n):
    return n in METHODS


def call_method(it, o, name, args, kw, node):
    if isinstance(o, Ten):
        return ten_method(it, o, name, args, kw, node)
    if isinstance(o, L):
        return list_method(it, o, name, args, kw, node)
    if isinstance(o, str):
        return str_method(it, o, name, args, kw, node)
    if isinstance(o, dict):
        return dict_method(it, o, name, args, kw, node)
    if isinstance(o, (tuple, Fam)):
        if name == "index" and isinstance(o, tuple):
            for i, x in enumerate(o):
                if it.compare(ast.Eq(), x, args[0]) is True:
                    return P(i)
            return Top("tuple.index")
        if name == "count":
            return Top("count")
        if name == "numel":
            r = T.ONE
            for x in o:
                r = r * x
            return r
        return Top("tuple method")
    if isinstance(o, GRanks):
        if name == "index":
            return o.group.rank()
        return Top("granks." + name)
    if isinstance(o, Cls) and name == "apply":
        return autograd_apply(it, o, args, kw, node)
    if isinstance(o, Obj):
        return obj_method(it, o, name, args, kw, node)
    if isinstance(o, Poly):
        if name == "item":
            return o
        if name in ("is_integer",):
            return Cond("opq", ("is_integer", o.key()))
        return Top("number method " + name)
    if isinstance(o, DT):
        if name == "is_complex":
            return pass_dt(o, "complex")
    if isinstance(o, ExtObj):
        return extobj_method(it, o, name, args, kw, node)
    if isinstance(o, Fn):
        return Top("function attribute")
    return call_unknown(it, "method." + name, [o] + list(args), kw, node)


def extobj_method(it, o, name, args, kw, node):
    if name == "wait":
        return None
    if name in ("parameters", "named_parameters", "children", "modules"):
        return Top(name)
    return call_unknown(it, o.name + "." + name, args, kw, node)


def autograd_apply(it, cls, args, kw, node):
    fwd = it.classattr(cls, "forward")
    if fwd is MISSING:
        return Top("apply")
    hook = it.config.get("on_apply")
    if hook:
        hook(it, cls, args, node)
    has_setup = it.classattr(cls, "setup_context") is not MISSING
    ctx = Obj(None)
    ctx.attrs["__ctx__"] = True
    if has_setup:
        r = it.call_fn(fwd[1], list(args), kw, node)
    else:
        r = it.call_fn(fwd[1], [ctx] + list(args), kw, node)
    it.tape.append((cls, ctx, has_setup, list(args), r))
    return r


def autograd_backward(it, rec, grads):
    """gradient of one recorded application: what its backward returns"""
    cls, ctx, has_setup, args, out = rec
    if isinstance(cls, tuple) and cls[0] == "op":
        reg = it.autograd_registration(cls[1])
        if reg is None or not isinstance(reg[0], Fn):
            return Top("no single autograd registration of %s" % cls[1])
        ctx = Obj(None)
        ctx.attrs["__ctx__"] = True
        if isinstance(reg[1], Fn):
            it.call_fn(reg[1], [ctx, tuple(args), out], {}, None)
        return it.call_fn(reg[0], [ctx] + list(grads), {}, None)
    if has_setup:
        sc = it.classattr(cls, "setup_context")
        it.call_fn(sc[1], [ctx, tuple(args), out], {}, None)
    bw = it.classattr(cls, "backward")
    if bw is MISSING:
        return Top("backward")
    return it.call_fn(bw[1], [ctx] + list(grads), {}, None)


def obj_attr(it, o, name, node):
    """attribute inherited from nn.Module / autograd ctx"""
    if name == "training":
        return Cond("opq", ("training",))
    if name in ("register_buffer", "register_parameter", "parameters", "buffers", "named_parameters", "named_buffers", "to", "cuda", "cpu", "float", "double", "half", "eval", "train", "save_for_backward",
                "mark_non_differentiable", "set_materialize_grads", "modules", "children", "apply", "append", "extend", "add_module", "state_dict", "zero_grad", "requires_grad_", "mark_dirty", "register_module", "bfloat16", "type"):
        return Method(o, name)
    if name == "saved_tensors":
        return o.attrs.get("__saved__", Top("saved_tensors"))
    if name == "needs_input_grad":
        return o.attrs.get("__nig__", (True,) * 64 if it.config.get("all_grads") else Top("needs_input_grad"))
    it.opaque_log.append(("attribute %s of %r" % (name, o), it.loc(node)))
    it.event("attr", "attribute %s of %r is never set" % (name, o), node) if o.cls is None and "__ctx__" in o.attrs else None
    if o.cls is not None:
        return Top("attribute %s" % name)
    return Top("attribute %s" % name)


def obj_super(it, o, meth, args, kw, node):
    return obj_method(it, o, meth, args, kw, node)


def obj_method(it, o, name, args, kw, node):
    if name == "register_buffer":
        nm = args[0] if args else kw.get("name")
        val = args[1] if len(args) > 1 else kw.get("tensor")
        pers = args[2] if len(args) > 2 else kw.get("persistent", True)
        if isinstance(nm, str):
            o.attrs[nm] = val
            o.buffers[nm] = pers
        return None
    if name == "register_parameter":
        nm, val = args[0], args[1]
        if isinstance(nm, str):
            if isinstance(val, Ten):
                val.param = val.param or "?"
                val = name_param(it, o, nm, val)
                o.params[nm] = val
            o.attrs[nm] = val
        return None
    if name == "save_for_backward":
        o.attrs["__saved__"] = tuple(args)
        return None
    if name in ("mark_non_differentiable", "set_materialize_grads", "mark_dirty"):
        return None
    if name in ("append",):
        o.attrs.setdefault("__items__", []).append(args[0])
        return None
    if name in ("to", "cuda", "cpu", "float", "double", "half", "eval", "train", "requires_grad_", "bfloat16", "type"):
        return o
    if name == "add_module":
        o.attrs[args[0]] = args[1]
        return None
    return Top("method %s" % name)


def value_attr(it, o, name, node):
    if isinstance(o, Ten):
        if name == "shape":
            return tuple(o.shape)
        if name == "dtype":
            return o.dtype
        if name == "device":
            return ExtObj("device", (), {})
        if name in ("ndim",):
            return P(len(o.axes))
        if name == "real":
            if o.dtype.name and not o.dtype.name.startswith("complex"):
                return o
            return Ten(o.axes, T.re_im(o.expr)[0] if o.expr is not None else None, to_real(o.dtype), o.org)
        if name == "imag":
            if o.dtype.name and not o.dtype.name.startswith("complex"):
                it.event("dtype", ".imag of a real tensor", node)
            return Ten(o.axes, T.re_im(o.expr)[1] if o.expr is not None else None, to_real(o.dtype), o.org)
        if name in ("T", "mT"):
            ax = list(o.axes)
            if name == "T":
                ax = ax[::-1]
            else:
                ax[-1], ax[-2] = ax[-2], ax[-1]
            return view_like(o, ax, o.expr)
        if name == "data":
            return Ten(o.axes, o.expr, o.dtype, o.org)
        if name == "H":
            return Top("H")
        if name == "is_cuda":
            return Cond("opq", ("is_cuda",)) if "is_cuda" not in it.config else it.config["is_cuda"]
        if name == "grad":
            return Top("grad")
        if name == "requires_grad":
            return Cond("opq", ("requires_grad",))
        if name == "layout":
            return ExtObj("layout")
        if name == "is_sparse":
            return o.sparse
        if name == "size":
            return Method(o, name)
        if name in o.meta and name not in METHODS:
            return o.meta[name]
        if name in ("index_select",) or name in METHODS or name in UNARY or name.rstrip("_") in UNARY or name.rstrip("_") in METHODS:
            return Method(o, name)
        return Method(o, name)
    if isinstance(o, DT):
        if name == "is_complex":
            if o.name is None:
                return Cond("opq", ("dtcomplex",))
            return o.name.startswith("complex")
        if name == "is_floating_point":
            if o.name is None:
                return Cond("opq", ("dtfloat",))
            return o.name in ("float16", "bfloat16", "float32", "float64")
        if name == "itemsize":
            return {"float16": P(2), "bfloat16": P(2), "float32": P(4), "float64": P(8)}.get(o.name, Top("itemsize"))
        return Method(o, name)
    if isinstance(o, ExtObj):
        if name in o.attrs:
            return o.attrs[name]
        if name == "type" and o.name == "device":
            return it.config.get("device", Top("device.type"))
        if name == "weight" or name == "bias":
            return Top(name)
        return Method(o, name)
    if isinstance(o, (L, dict, str, tuple, Fam, GRanks, Poly)):
        if isinstance(o, Poly) and name in ("real", "imag"):
            return T.re_im(o)[0 if name == "real" else 1]
        return Method(o, name)
    if isinstance(o, Group):
        return Method(o, name)
    if isinstance(o, Top):
        return Top("%s.%s" % (o.why, name))
    if isinstance(o, slice):
        return getattr(o, name, Top("slice attr"))
    return Top("attribute %s" % name)


def ext_attr(it, o, name):
    full = o.name + "." + name
    if full in it.overrides and not callable(it.overrides[full]):
        return it.overrides[full]
    if o.name in ("torch", "numpy", "np"):
        if name in DType.INFO or name in DType.ALIAS:
            if o.name == "numpy":
                return DT({"float_": "float64"}.get(name, name))
            return DT(name)
    if full in ("math.pi", "numpy.pi", "torch.pi"):
        return Poly.atom(("pi",))
    if full in ("torch.inf", "math.inf", "numpy.inf"):
        return Poly.atom(("sym", "inf"))
    if full == "numpy.newaxis":
        return None
    if full == "os.environ":
        return Ext("os.environ")
    if o.name.startswith("torch.version") or full.endswith(".__version__"):
        return Top(full)
    return Ext(full)


def str_method(it, s, name, args, kw, node):
    if all(isinstance(a, str) for a in args):
        try:
            r = getattr(s, name)(*args)
            if isinstance(r, list):
                return L(r)
            if isinstance(r, (str, bool, tuple)):
                return r
            if isinstance(r, int):
                return P(r)
        except Exception:
            pass
    if name == "join":
        x = it.iterate(args[0])
        if isinstance(x, list) and all(isinstance(y, str) for y in x):
            return s.join(x)
    if name == "format":
        return "{?}"
    return Top("str." + name)


def dict_method(it, d, name, args, kw, node):
    if name == "get":
        k = it.hkey(args[0])
        if k in d:
            return d[k]
        if isinstance(args[0], (Top, Cond)) or (isinstance(args[0], Poly) and args[0].intval() is None):
            return Top("dict.get")
        return args[1] if len(args) > 1 else None
    if name == "items":
        return L([(it.unhkey(k), v) for k, v in d.items()])
    if name == "keys":
        return L([it.unhkey(k) for k in d])
    if name == "values":
        return L(list(d.values()))
    if name == "pop":
        k = it.hkey(args[0])
        if k in d:
            return d.pop(k)
        return args[1] if len(args) > 1 else Top("dict.pop")
    if name == "setdefault":
        return d.setdefault(it.hkey(args[0]), args[1] if len(args) > 1 else None)
    if name == "update":
        if args and isinstance(args[0], dict):
            d.update(args[0])
        for k, v in kw.items():
            d[k] = v
        return None
    if name == "copy":
        return dict(d)
    return Top("dict." + name)


def list_method(it, l, name, args, kw, node):
    if name == "append":
        if it.loops and it.loops[-1] is not None and l.uid < it.loops[-1]["uid"]:
            rec = it.loops[-1]
            rec["appends"].append((l, args[0]))
            return None
        if it.loops and it.loops[-1] is None:
            l.items.append(Top("appended in loop"))
            return None
        l.items.append(args[0])
        return None
    if name == "extend":
        x = it.iterate(args[0])
        if isinstance(x, list):
            l.items += x
        else:
            l.items.append(Top("extend"))
        return None
    if name == "insert" and isinstance(args[0], Poly) and args[0].intval() is not None:
        l.items.insert(args[0].intval(), args[1])
        return None
    if name == "pop":
        if l.fam is None and l.items:
            k = args[0].intval() if args and isinstance(args[0], Poly) else -1
            if k is not None and -len(l.items) <= k < len(l.items):
                return l.items.pop(k)
        return Top("list.pop")
    if name == "index":
        for i, x in enumerate(l.items):
            if it.compare(ast.Eq(), x, args[0]) is True:
                return P(i)
        return Top("list.index")
    if name == "copy":
        r = L(l.items)
        r.fam = l.fam
        return r
    if name == "reverse":
        l.items.reverse()
        return None
    if name == "sort" and l.fam is None:
        r = sort_list(it, l.items, kw, node)
        if r is None:
            l.items = [Top("sorted") for _ in l.items]
        else:
            l.items = r
        return None
    return Top("list." + name)


def sort_list(it, xs, kw, node):
    """sorting of a list whose keys are known numbers (stable, as Python's)"""
    def key(v):
        if isinstance(v, tuple):
            ks = [key(w) for w in v]
            return None if any(k is None for k in ks) else tuple(ks)
        if isinstance(v, bool):
            return Fraction(int(v))
        return v.constval() if isinstance(v, Poly) and v.is_const() else None
    f = kw.get("key")
    ks = [key(it.call(f, [v], {}, node) if f is not None else v) for v in xs]
    if any(k is None for k in ks) or not isinstance(kw.get("reverse", False), bool):
        return None
    return [xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i], reverse=kw.get("reverse", False))]


def ten_method(it, t, name, args, kw, node):
    if "keepdims" in kw:
        kw = dict(kw)
        kw["keepdim"] = kw.pop("keepdims")
    A = list(args)
    if name in ("view", "reshape"):
        if len(A) == 1 and isinstance(A[0], DT):
            return Top("view dtype")
        if not A and "shape" in kw:
            A = [kw["shape"]]
        return reshape(it, t, shape_args(it, A), node)
    if name in ("view_as", "reshape_as"):
        return reshape(it, t, A[0].shape, node) if isinstance(A[0], Ten) else Top(name)
    if name == "permute":
        s = shape_args(it, A if A else [kw.get("dims")])
        if s is None:
            return Top("permute")
        ks = [dimof(it, t, d, node) for d in s]
        if any(k is None for k in ks) or sorted(ks) != list(range(len(t.axes))):
            it.event("dim", "permute%s of a tensor with %d dimensions" % (tuple(ks), len(t.axes)), node)
            return Top("permute")
        return permute(t, ks)
    if name in ("transpose", "swapaxes", "swapdims"):
        if len(A) < 2:
            A = [kw.get("dim0", A[0] if A else None), kw.get("dim1")]
        return transpose2(it, t, A[0], A[1], node)
    if name == "t":
        return transpose2(it, t, P(0), P(1), node)
    if name in ("movedim", "moveaxis"):
        i, j = dimof(it, t, A[0], node), dimof(it, t, A[1], node)
        if i is None or j is None:
            return Top("movedim")
        ax = list(t.axes)
        a = ax.pop(i)
        ax.insert(j, a)
        return view_like(t, ax, t.expr)
    if name == "flatten" or name == "ravel":
        s = dimof(it, t, arg(A, kw, 0, "start_dim", P(0)), node)
        e = dimof(it, t, arg(A, kw, 1, "end_dim", P(-1)), node)
        if s is None or e is None or not t.axes:
            return Top("flatten")
        p = T.ONE
        for x in t.shape[s:e + 1]:
            p = p * x
        return reshape(it, t, t.shape[:s] + [p] + t.shape[e + 1:], node)
    if name == "unflatten":
        k = dimof(it, t, A[0], node)
        s = shape_args(it, [A[1]])
        if k is None or s is None:
            return Top("unflatten")
        if any(x.constval() == -1 for x in s):
            rest = t.shape[k]
            for x in s:
                if x.constval() != -1:
                    rest = T.divide_exact(rest, x) if rest is not None else None
            if rest is None:
                return Top("unflatten")
            s = [rest if x.constval() == -1 else x for x in s]
        return reshape(it, t, t.shape[:k] + s + t.shape[k + 1:], node)
    if name in ("unsqueeze", "unsqueeze_"):
        k = dimof(it, t, arg(A, kw, 0, "dim"), node, extra=1)
        if k is None:
            return Top("unsqueeze")
        return view_like(t, t.axes[:k] + [T.new_axis(1)] + t.axes[k:], t.expr)
    if name in ("squeeze", "squeeze_"):
        d = arg(A, kw, 0, "dim")
        if d is None:
            axes, env = [], {}
            for a in t.axes:
                if may_be_one(it, T.axsize(a), node):
                    env[a] = T.ZERO
                else:
                    axes.append(a)
            return view_like(t, axes, T.subst(t.expr, env) if t.expr is not None else None)
        k = dimof(it, t, d, node)
        if k is None:
            return Top("squeeze")
        if may_be_one(it, T.axsize(t.axes[k]), node):
            return view_like(t, t.axes[:k] + t.axes[k + 1:], T.subst(t.expr, {t.axes[k]: T.ZERO}) if t.expr is not None else None)
        return t
    if name in ("expand", "broadcast_to", "expand_as"):
        s = A[0].shape if name == "expand_as" and isinstance(A[0], Ten) else shape_args(it, A)
        if s is None:
            return Top("expand")
        axes = []
        env = {}
        extra = len(s) - len(t.axes)
        if extra < 0:
            it.event("dim", "expand to fewer dimensions", node)
            return Top("expand")
        for i, x in enumerate(s):
            if i < extra:
                axes.append(T.new_axis(x))
                continue
            a = t.axes[i - extra]
            if x.constval() == -1 or it.same(x, T.axsize(a)):
                axes.append(a)
            elif is_one(T.axsize(a)):
                na = T.new_axis(x)
                env[a] = T.ZERO
                axes.append(na)
            else:
                size_mismatch(it, "expand of size %s to %s" % (T.show(T.axsize(a)), T.show(x)), T.axsize(a), x, node)
                axes.append(T.new_axis(x))
        return view_like(t, axes, T.subst(t.expr, env) if t.expr is not None else None)
    if name in ("repeat", "tile"):
        s = shape_args(it, A)
        if s is None or len(s) < len(t.axes):
            return Top("repeat")
        extra = len(s) - len(t.axes)
        axes, env = [], {}
        for i, x in enumerate(s):
            if i < extra:
                axes.append(T.new_axis(x))
                continue
            a = t.axes[i - extra]
            if is_one(x):
                axes.append(a)
            else:
                na = T.new_axis(x * T.axsize(a))
                env[a] = T.mod(Poly.atom(na), T.axsize(a))
                axes.append(na)
        return fresh(axes, T.subst(t.expr, env) if t.expr is not None else None, t.dtype)
    if name == "repeat_interleave":
        n = A[0]
        d = arg(A, kw, 1, "dim")
        if isinstance(n, Poly) and isinstance(d, Poly):
            k = dimof(it, t, d, node)
            if k is None:
                return Top("repeat_interleave")
            a = t.axes[k]
            na = T.new_axis(T.axsize(a) * n)
            return fresh(t.axes[:k] + [na] + t.axes[k + 1:], T.subst(t.expr, {a: T.fdiv(Poly.atom(na), n)}) if t.expr is not None else None, t.dtype)
        return Top("repeat_interleave")
    if name in ("contiguous", "detach", "cpu", "cuda", "requires_grad_", "resolve_conj", "coalesce", "pin_memory", "numpy", "to_dense"):
        copied = name == "contiguous" and it.known.get(Cond("opq", ("is_contiguous", t.id)).key) is False
        r = Ten(t.axes, t.expr, t.dtype, FRESH if copied else t.org)
        r.sparse = t.sparse and name != "to_dense"
        r.meta = dict(t.meta)
        return r
    if name in ("clone", "copy"):
        r = Ten(t.axes, t.expr, t.dtype, FRESH)
        r.sparse = t.sparse
        return r
    if name in ("float", "double", "half", "bfloat16", "int", "long", "bool"):
        return cast(it, t, DT({"float": "float32", "double": "float64", "half": "float16", "bfloat16": "bfloat16", "int": "int32", "long": "int64", "bool": "bool"}[name]), node)
    if name in ("to", "type", "astype"):
        d = None
        for a in A + [kw.get("dtype")]:
            if isinstance(a, DT):
                d = a
            elif isinstance(a, Ten):
                d = a.dtype
        if d is None and A and isinstance(A[0], Top):
            return cast(it, t, UNK, node)
        if d is None:
            r = Ten(t.axes, t.expr, t.dtype, t.org)
            r.sparse = t.sparse
            return r
        return cast(it, t, d, node)
    if name == "type_as":
        return cast(it, t, A[0].dtype, node) if isinstance(A[0], Ten) else Top("type_as")
    if name == "size":
        if A or "dim" in kw:
            k = dimof(it, t, arg(A, kw, 0, "dim"), node)
            return t.shape[k] if k is not None else Top("size")
        return tuple(t.shape)
    if name in ("dim", "ndimension"):
        return P(len(t.axes))
    if name in ("numel", "nelement"):
        r = T.ONE
        for s in t.shape:
            r = r * s
        return r
    if name == "item":
        return t.expr if t.expr is not None and not t.axes else Top("item")
    if name == "tolist":
        def tl(v):
            if not isinstance(v, Ten):
                return v
            if not v.axes:
                return v.expr if v.expr is not None else Top("tolist")
            xs = it.iterate(v)
            if isinstance(xs, list):
                return L([tl(w) for w in xs])
            if isinstance(xs, Fam):
                r = L([])
                r.fam = Fam(xs.n, xs.idx, tl(xs.elem))
                return r
            return Top("tolist")
        return tl(t)
    if name in ("sum", "mean"):
        d = arg(A, kw, 0, "dim", kw.get("axis"))
        r = reduce_sum(it, t, d, arg(A, kw, 1, "keepdim", False) is True, node, mean=(name == "mean"))
        if isinstance(kw.get("dtype"), DT) and isinstance(r, Ten):
            r.dtype = kw["dtype"]
        return r
    if name in ("prod", "amax", "amin", "norm", "any", "all", "std", "var", "logsumexp", "argmax", "argmin"):
        d = arg(A, kw, 0, "dim", kw.get("axis")) if name != "norm" else kw.get("dim", A[1] if len(A) > 1 else None)
        dt = t.dtype
        if name in ("any", "all"):
            dt = DT("bool")
        if name in ("argmax", "argmin"):
            dt = DT("int64")
        if name == "norm":
            dt = to_real(dt)
        return reduce_other(it, name + (":" + str(it.keyof(kw.get("p", A[0] if A else None))) if name == "norm" else ""), t, d, kw.get("keepdim") is True, dt, node)
    if name in ("max", "min"):
        if A and isinstance(A[0], Ten):
            return ewise(it, name + "imum", [t, A[0]], promote_vals(t, A[0]))
        d = arg(A, kw, 0, "dim", kw.get("axis"))
        r = reduce_other(it, name, t, d, kw.get("keepdim") is True, t.dtype, node)
        if d is None:
            return r
        i = reduce_other(it, "arg" + name, t, d, kw.get("keepdim") is True, DT("int64"), node)
        return (r, i)
    if name in ("softmax", "log_softmax"):
        return softmax(it, name, t, arg(A, kw, 0, "dim"), node)
    if name in ("cumsum", "cumprod", "sort", "argsort", "flip", "roll", "nan_to_num", "tril", "triu"):
        if name == "flip":
            ds = it.iterate(A[0]) if A and isinstance(A[0], (L, tuple)) else (A if A else it.iterate(kw.get("dims", kw.get("axis"))) if not isinstance(kw.get("dims", kw.get("axis")), Poly) else [kw.get("dims", kw.get("axis"))])
            if not isinstance(ds, list):
                return Top("flip")
            env = {}
            for d in ds:
                k = dimof(it, t, d, node)
                if k is None:
                    return Top("flip")
                a = t.axes[k]
                env[a] = T.axsize(a) - 1 - Poly.atom(a)
            return fresh(t.axes, T.subst(t.expr, env) if t.expr is not None else None, t.dtype)
        if name == "roll":
            sh = arg(A, kw, 0, "shifts")
            d = arg(A, kw, 1, "dims")
            sh = it.iterate(sh) if isinstance(sh, (L, tuple)) else [sh]
            ds = it.iterate(d) if isinstance(d, (L, tuple)) else [d]
            if not all(isinstance(s, Poly) for s in sh) or not all(isinstance(x, Poly) for x in ds):
                return Top("roll")
            env = {}
            for s, dd in zip(sh, ds):
                k = dimof(it, t, dd, node)
                if k is None:
                    return Top("roll")
                a = t.axes[k]
                env[a] = rank_mod(it, Poly.atom(a) - s, T.axsize(a))
            return fresh(t.axes, T.subst(t.expr, env) if t.expr is not None else None, t.dtype)
        dg = arg(A, kw, 0, "diagonal", P(0))
        if name in ("tril", "triu") and len(t.axes) >= 2 and isinstance(dg, Poly):
            i, j = Poly.atom(t.axes[-2]), Poly.atom(t.axes[-1])
            c = ("fn", "cmp_le", j, i + dg) if name == "tril" else ("fn", "cmp_le", i + dg, j)
            z = fresh(t.axes, T.ZERO, t.dtype)
            return ewise(it, "where", [fresh(t.axes, Poly.atom(c), DT("bool")), t, z], t.dtype)
        return opq_ten(it, name, [t] + A, t.shape, t.dtype)
    if name == "narrow":
        k = dimof(it, t, arg(A, kw, 0, "dim"), node)
        st, ln = arg(A, kw, 1, "start"), arg(A, kw, 2, "length")
        if k is None or not isinstance(st, Poly) or not isinstance(ln, Poly):
            return Top("narrow")
        a = t.axes[k]
        S = T.axsize(a)
        if it.static(Cond("gt", st + ln - S)) is True:
            it.event("size", "narrow(%s, %s) exceeds the dimension size %s" % (T.show(st), T.show(ln), T.show(S)), node)
        na = T.new_axis(ln)
        return view_like(t, t.axes[:k] + [na] + t.axes[k + 1:], T.subst(t.expr, {a: st + Poly.atom(na)}) if t.expr is not None else None)
    if name == "select":
        k = dimof(it, t, A[0], node)
        if k is None or not isinstance(A[1], Poly):
            return Top("select")
        return index(it, t, tuple([slice(None)] * k + [A[1]]), node)
    if name == "split":
        return torch_split(it, t, arg(A, kw, 0, "split_size", kw.get("split_size_or_sections")), arg(A, kw, 1, "dim", P(0)), node)
    if name in ("chunk", "tensor_split"):
        n = arg(A, kw, 0, "chunks")
        k = dimof(it, t, arg(A, kw, 1, "dim", P(0)), node)
        if isinstance(n, Poly) and k is not None:
            q = T.divide_exact(t.shape[k], n)
            if q is not None:
                if n.intval():
                    return torch_split(it, t, L([q] * n.intval()), P(k), node)
                return torch_split(it, t, q, P(k), node)
            sz = T.fdiv(t.shape[k] + n - 1, n)
            if name == "chunk":
                return torch_split(it, t, sz, P(k), node)
        return Top("chunk")
    if name == "unbind":
        d = arg(A, kw, 0, "dim", P(0))
        k = dimof(it, t, d, node)
        if k is not None and t.shape[k].intval() is not None:
            return tuple(index(it, t, tuple([slice(None)] * k + [P(i)]), node) for i in range(t.shape[k].intval()))
        return Top("unbind")
    if name in ("index_select", "take_along_dim"):
        k = dimof(it, t, arg(A, kw, 0, "dim"), node)
        i = arg(A, kw, 1, "index")
        if k is not None and isinstance(i, Ten) and name == "index_select":
            return adv_index(it, t, tuple([slice(None)] * k + [i]), node)
        return Top(name)
    if name in ("add", "sub", "mul", "div", "pow", "true_divide", "floor_divide", "remainder", "multiply"):
        b = arg(A, kw, 0, "other")
        al = kw.get("alpha")
        if isinstance(b, (Ten, Poly)):
            if isinstance(al, Poly):
                b = binop(it, ast.Mult(), b, al, node)
            return binary(it, {"floor_divide": "floordiv", "multiply": "mul"}.get(name, name), t, b, node)
        return Top(name)
    if name in ("matmul", "mm", "bmm", "dot"):
        return matmul(it, t, A[0], node)
    if name in ("lt", "gt", "le", "ge", "eq", "ne"):
        return ewise(it, "cmp_" + name, [t, A[0]], DT("bool"))
    if name in ("maximum", "minimum", "atan2", "arctan2", "fmod", "logical_and", "logical_or", "hypot"):
        return ewise(it, name, [t, A[0]], promote_vals(t, A[0]) if isinstance(A[0], (Ten, Poly)) else UNK)
    if name == "neg":
        return binary(it, "mul", P(-1), t, node)
    if name in ("conj", "conj_physical"):
        if t.expr is None:
            return t
        re, im = T.re_im(t.expr)
        return Ten(t.axes, re - T.I * im, t.dtype, t.org)
    if name in ("clamp", "clip"):
        lo, hi = arg(A, kw, 0, "min"), arg(A, kw, 1, "max")
        if t.expr is None:
            return fresh(t.axes, None, t.dtype)
        return fresh(t.axes, Poly.atom(("fn", "clamp", t.expr, it.keyof(lo), it.keyof(hi))), t.dtype)
    if name in ("masked_fill",):
        return ewise(it, "masked_fill", [t] + A[:2], t.dtype)
    if name in ("scatter_add", "scatter_add_"):
        return scatter_add(it, t, arg(A, kw, 0, "dim"), arg(A, kw, 1, "index"), arg(A, kw, 2, "src"), node, name.endswith("_"))
    if name in ("index_add", "index_add_"):
        return index_add(it, t, arg(A, kw, 0, "dim"), arg(A, kw, 1, "index"), arg(A, kw, 2, "source"), kw.get("alpha"), node, name.endswith("_"))
    if name in ("argwhere", "nonzero") and not A and not kw:
        return argwhere(it, t)
    if name == "nonzero" and kw.get("as_tuple") is True:
        w = argwhere(it, t)
        return tuple(index(it, w, (slice(None), P(j)), node) for j in range(len(t.axes))) if isinstance(w, Ten) else w
    if name == "where":
        return ewise(it, "where", [A[0], t, A[1]], t.dtype) if len(A) == 2 else Top("where")
    if name == "is_floating_point":
        return t.dtype.name in ("float16", "bfloat16", "float32", "float64") if t.dtype.name else Cond("opq", ("isfloat",))
    if name == "is_complex":
        return t.dtype.name.startswith("complex") if t.dtype.name else Cond("opq", ("iscomplex",))
    if name == "is_contiguous":
        if "is_contiguous" in it.config:
            return it.config["is_contiguous"]
        return Cond("opq", ("is_contiguous", t.id))
    if name in ("new_zeros", "new_empty", "new_ones", "new_full"):
        k2 = dict(kw)
        k2.setdefault("dtype", t.dtype)
        return creation(it, name[4:], A, k2, node)
    if name.endswith("_") and not name.endswith("__"):
        return inplace(it, t, name, A, kw, node)
    if name in UNARY:
        return unary(it, name, t, node)
    if name == "real" or name == "imag":
        return value_attr(it, t, name, node)
    if name in ("stride", "data_ptr", "element_size", "storage_offset", "get_device"):
        return Top(name)
    if name in ("indices", "values"):
        if t.sparse:
            return opq_ten(it, "sparse_" + name, [dense_view(t)], [P(len(t.axes)), T.sym("nnz")] if name == "indices" else [T.sym("nnz")], DT("int64") if name == "indices" else t.dtype)
        return Top(name)
    if name == "diff":
        k = dimof(it, t, kw.get("dim", P(-1)), node)
        if k is None or A:
            return Top("diff")
        a = t.axes[k]
        na = T.new_axis(T.axsize(a) - 1)
        e = None if t.expr is None else T.subst(t.expr, {a: Poly.atom(na) + 1}) - T.subst(t.expr, {a: Poly.atom(na)})
        return fresh(t.axes[:k] + [na] + t.axes[k + 1:], e, t.dtype)
    if name == "lerp" and len(A) == 2:
        return lerp(it, t, A[0], A[1], node)
    if name == "searchsorted" and A:
        return searchsorted(it, t, A[0], kw, node)
    if name == "gather":
        return Top("gather")
    return call_unknown(it, "tensor." + name, [t] + A, kw, node)


def inplace(it, t, name, A, kw, node):
    base = name[:-1]
    it.mutate(t, node, "in-place %s" % name)
    if base in ("add", "sub", "mul", "div", "pow") and A and isinstance(A[0], (Ten, Poly)):
        r = ten_method(it, t, base, A, kw, node)
        if isinstance(r, Ten):
            t.axes, t.expr = r.axes, r.expr
    elif base == "zero":
        t.expr = T.ZERO
    elif base == "fill" and A and isinstance(A[0], Poly):
        t.expr = A[0]
    elif base == "copy" and A and isinstance(A[0], Ten):
        _, (x, y) = broadcast(it, [t, A[0]], node, "copy_")
        r = Ten(_, y, t.dtype)
        t.axes, t.expr = r.axes, r.expr
    elif base in ("clamp", "neg") or base in UNARY:
        r = ten_method(it, t, base, A, kw, node)
        if isinstance(r, Ten):
            t.axes, t.expr = r.axes, r.expr
    else:
        t.expr = Poly.atom(("T", ("op", name, it.keyof(t)) + tuple(it.keyof(a) for a in A), tuple(Poly.atom(a) for a in t.axes))) if t.expr is not None else None
    return t


# ---------------------------------------------------------------- builtins
def call_builtin(it, nm, args, kw, node):
    a = args[0] if args else None
    if nm == "len":
        x = it.iterate(a)
        if isinstance(x, list):
            return P(len(x))
        if isinstance(x, Fam):
            return x.n
        if isinstance(a, Ten) and a.axes:
            return a.shape[0]
        if isinstance(a, GRanks):
            return a.group.size()
        return Top("len")
    if nm == "range":
        lo, hi, st = T.ZERO, a, T.ONE
        if len(args) >= 2:
            lo, hi = args[0], args[1]
        if len(args) == 3:
            st = args[2]
        lo, hi, st = [x.expr if isinstance(x, Ten) and not x.axes and x.expr is not None else x for x in (lo, hi, st)]
        if not all(isinstance(x, Poly) for x in (lo, hi, st)):
            return Top("range")
        if all(x.intval() is not None for x in (lo, hi, st)) and st.intval():
            r = range(lo.intval(), hi.intval(), st.intval())
            if len(r) <= 300:
                return tuple(P(i) for i in r)
        if st == T.ONE:
            n = hi - lo
            fi = new_fi(n)
            return Fam(n, fi, lo + Poly.atom(fi))
        if st == P(-1):
            n = lo - hi
            fi = new_fi(n)
            return Fam(n, fi, lo - Poly.atom(fi))
        n = T.fdiv(hi - lo + st - 1, st)
        fi = new_fi(n)
        return Fam(n, fi, lo + st * Poly.atom(fi))
    if nm in ("max", "min"):
        if len(args) == 1 and isinstance(a, Ten) and len(a.axes) == 1:
            return reduce_other(it, nm, a, None, False, a.dtype, node)
        if len(args) == 1:
            x = it.iterate(a)
        else:
            x = list(args)
        if isinstance(x, list) and x and all(isinstance(v, Poly) for v in x):
            return (T.pmax if nm == "max" else T.pmin)(*x)
        if isinstance(x, Fam) and isinstance(x.elem, Poly):
            if x.idx not in T.freevars(x.elem):
                return x.elem
            d = 1 + T.depth(x.elem)
            return Poly.atom(("f" + nm, x.n, T.subst(x.elem, {x.idx: Poly.atom(("bv", d, 0))})))
        return Top(nm)
    if nm == "sum":
        x = it.iterate(a)
        if isinstance(x, list):
            r = args[1] if len(args) > 1 else P(0)
            for v in x:
                r = binop(it, ast.Add(), r, v, node)
            return r
        if isinstance(x, Fam):
            return fsum(it, x)
        return Top("sum")
    if nm == "abs":
        return unary(it, "abs", a, node) if isinstance(a, (Poly, Ten)) else Top("abs")
    if nm == "round":
        return unary(it, "round", a, node) if isinstance(a, Poly) else Top("round")
    if nm == "int":
        if isinstance(a, Poly):
            c = a.constval()
            if c is not None:
                return P(int(c))
            if all(x.denominator == 1 for x in a.t.values()) and not any(z[0] in ("fn", "inv", "pi") for m in a.t for z, _ in m):
                return a
            return Poly.atom(("fn", "int", a))
        if isinstance(a, bool):
            return P(int(a))
        if isinstance(a, Ten) and not a.axes and a.expr is not None:
            return a.expr
        if isinstance(a, Cond):
            return Poly.atom(("fn", "boolint", str(a.key)))
        return Top("int")
    if nm == "float":
        if isinstance(a, Poly):
            return a
        if isinstance(a, Ten) and not a.axes and a.expr is not None:
            return a.expr
        if isinstance(a, str) and a in ("inf", "-inf"):
            return Poly.atom(("sym", "inf")) * (1 if a == "inf" else -1)
        return Top("float")
    if nm == "bool":
        return it.truth(a, node)
    if nm == "str":
        return a if isinstance(a, str) else (str(a.intval()) if isinstance(a, Poly) and a.intval() is not None else "{?}")
    if nm == "list":
        x = it.iterate(a) if args else []
        if isinstance(x, list):
            return L(x)
        if isinstance(x, Fam):
            l = L([])
            l.fam = x
            return l
        return Top("list")
    if nm in ("tuple", "set", "frozenset"):
        x = it.iterate(a) if args else []
        if isinstance(x, list):
            return tuple(x)
        return x if isinstance(x, Fam) else Top("tuple")
    if nm == "dict":
        if not args:
            return {k: v for k, v in kw.items() if k is not None}
        if isinstance(a, dict):
            d = dict(a)
            d.update(kw)
            return d
        x = it.iterate(a)
        if isinstance(x, list):
            try:
                return {it.hkey(k): v for k, v in x}
            except Exception:
                return Top("dict")
        return Top("dict")
    if nm == "zip":
        xs = [it.iterate(x) for x in args]
        if all(isinstance(x, list) for x in xs):
            return tuple(tuple(z) for z in zip(*xs))
        if all(isinstance(x, Fam) for x in xs):
            fi = new_fi(xs[0].n)
            return Fam(xs[0].n, fi, tuple(subst_value(x.elem, {x.idx: Poly.atom(fi)}) for x in xs))
        return Top("zip")
    if nm == "enumerate":
        x = it.iterate(a)
        st = arg(args, kw, 1, "start", P(0))
        if isinstance(x, list):
            return tuple((P(i) + st, v) for i, v in enumerate(x))
        if isinstance(x, Fam):
            return Fam(x.n, x.idx, (Poly.atom(x.idx) + st, x.elem))
        return Top("enumerate")
    if nm == "reversed":
        x = it.iterate(a)
        if isinstance(x, list):
            return tuple(reversed(x))
        if isinstance(x, Fam):
            fi = new_fi(x.n)
            return Fam(x.n, fi, subst_value(x.elem, {x.idx: x.n - 1 - Poly.atom(fi)}))
        return Top("reversed")
    if nm == "sorted":
        x = it.iterate(a)
        r = sort_list(it, x, kw, node) if isinstance(x, list) else None
        return L(r) if r is not None else Top("sorted")
    if nm == "map":
        xs = it.iterate(args[1])
        if isinstance(xs, list):
            return tuple(it.call(a, [v], {}, node) for v in xs)
        if isinstance(xs, Fam):
            return Fam(xs.n, xs.idx, it.call(a, [xs.elem], {}, node))
        return Top("map")
    if nm in ("any", "all"):
        x = it.iterate(a)
        if isinstance(x, list):
            cs = [it.truth(v, node) for v in x]
            if nm == "any":
                if any(c is True for c in cs):
                    return True
                cs = [c for c in cs if c is not False]
                return False if not cs else (cs[0] if len(cs) == 1 else Cond("or", *cs))
            if any(c is False for c in cs):
                return False
            cs = [c for c in cs if c is not True]
            return True if not cs else (cs[0] if len(cs) == 1 else Cond("and", *cs))
        return Cond("opq", ("anyall", next(T._counter)))
    if nm == "divmod":
        b = args[1]
        if isinstance(a, Poly) and isinstance(b, Poly):
            return (T.fdiv(a, b), rank_mod(it, a, b))
        return Top("divmod")
    if nm == "isinstance":
        return isinst(it, a, args[1])
    if nm == "getattr":
        if isinstance(args[1], str):
            if isinstance(a, Obj) and args[1] not in a.attrs and it.classattr(a.cls, args[1]) is MISSING and len(args) > 2:
                return args[2]
            return it.getattr(a, args[1], node)
        return Top("getattr")
    if nm == "hasattr":
        if isinstance(a, Obj) and isinstance(args[1], str):
            return args[1] in a.attrs or it.classattr(a.cls, args[1]) is not MISSING
        return Cond("opq", ("hasattr", str(it.keyof(a)), str(args[1])))
    if nm == "setattr":
        if isinstance(args[1], str):
            it.setattr(a, args[1], args[2], node)
        return None
    if nm == "print":
        return None
    if nm == "slice":
        x = list(args)
        if len(x) == 1:
            return slice(None, x[0], None)
        return slice(x[0], x[1], x[2] if len(x) > 2 else None)
    if nm == "type":
        if isinstance(a, Obj):
            return a.cls
        return Top("type")
    if nm == "callable":
        return isinstance(a, (Fn, Bound, Method, Ext, Cls))
    if nm == "pow":
        return binop(it, ast.Pow(), args[0], args[1], node)
    if nm == "complex":
        return args[0] + T.I * args[1] if len(args) == 2 and all(isinstance(x, Poly) for x in args) else Top("complex")
    if nm == "next":
        x = it.iterate(a)
        return x[0] if isinstance(x, list) and x else Top("next")
    if nm == "iter":
        return a
    if nm.endswith("Error") or nm.endswith("Exception") or nm.endswith("Warning"):
        return ExtObj("builtins." + nm, args, kw)
    return Top(nm)


def isinst(it, v, cls):
    cl = it.iterate(cls) if isinstance(cls, (tuple, L)) else [cls]
    names = [c.name.split(".")[-1] if isinstance(c, (Ext, Cls)) else "?" for c in cl]
    res = []
    for c, n in zip(cl, names):
        if isinstance(v, Ten):
            res.append(n in ("Tensor", "Parameter") and (n != "Parameter" or bool(v.param)))
        elif isinstance(v, Poly):
            c0 = v.constval()
            isint = c0 is None or c0.denominator == 1
            res.append((n in ("int", "Integral", "Number", "integer") and isint) or (n in ("float", "Real") and not isint))
        elif isinstance(v, bool) or isinstance(v, Cond):
            res.append(n in ("bool", "int"))
        elif isinstance(v, str):
            res.append(n == "str")
        elif isinstance(v, tuple):
            res.append(n in ("tuple", "Sequence", "Iterable", "Size"))
        elif isinstance(v, (L, Fam)):
            res.append(n in ("list", "Sequence", "Iterable"))
        elif isinstance(v, dict):
            res.append(n in ("dict", "Mapping"))
        elif v is None:
            res.append(n == "NoneType")
        elif isinstance(v, Obj):
            if isinstance(c, Cls) and v.cls is not None:
                res.append(any(x is c or (isinstance(x, Cls) and x.qual == c.qual) for x in it.mro(v.cls)))
            elif isinstance(c, Ext) and v.cls is not None:
                res.append(any(isinstance(x, Ext) and x.name.split(".")[-1] == n for x in it.mro(v.cls)))
            else:
                res.append(False)
        elif isinstance(v, ExtObj):
            res.append(v.name.split(".")[-1] == n or n == "Module" and v.name.startswith("torch.nn."))
        elif isinstance(v, Top):
            return Cond("opq", ("isinstance", str(v.why), tuple(names)))
        else:
            res.append(False)
    return any(res)


# ---------------------------------------------------------------- torch.distributed
def getgroup(it, args, kw, i):
    g = arg(args, kw, i, "group")
    return g


def rec_coll(it, op, g, tens, node):
    it.trace.append((op, g.name if isinstance(g, Group) else str(g), [tuple(t.shape) if isinstance(t, Ten) else None for t in tens], it.loc(node), len(it.taken)))


def call_dist(it, nm, args, kw, node):
    if nm == "get_world_size":
        g = getgroup(it, args, kw, 0)
        if isinstance(g, Group):
            return g.size()
        if g is None:
            return Poly.atom(("sym", "world_size"))
        return Top("world_size")
    if nm == "get_rank":
        g = getgroup(it, args, kw, 0)
        if isinstance(g, Group):
            return g.rank()
        if g is None:
            return GRank("world", Poly.atom(("rank", "world")))
        return Top("rank")
    if nm == "get_process_group_ranks":
        return GRanks(args[0]) if isinstance(args[0], Group) else Top("ranks")
    if nm == "is_initialized" or nm == "is_available":
        return True
    if nm == "destroy_process_group":
        return None
    if nm in ("isend", "irecv") and not args:
        return Ext("torch.distributed." + nm)
    if nm == "P2POp":
        o = ExtObj("p2pop", args, kw)
        o.attrs = {"kind": args[0].name.split(".")[-1] if isinstance(args[0], Ext) else "?", "tensor": arg(args, kw, 1, "tensor"), "peer": arg(args, kw, 2, "peer"), "group": arg(args, kw, 3, "group"), "tag": kw.get("tag"), "loc": it.loc(node)}
        return o
    if nm == "batch_isend_irecv":
        ops = it.iterate(args[0])
        if isinstance(ops, list):
            p2p_run(it, ops, node)
            return tuple(ExtObj("req") for _ in ops)
        return Top("p2p")
    if nm in ("isend", "irecv", "send", "recv"):
        o = ExtObj("p2pop", args, kw)
        o.attrs = {"kind": nm if nm.startswith("i") else "i" + nm, "tensor": args[0], "peer": arg(args, kw, 1, "dst" if "send" in nm else "src"), "group": arg(args, kw, 2, "group"), "tag": kw.get("tag"), "loc": it.loc(node)}
        p2p_run(it, [o], node)
        return ExtObj("req")
    if nm == "barrier":
        return None
    g = None
    if nm == "all_reduce":
        t = args[0] if args else kw.get("tensor")
        g = kw.get("group", args[2] if len(args) > 2 else None)
        rec_coll(it, nm, g, [t], node)
        op = kw.get("op", args[1] if len(args) > 1 else None)
        if not isinstance(t, Ten):
            return None
        it.mutate(t, node, "dist.all_reduce")
        if isinstance(op, Ext) and not op.name.endswith("SUM"):
            t.expr = None if t.expr is None else Poly.atom(("fn", "allreduce:" + op.name.split(".")[-1], t.expr))
            return None
        if not isinstance(g, Group):
            it.event("group", "all_reduce over %r instead of a registered process group" % (g,), node)
            t.expr = None
            return None
        if g.many and t.expr is not None:
            rk = ("rank", g.name)
            for s in t.shape:
                if rk in T.freevars(s):
                    it.event("size", "all_reduce over %s of a tensor whose size %s differs between the ranks" % (g.name, T.show(s)), node)
            r = T.new_axis(g.size())
            t.expr = T.sum_over(T.subst(t.expr, {rk: Poly.atom(r)}), [r])
        return None
    if nm in ("all_to_all", "all_gather", "reduce_scatter"):
        g = kw.get("group", args[2] if len(args) > 2 and isinstance(args[2], Group) else (args[3] if len(args) > 3 else None))
        return coll_list(it, nm, args, kw, g, node)
    if nm in ("all_gather_into_tensor", "reduce_scatter_tensor", "all_to_all_single", "broadcast", "all_gather_object", "gather", "scatter"):
        g = kw.get("group")
        rec_coll(it, nm, g, [a for a in args if isinstance(a, Ten)], node)
        for a in args[:1]:
            if isinstance(a, Ten):
                it.mutate(a, node, "dist." + nm)
                a.expr = None
        return None
    return Top("dist." + nm)


def check_same_shape(it, a, b, what, node):
    if len(a.axes) != len(b.axes):
        it.event("dim", "%s: %d vs %d dimensions" % (what, len(a.axes), len(b.axes)), node)
        return
    for i, (x, y) in enumerate(zip(a.shape, b.shape)):
        if not it.same(x, y):
            size_mismatch(it, "%s, dimension %d: buffer has size %s, data has size %s" % (what, i, T.show(x), T.show(y)), x, y, node)


def _as_fam(it, v, g):
    x = it.iterate(v)
    return x


def coll_list(it, nm, args, kw, g, node):
    if not isinstance(g, Group):
        it.event("group", "%s over %r instead of a registered process group" % (nm, g), node)
        return None
    rk = ("rank", g.name)
    if nm == "all_to_all":
        recv = args[0] if args else kw.get("output_tensor_list")
        send = args[1] if len(args) > 1 else kw.get("input_tensor_list")
        s = it.iterate(send)
        r = it.iterate(recv)
        rec_coll(it, nm, g, [], node)
        if not g.many:
            return None
        if not (isinstance(s, Fam) and isinstance(r, Fam) and isinstance(s.elem, Ten) and isinstance(r.elem, Ten) and isinstance(recv, L)):
            _spoil(recv)
            it.undecided.append(("all_to_all lists not understood", it.loc(node)))
            return None
        if not it.same(s.n, g.size()):
            size_mismatch(it, "all_to_all over %s with %s send buffers" % (g.name, T.show(s.n)), s.n, g.size(), node)
        if not it.same(r.n, g.size()):
            size_mismatch(it, "all_to_all over %s with %s receive buffers" % (g.name, T.show(r.n)), r.n, g.size(), node)
        j = new_fi(g.size())
        exp = subst_value(s.elem, {s.idx: Poly.atom(rk), rk: Poly.atom(j)})
        buf = subst_value(r.elem, {r.idx: Poly.atom(j)})
        check_same_shape(it, buf, exp, "all_to_all over %s" % g.name, node)
        if buf.dtype != exp.dtype and buf.dtype.name and exp.dtype.name:
            it.event("dtype", "all_to_all receives %s into %s" % (exp.dtype, buf.dtype), node)
        el = Ten(buf.axes, _rename(exp, buf), buf.dtype, FRESH)
        recv.fam = Fam(g.size(), j, el)
        return ExtObj("req")
    if nm == "all_gather":
        lst = args[0] if args else kw.get("tensor_list")
        t = args[1] if len(args) > 1 else kw.get("tensor")
        r = it.iterate(lst)
        rec_coll(it, nm, g, [t], node)
        if not g.many:
            return None
        if not (isinstance(r, Fam) and isinstance(r.elem, Ten) and isinstance(t, Ten) and isinstance(lst, L)):
            _spoil(lst)
            it.undecided.append(("all_gather lists not understood", it.loc(node)))
            return None
        if not it.same(r.n, g.size()):
            size_mismatch(it, "all_gather over %s with %s buffers" % (g.name, T.show(r.n)), r.n, g.size(), node)
        j = new_fi(g.size())
        exp = subst_value(t, {rk: Poly.atom(j)})
        buf = subst_value(r.elem, {r.idx: Poly.atom(j)})
        check_same_shape(it, buf, exp, "all_gather over %s" % g.name, node)
        lst.fam = Fam(g.size(), j, Ten(buf.axes, _rename(exp, buf), buf.dtype, FRESH))
        return ExtObj("req")
    if nm == "reduce_scatter":
        out = args[0] if args else kw.get("output")
        lst = args[1] if len(args) > 1 else kw.get("input_list")
        s = it.iterate(lst)
        rec_coll(it, nm, g, [out], node)
        if isinstance(out, Ten):
            it.mutate(out, node, "dist.reduce_scatter")
        if not g.many:
            if isinstance(s, list) and isinstance(out, Ten) and isinstance(s[0], Ten):
                out.expr = _rename(s[0], out)
            return None
        if not (isinstance(s, Fam) and isinstance(s.elem, Ten) and isinstance(out, Ten)):
            if isinstance(out, Ten):
                out.expr = None
            it.undecided.append(("reduce_scatter list not understood", it.loc(node)))
            return None
        if not it.same(s.n, g.size()):
            size_mismatch(it, "reduce_scatter over %s with %s chunks" % (g.name, T.show(s.n)), s.n, g.size(), node)
        for sz in s.elem.shape:
            if rk in T.freevars(sz):
                it.event("size", "reduce_scatter over %s of chunks whose size %s differs between the ranks" % (g.name, T.show(sz)), node)
            if s.idx in T.freevars(it.simplify(sz)) and not _even(it, sz):
                j = T.new_axis(g.size())
                size_mismatch(it, "reduce_scatter over %s with unequal chunk sizes %s" % (g.name, T.show(sz)), sz, T.subst(sz, {s.idx: Poly.atom(j)}), node)
        r = T.new_axis(g.size())
        el = subst_value(s.elem, {s.idx: Poly.atom(rk), rk: Poly.atom(r)})
        check_same_shape(it, out, el, "reduce_scatter over %s" % g.name, node)
        ex = _rename(el, out)
        out.expr = T.sum_over(ex, [r]) if ex is not None else None
        return ExtObj("req")
    return None


def _even(it, sz):
    """unequal split sizes are fine on a path where min == max of that split was established"""
    for c in list(it.known):
        if it.known[c] is True and c[0] == "eq" and "fmax" in str(c[1]) and "fmin" in str(c[1]):
            return True
    return False


def _rename(src, dst):
    if src.expr is None:
        return None
    return T.subst(src.expr, {a: Poly.atom(b) for a, b in zip(src.axes, dst.axes)})


def _spoil(v):
    if isinstance(v, L):
        if v.fam is not None:
            v.fam.elem = Top("collective result")
        else:
            v.items = [Top("collective result") for _ in v.items]


def p2p_run(it, ops, node):
    """record and (for neighbour exchanges) resolve the contents of receive buffers"""
    it.nbatch = getattr(it, "nbatch", 0) + 1
    for o in ops:
        if isinstance(o, ExtObj) and o.name == "p2pop":
            o.attrs["batch"] = it.nbatch
    for o in ops:
        if isinstance(o, ExtObj) and o.name == "p2pop":
            t = o.attrs["tensor"]
            it.trace.append(("p2p:" + o.attrs["kind"], o.attrs["group"].name if isinstance(o.attrs["group"], Group) else "?", [o], o.attrs["loc"], len(it.taken)))
    sends = [o for o in ops if isinstance(o, ExtObj) and o.name == "p2pop" and o.attrs["kind"] == "isend"]
    recvs = [o for o in ops if isinstance(o, ExtObj) and o.name == "p2pop" and o.attrs["kind"] == "irecv"]
    for r in recvs:
        t = r.attrs["tensor"]
        if not isinstance(t, Ten):
            continue
        it.mutate(t, node, "dist.irecv")
        peer = r.attrs["peer"]
        g = r.attrs["group"]
        if not isinstance(g, Group) or not isinstance(peer, GRank) or not isinstance(peer.idx, Poly):
            t.expr = None
            continue
        hit = it.config.get("p2p_match", p2p_match)(it, r, sends)
        if hit is None:
            t.expr = Poly.atom(("T", "recv#%d" % next(T._counter), tuple(Poly.atom(a) for a in t.axes)))
        else:
            t.expr = hit


def p2p_match(it, r, sends):
    return None


# ---------------------------------------------------------------- summaries of repo functions
def summary(it, fn, args, kw, node):
    h = it.config.get("summaries", {}).get(fn.qual) or it.config.get("summaries", {}).get("*." + fn.name)
    if h is not None:
        return h(it, fn, args, kw, node)
    return MISSING
