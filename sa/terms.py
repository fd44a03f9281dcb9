"""Canonical value numbers for scalars and tensor elements.

A Poly is a polynomial with rational coefficients over hashable atoms.  It is used both for
sizes/scalars ("nlat", "split(nlat, size(polar), rank(polar))") and for *elements* of tensors in
index notation ("sum_k x[n,k,m] * w[m,l,k]").  Everything is kept in a normal form, so that two
values that are equal for reasons of linearity, index renaming, re-ordering or re-association get
the same value number.  There is no solver and no evaluation: only structural normalisation.

Atoms (tuples, first entry is the kind):
  ('sym', name)                 named positive integer / opaque scalar
  ('ax', id)                    a free axis index (its size is in AXSIZE)
  ('bv', depth, i)              canonical bound index
  ('split', S, n, i)            size of the i-th balanced chunk of S over n chunks
  ('off', S, n, i)              start of that chunk
  ('own', S, n, p)              chunk that owns position p
  ('T', name, (idx...))         element of an input/parameter/opaque tensor
  ('sum', ((bv,size)..), M)     sum over bound indices of a single monomial (factors only)
  ('delta', a)                  1 if the poly a == 0 else 0
  ('ind', a, lo, hi)            1 if lo <= a < hi else 0
  ('I',)                        imaginary unit
  ('inv', p) ('fdiv', p, q) ('mod', p, q) ('fn', name, args...) ...
"""
from fractions import Fraction
import hashlib
import itertools

_counter = itertools.count(1)
AXSIZE = {}          # axis id -> Poly


class TooBig(Exception):
    pass


MAXTERMS = 4000
_keycache = {}


def akey(a):
    """Total order on atoms / nested structures."""
    k = _keycache.get(a)
    if k is None:
        k = _short(_fmt(a))
        _keycache[a] = k
    return k


def _short(k):
    """long keys are replaced by a digest (keys only serve as identity and as a total order)"""
    if len(k) > 240:
        k = k[:60] + "#" + hashlib.blake2b(k.encode(), digest_size=16).hexdigest()
    return k


def _fmt(a):
    if isinstance(a, Poly):
        return a.key()
    if isinstance(a, tuple):
        return "(" + ",".join(_fmt(x) for x in a) + ")"
    return repr(a)


def _n(c):
    return c.numerator if c.denominator == 1 else c


class Poly:
    __slots__ = ("t", "_h", "_k", "_fv", "_d")

    def __init__(self, t):
        self.t = t                      # dict monomial -> Fraction
        self._h = None
        self._k = None
        self._fv = self._d = None

    # -- construction
    @staticmethod
    def const(c):
        if isinstance(c, float):
            c = Fraction(c).limit_denominator(10**12) if c == c and abs(c) != float("inf") else None
            if c is None:
                return Poly.atom(("sym", "nonfinite"))
        c = c if type(c) is int else _n(Fraction(c))
        return Poly({(): c}) if c else ZERO_()

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): 1})

    def key(self):
        if self._k is None:
            parts = []
            for m, c in sorted(((tuple((akey(a), e) for a, e in m), c) for m, c in self.t.items()), key=lambda z: z[0]):
                parts.append(str(c) + "".join("*" + k + ("^%d" % e if e != 1 else "") for k, e in m))
            self._k = _short("{" + "+".join(parts) + "}")
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or (hash(self) == hash(o) and len(self.t) == len(o.t) and self.key() == o.key()))

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)

    # -- queries
    def is_const(self):
        return all(m == () for m in self.t)

    def constval(self):
        if not self.t:
            return Fraction(0)
        if self.is_const():
            return self.t[()]
        return None

    def intval(self):
        c = self.constval()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        if len(t) > MAXTERMS:
            raise TooBig()
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO_()
        if len(self.t) * len(o.t) > MAXTERMS * 4:
            raise TooBig()
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                for m, c in _mulmono(m1, m2, c1 * c2):
                    v = t.get(m, 0) + c
                    if v:
                        t[m] = v
                    else:
                        t.pop(m, None)
        if len(t) > MAXTERMS:
            raise TooBig()
        return Poly(t)

    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        return P(o) - self

    def pow(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r


def ZERO_():
    return ZERO


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    return Poly.const(x)


def A(*a):
    return Poly.atom(tuple(a))


def sym(name):
    return Poly.atom(("sym", name))


I_ATOM = ("I",)
I = Poly.atom(I_ATOM)


def _has_delta(m):
    return any(a[0] in ("delta",) for a, _ in m)


def _mulmono(m1, m2, c):
    """product of two monomials -> list of (monomial, coef)."""
    if not m1:
        return [(m2, c)]
    if not m2:
        return [(m1, c)]
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # inv cancellation for single-atom / constant polys
    for a in list(d):
        if a not in d:
            continue
        if a[0] == "inv":
            q = a[1]
            if len(q.t) == 1:
                (mm, cc), = q.t.items()
                if len(mm) == 1 and cc == 1 and mm[0][1] == 1 and mm[0][0] in d:
                    b = mm[0][0]
                    k = min(d[a], d[b])
                    d[a] -= k
                    d[b] -= k
                    for z in (a, b):
                        if d.get(z) == 0:
                            del d[z]
    if I_ATOM in d:
        e = d.pop(I_ATOM) % 4
        if e >= 2:
            c = -c
            e -= 2
        if e:
            d[I_ATOM] = 1
    for a in d:
        if a[0] in ("delta", "ind"):
            d[a] = 1
    mono = tuple(sorted(d.items(), key=lambda z: akey(z[0])))
    deltas = [a for a in d if a[0] == "delta"]
    if deltas:
        r = _delta_reduce(mono, c)
        if r is not None:
            return list(r.t.items())
    return [(mono, c)]


def _delta_reduce(mono, c):
    """delta(v - e) * f(v)  ->  delta(v - e) * f(e), once per delta, for v a bare axis index."""
    for a, _ in mono:
        if a[0] != "delta":
            continue
        p = a[1]
        for m, cc in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ("ax", "bv") and cc in (1, -1):
                v = m[0][0]
                e = -(p - Poly({m: cc})) * Poly.const(Fraction(1) / cc)
                if v in freevars(e):
                    continue
                others = [(b, x) for b, x in mono if b != a]
                if any(v in atom_freevars(b) for b, _ in others):
                    r = Poly.const(c) * Poly.atom(a)
                    for b, x in others:
                        r = r * subst_atom(b, {v: e}).pow(x)
                    return r
                break
    return None


# ---------------------------------------------------------------- free variables / substitution
_fvcache = {}


def atom_freevars(a):
    r = _fvcache.get(a)
    if r is None:
        r = frozenset(_atom_fv(a))
        _fvcache[a] = r
    return r


def _atom_fv(a):
    k = a[0]
    if k in ("ax", "bv", "fi", "rank"):
        return {a}
    if k == "sum":
        s = set()
        for (b, sz) in a[1]:
            s |= freevars(sz)
        for f, e in a[2]:
            s |= atom_freevars(f)
        return s - {b for b, _ in a[1]}
    s = set()
    _collect(a[1:], s)
    return s


def _collect(x, s):
    if isinstance(x, Poly):
        s |= freevars(x)
    elif isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in ("ax", "bv", "fi", "rank"):
            s.add(x)
            return
        for y in x:
            _collect(y, s)


def freevars(p):
    if p._fv is None:
        s = set()
        for m in p.t:
            for a, _ in m:
                s |= atom_freevars(a)
        p._fv = frozenset(s)
    return p._fv


def subst(p, env, memo=None):
    """env: {variable atom -> Poly}."""
    if not env or not (freevars(p) & env.keys()):
        return p
    if memo is None:
        memo = {}
    else:
        r = memo.get(p)
        if r is not None:
            return r
    r = ZERO
    for m, c in p.t.items():
        q = None
        keep = []
        for a, e in m:
            if atom_freevars(a) & env.keys():
                f = subst_atom(a, env, memo)
                if e != 1:
                    f = f.pow(e)
                q = f if q is None else q * f
            else:
                keep.append((a, e))
        if q is None:
            q = Poly({m: c})
        elif keep or c != 1:
            q = Poly({tuple(keep): c}) * q
        r = r + q
    memo[p] = r
    return r


def _subst_any(x, env, memo):
    if isinstance(x, Poly):
        return subst(x, env, memo)
    if isinstance(x, tuple):
        return tuple([_subst_any(y, env, memo) for y in x])
    return x


def subst_atom(a, env, memo=None):
    if a in env:
        return env[a]
    if not (atom_freevars(a) & env.keys()):
        return Poly.atom(a)
    if memo is None:
        memo = {}
    else:
        r = memo.get(a)
        if r is not None:
            return r
    k = a[0]
    if k == "sum":
        # open, substitute, close again
        bounds, body = open_sum(a)
        bounds = [(b, subst(sz, env, memo)) for b, sz in bounds]
        q = ONE
        for f, e in body:
            q = q * subst_atom(f, env, memo).pow(e)
        for b, sz in bounds:
            AXSIZE[b[1]] = sz
        r = sum_over(q, [b for b, _ in bounds])
    else:
        r = rebuild(k, tuple([_subst_any(x, env, memo) for x in a[1:]]))
    memo[a] = r
    return r


def replace(p, env, memo=None):
    """rewrite atoms (of any kind, at any depth) by env: {atom -> Poly}"""
    if not env:
        return p
    if memo is None:
        memo = {}
    r = memo.get(p)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.t.items():
        q = Poly.const(c)
        for a, e in m:
            q = q * _repl_atom(a, env, memo).pow(e)
        out = out + q
    memo[p] = out
    return out


def _repl_any(x, env, memo):
    if isinstance(x, Poly):
        return replace(x, env, memo)
    if isinstance(x, tuple):
        return tuple(_repl_any(y, env, memo) for y in x)
    return x


def _repl_atom(a, env, memo):
    if a in env:
        return env[a]
    k = a[0]
    if k in ("ax", "bv", "sym", "size", "rank"):
        return Poly.atom(a)
    key = ("atom", a)
    r = memo.get(key)
    if r is not None:
        return r
    if k == "sum":
        bounds, body = open_sum(a)
        q = ONE
        for f, e in body:
            q = q * _repl_atom(f, env, memo).pow(e)
        for b, sz in bounds:
            AXSIZE[b[1]] = replace(sz, env, memo)
        r = sum_over(q, [b for b, _ in bounds])
    else:
        args = tuple(_repl_any(x, env, memo) for x in a[1:])
        r = Poly.atom(a) if args == a[1:] else rebuild(k, args)
    memo[key] = r
    return r


class _Inst:
    def __init__(self, name, axes, expr):
        self.name, self.axes, self.expr = name, axes, expr

    def __len__(self):
        return 1

    def __contains__(self, a):
        return a[0] == "T" and a[1] == self.name

    def __getitem__(self, a):
        return subst(self.expr, dict(zip(self.axes, a[2])))


def instantiate(p, name, axes, expr):
    """replace the elements of the tensor called name by those of expr over axes"""
    return replace(p, _Inst(name, axes, expr))


def rebuild(k, args):
    if k == "delta":
        return delta(args[0])
    if k == "ind":
        return ind(*args)
    if k == "split":
        return split(*args)
    if k == "off":
        return off(*args)
    if k == "fdiv":
        return fdiv(*args)
    if k == "mod":
        return mod(*args)
    if k == "inv":
        return inv(args[0])
    if k == "max":
        return pmax(*args)
    if k == "min":
        return pmin(*args)
    return Poly.atom((k,) + args)


# ---------------------------------------------------------------- axes and sums
def new_axis(size):
    i = next(_counter)
    AXSIZE[i] = P(size)
    return ("ax", i)


def axsize(v):
    return AXSIZE[v[1]]


def open_sum(a):
    env = {}
    bounds = []
    for b, sz in a[1]:
        env[b] = Poly.atom(new_axis(sz))
    mine = set(env)
    for b, sz in a[1]:
        (m, _), = env[b].t.items()
        v = m[0][0]
        if mine & freevars(sz):          # the range depends on another variable of this sum
            sz = subst(sz, env)
            AXSIZE[v[1]] = sz
        bounds.append((v, sz))
    body = []
    q = []
    memo = {}
    for f, e in a[2]:
        r = subst_atom(f, env, memo)
        # a renaming never splits an atom
        (m, c), = r.t.items()
        q.append((r, e))
    out = []
    for r, e in q:
        (m, c), = r.t.items()
        if c != 1 or len(m) != 1:
            # degenerate; keep as product
            for (aa, ee) in m:
                out.append((aa, ee * e))
        else:
            out.append((m[0][0], e * m[0][1]))
    return bounds, out


def depth(a):
    if isinstance(a, Poly):
        if a._d is None:
            a._d = max([0] + [depth(x) for m in a.t for x, _ in m])
        return a._d
    if isinstance(a, tuple):
        if a and a[0] == "bv":
            return a[1]
        return max([0] + [depth(x) for x in a if isinstance(x, (tuple, Poly))])
    return 0


_dcache = {}


def adepth(a):
    r = _dcache.get(a)
    if r is None:
        r = depth(a)
        _dcache[a] = r
    return r


def sum_over(p, vs, exact=True):
    """Sum of p over the free axis variables vs (sizes in AXSIZE)."""
    r = p
    vs = list(vs)
    while vs:
        # a variable whose range depends on another summed variable is summed first
        k = 0
        if len(vs) > 1:
            for i, v in enumerate(vs):
                if not any(v in freevars(axsize(w)) for w in vs if w != v):
                    k = i
                    break
        r = _sum1(r, vs.pop(k), exact)
    return r


def _sum1(p, v, exact=False):
    out = ZERO
    for m, c in p.t.items():
        dep = [(a, e) for a, e in m if v in atom_freevars(a)]
        ind_ = [(a, e) for a, e in m if v not in atom_freevars(a)]
        q = Poly({tuple(ind_): c}) if ind_ else Poly.const(c)
        if not dep:
            out = out + q * axsize(v)
            continue
        # delta elimination: sum_v delta(v - e) f(v) = f(e)   (e in range)
        done = False
        for a, e in dep:
            if a[0] == "delta":
                pp = a[1]
                mono = ((v, 1),)
                cc = pp.t.get(mono)
                if cc in (1, -1):
                    ee = -(pp - Poly({mono: cc})) * Poly.const(Fraction(1) / cc)
                    if v not in freevars(ee):
                        r = q
                        for b, x in dep:
                            if b != a:
                                r = r * subst_atom(b, {v: ee}).pow(x)
                        if exact:
                            r = r * ind(ee, ZERO, axsize(v))
                        out = out + r
                        done = True
                        break
        if done:
            continue
        # merge nested sums depending on v
        bounds = [(v, axsize(v))]
        body = []
        for a, e in dep:
            if a[0] == "sum" and e == 1:
                b2, f2 = open_sum(a)
                bounds += b2
                body += f2
            else:
                body.append((a, e))
        out = out + q * _close(bounds, body)
    return out


def _orders(bounds, body, d):
    """candidate orders of the bound variables: sorted by an alpha-invariant signature, ties permuted"""
    allv = [b for b, _ in bounds]
    sigs = []
    hole, me = Poly.atom(("bv", d, -1)), Poly.atom(("bv", d, -2))
    for j, (b, sz) in enumerate(bounds):
        env = {v: hole for v in allv}
        env[b] = me
        ks = []
        for a, e in body:
            if b in atom_freevars(a):
                ks.append((_rename(a, env), e))
        sigs.append((P(subst(sz, {v: hole for v in allv})).key(), tuple(sorted((akey(a), e) for a, e in ks))))
    groups = {}
    for j, g in enumerate(sigs):
        groups.setdefault(g, []).append(j)
    blocks = [groups[g] for g in sorted(groups)]
    tot = 1
    for blk in blocks:
        for i in range(2, len(blk) + 1):
            tot *= i
    if tot > 120:
        return [tuple(j for blk in blocks for j in blk)]
    return [tuple(j for part in combo for j in part) for combo in itertools.product(*[itertools.permutations(blk) for blk in blocks])]


def _rename(a, env):
    """purely syntactic renaming (no smart constructors): only used for ordering signatures"""
    if a in env:
        (m, _), = env[a].t.items()
        return m[0][0]
    if not (atom_freevars(a) & env.keys()):
        return a
    return tuple(_rename_any(x, env) for x in a)


def _rename_any(x, env):
    if isinstance(x, Poly):
        if not (freevars(x) & env.keys()):
            return x
        t = {}
        for m, c in x.t.items():
            dd = {}
            for a, e in m:
                aa = _rename(a, env)
                dd[aa] = dd.get(aa, 0) + e
            mm = tuple(sorted(dd.items(), key=lambda z: akey(z[0])))
            t[mm] = t.get(mm, 0) + c
        return Poly({m: c for m, c in t.items() if c})
    if isinstance(x, tuple):
        if x in env:
            return _rename(x, env)
        return tuple(_rename_any(y, env) for y in x)
    return x


def _close(bounds, body):
    bounds = list(bounds)
    # zero-size dependency: sizes that depend on other bounds (split over a summed rank)
    changed = True
    while changed:
        changed = False
        for (b, sz) in bounds:
            if len(sz.t) == 1:
                (m, c), = sz.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "split":
                    _, S, n, i = m[0][0]
                    for (r, rsz) in bounds:
                        if r == b:
                            continue
                        if i == Poly.atom(r) and rsz == n:
                            B = new_axis(S)
                            env = {b: Poly.atom(B) - Poly.atom(("off", S, n, i))}
                            q = ONE
                            for f, e in body:
                                q = q * subst_atom(f, env).pow(e)
                            if r not in freevars(q) and b not in freevars(q) and not any(r in freevars(s2) for bb, s2 in bounds if bb not in (b, r)):
                                rest = [x for x in bounds if x[0] not in (b, r)]
                                return sum_over(q, [B] + [x[0] for x in rest])
    d = 1 + max([0] + [adepth(a) for a, _ in body] + [depth(s) for _, s in bounds])
    best = None
    n = len(bounds)
    perms = [tuple(range(n))] if n == 1 else _orders(bounds, body, d)
    for perm in perms:
        env = {}
        for i, j in enumerate(perm):
            env[bounds[j][0]] = Poly.atom(("bv", d, i))
        fs = []
        ok = True
        memo = {}
        for a, e in body:
            r = subst_atom(a, env, memo)
            if len(r.t) != 1:
                ok = False
                break
            (m, c), = r.t.items()
            if c != 1 or len(m) != 1:
                ok = False
                break
            fs.append((m[0][0], e * m[0][1]))
        if not ok:
            fs = [(("raw",) + tuple(a for a, _ in body), 1)]
        # duplicate merging
        dd = {}
        for a, e in fs:
            dd[a] = dd.get(a, 0) + e
        fs = tuple(sorted(dd.items(), key=lambda z: akey(z[0])))
        bnd = tuple((("bv", d, i), subst(bounds[j][1], env)) for i, j in enumerate(perm))
        cand = ("sum", bnd, fs)
        k = akey(cand)
        if best is None or k < best[0]:
            best = (k, cand)
    return Poly.atom(best[1])


# ---------------------------------------------------------------- smart constructors
def is_axis(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "ax":
            return m[0][0]
    return None


def lower(p):
    """a lower bound polynomial in which axis indices are replaced by their extremes; None if unclear."""
    return _extreme(p, -1)


def upper(p):
    return _extreme(p, +1)


def _extreme(p, sgn):
    r = ZERO
    for m, c in p.t.items():
        ax = [(a, e) for a, e in m if a[0] == "ax"]
        if not ax:
            if any(a[0] in ("bv",) for a, _ in m):
                return None
            r = r + Poly({m: c})
            continue
        if len(ax) > 1 or ax[0][1] != 1:
            return None
        rest = Poly({tuple(x for x in m if x[0][0] != "ax"): c})
        s = sign(rest)
        if s is None or s == 0:
            return None
        hi = (s > 0) == (sgn > 0)
        r = r + (rest * (axsize(ax[0][0]) - 1) if hi else ZERO)
    return r


GT1 = set()          # atoms known to be > 1
SYM_NONNEG = {"sym", "size"}


def atom_min(a):
    """a proven lower bound (int) of an atom, or None."""
    k = a[0]
    if k == "size":
        return 2 if a in GT1 else 1
    if k == "sym":
        return a[2] if len(a) > 2 else 1
    if k in ("split",):
        return 1
    if k in ("off", "own", "rank", "ax", "fi", "mod", "bv"):
        return 0
    if k == "max":
        ms = [pmin_of(x) for x in a[1:]]
        ms = [x for x in ms if x is not None]
        return max(ms) if ms else None
    if k == "min":
        ms = [pmin_of(x) for x in a[1:]]
        return min(ms) if all(x is not None for x in ms) else None
    if k == "fdiv":
        m = pmin_of(a[1])
        q = a[2].intval()
        if m is not None and q and q > 0:
            return int(m // q)
        if m is not None and m >= 0:
            return 0
    return None


def pmin_of(p, fuel=2):
    """lower bound of a poly (Fraction) or None."""
    r = _pmin_plain(p)
    if r is not None and r > 0 or not fuel:
        return r
    # -min(args) >= -arg_i ;  max(args) >= arg_i
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and (m[0][0][0] == "min" and c < 0 or m[0][0][0] == "max" and c > 0):
            for arg in m[0][0][1:]:
                v = pmin_of(p - Poly({m: c}) + Poly.const(c) * arg, fuel - 1)
                if v is not None and (r is None or v > r):
                    r = v
    return r


def _pmin_plain(p):
    tot = Fraction(0)
    for m, c in p.t.items():
        if m == ():
            tot += c
            continue
        lo = Fraction(1)
        for a, e in m:
            b = atom_min(a)
            if b is None or b < 0:
                return None
            lo *= Fraction(b) ** e
        if c > 0:
            tot += c * lo
        else:
            return None
    return tot


def sign(p):
    """+1 / -1 / 0 if the sign is certain, None otherwise (symbols are positive integers)."""
    if not p.t:
        return 0
    m = pmin_of(p)
    if m is not None and m > 0:
        return 1
    m = pmin_of(-p)
    if m is not None and m > 0:
        return -1
    # split(S,n,i) <= S ; off+split <= S ; rank < size
    p2 = p
    for mono, c in list(p.t.items()):
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0][0] == "rank" and c < 0:
            p2 = p2 + Poly({mono: -c}) - (-c) * (A("size", mono[0][0][1]) - 1)
    if p2 is not p:
        m = pmin_of(p2)
        if m is not None and m > 0:
            return 1
    return None


def nonneg(p):
    m = pmin_of(p)
    return m is not None and m >= 0


def delta(p):
    c = p.constval()
    if c is not None:
        return ONE if c == 0 else ZERO
    s = sign(p)
    if s in (1, -1):
        return ZERO
    lo, hi = lower(p), upper(p)
    if lo is not None and sign(lo) == 1:
        return ZERO
    if hi is not None and sign(hi) == -1:
        return ZERO
    # canonical sign: first monomial positive
    q = -p
    if q.key() < p.key():
        p = q
    return Poly.atom(("delta", p))


def ind(p, lo, hi):
    l, u = lower(p), upper(p)
    if l is not None and u is not None:
        if nonneg(l - lo) and nonneg(hi - 1 - u):
            return ONE
        if nonneg(l - hi) or nonneg(lo - 1 - u):
            return ZERO
    d = p - lo
    if p.constval() is not None and lo.constval() is not None and hi.constval() is not None:
        return ONE if lo.constval() <= p.constval() < hi.constval() else ZERO
    return Poly.atom(("ind", d, ZERO, hi - lo))


def split(S, n, i):
    if n.intval() == 1:
        return S
    return Poly.atom(("split", S, n, i))


def off(S, n, i):
    if n.intval() == 1 or i.intval() == 0:
        return ZERO
    return Poly.atom(("off", S, n, i))


def inv(p):
    c = p.constval()
    if c is not None and c != 0:
        return Poly.const(Fraction(1) / c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly.const(Fraction(1) / c)
        for a, e in m:
            if a == I_ATOM:
                r = r * (-I)
            elif a[0] == "inv":
                r = r * a[1].pow(e)
            else:
                r = r * Poly.atom(("inv", Poly.atom(a))).pow(e)
        return r
    return Poly.atom(("inv", p))


def divide_exact(p, q):
    """p / q if q is a monomial dividing p (integer polys); else None."""
    if p == q:
        return ONE
    if len(q.t) == 1:
        (mq, cq), = q.t.items()
        out = {}
        for m, c in p.t.items():
            d = dict(m)
            for a, e in mq:
                if d.get(a, 0) < e:
                    return None
                d[a] -= e
                if not d[a]:
                    del d[a]
            if (Fraction(c) / cq).denominator != 1:
                return None
            out[tuple(sorted(d.items(), key=lambda z: akey(z[0])))] = _n(Fraction(c) / cq)
        return Poly(out)
    # q is a sum: try p = k * q for a monomial k
    if len(p.t) % len(q.t) == 0 and p.t:
        mp = next(iter(p.t))
        for mq in q.t:
            k = divide_exact(Poly({mp: p.t[mp]}), Poly({mq: q.t[mq]}))
            if k is not None and k * q == p:
                return k
    return None


def _divmod(p, q):
    """split p = q*quo + rem with rem provably in [0,q)."""
    quo, rem = ZERO, ZERO
    for m, c in p.t.items():
        t = Poly({m: c})
        d = divide_exact(t, q)
        if d is not None:
            quo = quo + d
        else:
            rem = rem + t
    qc, rc = q.intval(), rem.intval()
    if qc and rc is not None and qc > 0:
        return quo + (rc // qc), P(rc % qc)
    if not rem.t:
        return quo, rem
    l, u = lower(rem), upper(rem)
    if l is not None and u is not None and nonneg(l) and nonneg(q - 1 - u):
        return quo, rem
    if l is not None and u is not None and nonneg(l + q) and nonneg(-1 - u) and nonneg(q - 1):
        return quo - 1, rem + q
    return None


def fdiv(p, q):
    if q.intval() == 1:
        return p
    r = _divmod(p, q)
    if r is not None:
        return r[0]
    # pull out divisible part
    quo, rem = ZERO, ZERO
    for m, c in p.t.items():
        t = Poly({m: c})
        d = divide_exact(t, q)
        if d is not None:
            quo = quo + d
        else:
            rem = rem + t
    return quo + Poly.atom(("fdiv", rem, q))


def mod(p, q):
    if q.intval() == 1:
        return ZERO
    r = _divmod(p, q)
    if r is not None:
        return r[1]
    rem = ZERO
    for m, c in p.t.items():
        t = Poly({m: c})
        if divide_exact(t, q) is None:
            rem = rem + t
    return Poly.atom(("mod", rem, q))


def pmax(*ps):
    return _mm("max", ps, 1)


def pmin(*ps):
    return _mm("min", ps, -1)


def _mm(kind, ps, sgn):
    fl = []
    for p in ps:
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == kind:
                fl += list(m[0][0][1:])
                continue
        fl.append(p)
    keep = []
    for p in fl:
        dom = False
        for q in fl:
            if q is p or q == p:
                continue
            if nonneg((q - p) if sgn > 0 else (p - q)):
                dom = True
                break
        if not dom and p not in keep:
            keep.append(p)
    if not keep:
        keep = [fl[0]]
    if len(keep) == 1:
        return keep[0]
    return Poly.atom((kind,) + tuple(sorted(keep, key=lambda z: z.key())))


def re_im(p):
    re, im = {}, {}
    for m, c in p.t.items():
        if any(a == I_ATOM for a, _ in m):
            im[tuple(x for x in m if x[0] != I_ATOM)] = c
        else:
            re[m] = c
    return Poly(re), Poly(im)


# ---------------------------------------------------------------- display
def show(x, lim=400):
    s = _show(x)
    return s if len(s) <= lim else s[:lim] + "..."


def _show(x):
    if isinstance(x, Poly):
        if not x.t:
            return "0"
        parts = []
        for m, c in x.t.items():
            f = [_show(a) + ("^%d" % e if e != 1 else "") for a, e in m]
            if c != 1 or not f:
                f = [str(c)] + f
            parts.append("*".join(f))
        return " + ".join(sorted(parts))
    if isinstance(x, tuple) and x:
        k = x[0]
        if k == "sym":
            return str(x[1])
        if k == "ax":
            return "i%d" % x[1]
        if k == "bv":
            return "k%d_%d" % (x[1], x[2])
        if k in ("size", "rank"):
            return "%s(%s)" % (k, x[1])
        if k == "T":
            return "%s[%s]" % (x[1], ",".join(_show(y) for y in x[2]))
        if k == "sum":
            return "SUM{%s}(%s)" % (",".join(_show(b) + "<" + _show(s) for b, s in x[1]), "*".join(_show(a) for a, _ in x[2]))
        if k == "I":
            return "i"
        if isinstance(k, str):
            return "%s(%s)" % (k, ", ".join(_show(y) for y in x[1:]))
        return "(" + ", ".join(_show(y) for y in x) + ")"
    return str(x)
