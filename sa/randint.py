"""Random interpretation of value numbers.

Two value numbers that the normaliser does not identify are compared by interpreting their
symbols (sizes: small integers satisfying the path condition; tables and uninterpreted functions:
pseudo-random smooth functions).  A difference refutes equality for certain, so a weak normal form
can never turn into an alarm; agreement everywhere is taken as equality (probabilistic)."""
import hashlib
import itertools
import math
import cmath
import random
from fractions import Fraction
from . import terms as T
from .terms import Poly
from .values import Cond, Top
from . import defs


class Undef(Exception):
    pass


class Unknown(Exception):
    """the term contains something the analysis did not model"""


def _h(*a):
    d = hashlib.blake2b(repr(a).encode(), digest_size=8).digest()
    return int.from_bytes(d, "big") / 2.0 ** 64


FN = {
    "sin": cmath.sin, "cos": cmath.cos, "exp": cmath.exp, "tan": cmath.tan, "tanh": cmath.tanh,
    "sqrt": cmath.sqrt, "log": lambda x: cmath.log(x) if x != 0 else _undef(), "abs": abs,
    "arccos": lambda x: cmath.acos(x), "acos": lambda x: cmath.acos(x), "arcsin": cmath.asin, "asin": cmath.asin,
    "atan": cmath.atan, "arctan": cmath.atan, "trunc": lambda x: math.trunc(_re(x)), "int": lambda x: math.trunc(_re(x)),
    "floor": lambda x: math.floor(_re(x) + 1e-12), "ceil": lambda x: math.ceil(_re(x) - 1e-12), "round": lambda x: round(_re(x)),
    "sign": lambda x: (x > 0) - (x < 0) if _re(x) == x else _undef(),
    "rsqrt": lambda x: 1 / cmath.sqrt(x) if x != 0 else _undef(),
    "log1p": lambda x: cmath.log(1 + x), "expm1": lambda x: cmath.exp(x) - 1, "square": lambda x: x * x, "reciprocal": lambda x: 1 / x if x != 0 else _undef(),
    "cosh": cmath.cosh, "sinh": cmath.sinh, "erf": lambda x: math.erf(_re(x)), "deg2rad": lambda x: x * math.pi / 180, "rad2deg": lambda x: x * 180 / math.pi,
    "softplus": lambda x: cmath.log(1 + cmath.exp(x)), "silu": lambda x: x / (1 + cmath.exp(-x)), "gelu": lambda x: _re(x) * 0.5 * (1 + math.erf(_re(x) / math.sqrt(2))),
    "sinc": lambda x: cmath.sin(math.pi * x) / (math.pi * x) if x != 0 else 1.0, "logical_not": lambda x: int(x == 0), "isnan": lambda x: int(x != x),
    "math.factorial": lambda x: math.factorial(int(round(_re(x)))) if _re(x) > -0.5 else _undef(), "isfinite": lambda x: 1, "isinf": lambda x: 0, "boolint": lambda x: int(x != 0), "lgamma": lambda x: math.lgamma(_re(x)), "angle": lambda x: cmath.phase(x),
    "sigmoid": lambda x: 1 / (1 + cmath.exp(-x)), "relu": lambda x: max(_re(x), 0.0),
}


def _rounder(q):
    """stand-in for a loss of precision: an idempotent projection on the multiples of 1/q (only used to tell a value from its rounded version)"""
    def part(v):
        return math.floor(v * q + 0.3719) / q

    def f(x):
        return complex(part(x.real), part(x.imag)) if isinstance(x, complex) else part(float(x))
    return f


for _n, _q in (("float32", 4096), ("float16", 256), ("bfloat16", 64), ("complex64", 4096)):
    FN["round:" + _n] = _rounder(_q)


def _undef():
    raise Undef()


def _re(x):
    return x.real if isinstance(x, complex) else x


def clean(v):
    if isinstance(v, complex) and v.imag == 0:
        v = v.real
    return v


def _truthy(f):
    return lambda x, y: int(f(int(round(x)), int(round(y))))


BIN = {
    "bin_BitAnd": _truthy(lambda x, y: x & y), "bin_BitOr": _truthy(lambda x, y: x | y), "bin_BitXor": _truthy(lambda x, y: x ^ y),
    "logical_and": _truthy(lambda x, y: bool(x) and bool(y)), "logical_or": _truthy(lambda x, y: bool(x) or bool(y)), "logical_xor": _truthy(lambda x, y: bool(x) != bool(y)),
    "hypot": math.hypot, "fmod": lambda x, y: math.fmod(x, y) if y else _undef(), "remainder": lambda x, y: x - y * math.floor(x / y + 1e-12) if y else _undef(),
    "cdiv": lambda x, y: int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1) if y else _undef(), "cmod": lambda x, y: int(math.fmod(x, y)) if y else _undef(),
    "floordiv": lambda x, y: math.floor(x / y + 1e-12) if y else _undef(),
}
KNOWN = {"pow", "where", "maximum", "minimum", "max", "min", "clamp", "masked_fill", "atan2", "arctan2", "fmod"}


def uninterpreted(x, out, seen=None):
    """names of the operators in a term that have no interpretation"""
    seen = set() if seen is None else seen
    if isinstance(x, (Poly, tuple)):
        if id(x) in seen:
            return
        seen.add(id(x))
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                uninterpreted(a, out, seen)
    elif isinstance(x, tuple):
        if len(x) > 1 and x[0] == "fn":
            b = x[1][3:] if isinstance(x[1], str) and x[1][:3] in ("re:", "im:") else x[1]
            if isinstance(b, str) and not (b in FN or b in BIN or b in KNOWN or b.startswith(("def:", "cmp_", "reduce:max", "reduce:amax", "reduce:min", "reduce:amin", "reduce:prod", "reduce:any", "reduce:all"))):
                out.add(b)
        if len(x) > 1 and x[0] == "op" and isinstance(x[1], str):
            out.add(x[1])
        for y in x:
            if isinstance(y, (tuple, Poly)):
                uninterpreted(y, out, seen)


class Eval:
    def __init__(self, env, seed=0, budget=3000000):
        self.env = env          # atom -> number for sym/size/rank
        self.seed = seed
        self.memo = {}
        self.count = [0]
        self.budget = budget
        self.prev = {}          # loop token -> (Iter, iteration)
        self.iters = {}
        self.parent = self.tok = None

    @property
    def steps(self):
        return self.count[0]

    @steps.setter
    def steps(self, v):
        self.count[0] = v

    # ---------------------------------------------------------------- polynomials
    def ev(self, p, b):
        """value of Poly p under bindings b (variable atom -> int)"""
        if not isinstance(p, Poly):
            raise Unknown(str(p)[:60])
        c = p.constval()
        if c is not None:
            return int(c) if c.denominator == 1 else float(c)
        fv = T.freevars(p)
        if len(self.memo) > 250000:
            self.memo.clear()
        key = (p, tuple(sorted((v, b[v]) for v in fv if v in b))) if len(p.t) > 1 else None
        if key is not None and key in self.memo:
            r = self.memo[key]
            if r is Undef:
                raise Undef()
            return r
        tot = 0
        try:
            for m, c in p.t.items():
                tot = tot + self.mono(m, c, b)
        except Undef:
            if key is not None:
                self.memo[key] = Undef
            raise
        tot = clean(tot)
        if key is not None:
            self.memo[key] = tot
        return tot

    def mono(self, m, c, b):
        self.steps += 1
        if self.steps > self.budget:
            raise Unknown("evaluation budget")
        v = int(c) if c.denominator == 1 else float(c)
        for a, e in sorted(m, key=lambda x: 0 if x[0][0] in ("delta", "ind") else (2 if x[0][0] in ("sum",) else (3 if x[0][0] == "inv" else 1))):
            x = self.atom(a, b)
            if x == 0:
                if self.strict and a[0] not in ("delta", "ind"):
                    for d, _ in m:
                        if d[0] == "inv":
                            self.atom(d, b)         # 0/0 has no value
                return 0
            v = v * (x ** e)
        return v

    strict = False

    def int(self, p, b):
        v = self.ev(p, b)
        if isinstance(v, complex) or abs(v - round(v)) > 1e-9:
            raise Undef()
        return int(round(v))

    # ---------------------------------------------------------------- atoms
    def atom(self, a, b):
        k = a[0]
        if k in ("ax", "bv", "fi"):
            if a in b:
                return b[a]
            raise Unknown("free index %r" % (a,))
        if k in ("size", "rank", "sym"):
            if a in self.env:
                return self.env[a]
            if k == "sym" and a[1] == "inf":
                return 1e6
            raise Unknown("symbol %r" % (a,))
        if k == "I":
            return 1j
        if k == "pi":
            return math.pi
        fv = T.atom_freevars(a)
        key = (a, tuple(sorted((v, b[v]) for v in fv if v in b)))
        r = self.memo.get(key)
        if r is None:
            try:
                r = clean(self._atom(a, b))
            except Undef:
                r = Undef
            except (OverflowError, ZeroDivisionError, ValueError):
                r = Undef
            self.memo[key] = r
        if r is Undef:
            raise Undef()
        return r

    def _atom(self, a, b):
        k = a[0]
        if k == "delta":
            return 1 if abs(self.ev(a[1], b)) < 1e-9 else 0
        if k == "ind":
            x = self.ev(a[1], b)
            return 1 if self.ev(a[2], b) <= x < self.ev(a[3], b) else 0
        if k == "split":
            S, n, i = (self.int(x, b) for x in a[1:4])
            return S // n + (1 if i < S % n else 0)
        if k == "off":
            S, n, i = (self.int(x, b) for x in a[1:4])
            return i * (S // n) + min(i, S % n)
        if k == "own":
            S, n, q = (self.int(x, b) for x in a[1:4])
            for i in range(n):
                if q < (i + 1) * (S // n) + min(i + 1, S % n):
                    return i
            raise Undef()
        if k == "fdiv":
            d = self.int(a[2], b)
            if d == 0:
                raise Undef()
            return self.int(a[1], b) // d
        if k == "mod":
            d = self.int(a[2], b)
            if d == 0:
                raise Undef()
            return self.int(a[1], b) % d
        if k == "max":
            return max(self.ev(x, b) for x in a[1:])
        if k == "min":
            return min(self.ev(x, b) for x in a[1:])
        if k == "inv":
            x = self.ev(a[1], b)
            if x == 0:
                raise Undef()
            return 1.0 / x
        if k == "sum":
            return self.sum(list(a[1]), a[2], dict(b))
        if k == "T":
            nm = a[1]
            if isinstance(nm, tuple) and nm and nm[0] in ("iter", "prev"):
                return self.recurrence(nm, [self.int(x, b) for x in a[2]], b)
            if isinstance(nm, tuple) and nm and nm[0] in ("argw", "fcat"):
                return self.listed(nm, [self.int(x, b) for x in a[2]], b)
            idx = []
            for x in a[2]:
                v = self.ev(x, b)
                if isinstance(v, complex) or abs(v - round(v)) > 1e-9:
                    raise Undef()
                idx.append(int(round(v)))
            if isinstance(nm, str) and ("fftR:" in nm or "fftI:" in nm):
                v = defs.dft(*nm.split(":"), *idx)
                if v is not None:
                    return v
            sk, vals = self.skel(a[1], b)
            return self.table(("T", sk, tuple(idx)), vals)
        if k in ("fmax", "fmin"):
            n = self.int(a[1], b)
            d = self.topdepth(a[2])
            vs = [self.ev(a[2], {**b, ("bv", d, 0): i}) for i in range(n)]
            return (max if k == "fmax" else min)(vs)
        if k == "chunk":
            S, s, i = (self.int(x, b) for x in a[1:4])
            return max(0, min(s, S - i * s))
        if k == "fn":
            return self.fn(a, b)
        raise Unknown("atom %s" % k)

    def recurrence(self, nm, idx, b):
        part = nm[-1] if nm[-1] in ("re", "im") else None
        if nm[0] == "prev":
            if nm[1] not in self.prev:
                raise Unknown("loop-carried value outside its loop")
            it, j = self.prev[nm[1]]
            v = it.before(j, nm[2], idx)
        else:
            k = nm[6]
            fv = sorted(set().union(*[T.freevars(x[3]) for x in nm[3] + nm[4]]) | T.freevars(nm[2]) | (T.freevars(nm[5][3]) if nm[5] else set()))
            key = (nm[1], tuple((v, b[v]) for v in fv if v in b), T.freevars(nm[2]) and None)
            key = (nm[:6], key[1])
            home = self         # the outermost evaluation that binds every loop this recurrence depends on
            if home.parent is not None:
                free = loops_read(nm[:6])
                while home.parent is not None and home.tok not in free:
                    home = home.parent
            it = home.iters.get(key)
            if it is None:
                it = home.iters[key] = Iter(home, nm, {v: b[v] for v in fv if v in b})
            v = it.after(k, idx)
        if part:
            v = complex(v)
            return v.real if part == "re" else v.imag
        return v

    def listed(self, nm, idx, b):
        """argw: (sizes, mask, j): j-th coordinate of the n-th true position; fcat: (count, sizes, element, position): pieces joined"""
        part = nm[-1] if nm[-1] in ("re", "im") else None
        fv = set()
        T._collect(nm, fv)
        key = (nm[:3], tuple(sorted((v, b[v]) for v in fv if v in b)))
        t = self.iters.get(key)
        if nm[0] == "argw":
            sizes, (_, d, n, body) = nm[1], nm[2]
            if t is None:
                sz = [self.int(x, b) for x in sizes]
                tot = 1
                for x in sz:
                    tot *= max(x, 0)
                if tot > 6000:
                    raise Unknown("mask too large")
                t = []
                for ix in itertools.product(*[range(x) for x in sz]):
                    if self.ev(body, {**b, **{("bv", d, i): x for i, x in enumerate(ix)}}):
                        t.append(ix)
                self.iters[key] = t
            if nm[3] == "count":
                return len(t)
            if not 0 <= idx[0] < len(t):
                raise Undef()
            return t[idx[0]][nm[3]]
        n, (_, d, _, szb), (_, d2, _, body), k = nm[1:5]
        if t is None:
            m = self.int(n, b)
            if m > 400:
                raise Unknown("too many pieces")
            t = [self.int(szb, {**b, ("bv", d, 0): i}) for i in range(m)]
            self.iters[key] = t
        q = idx[k]
        if q < 0:
            raise Undef()
        for i, x in enumerate(t):
            if q < x:
                bb = dict(b)
                for j, z in enumerate([i] + idx[:k] + [q] + idx[k + 1:]):
                    bb[("bv", d2, j)] = z
                v = self.ev(body, bb)
                if part:
                    v = complex(v)
                    return v.real if part == "re" else v.imag
                return v
            q -= x
        raise Undef()

    def topdepth(self, p):
        return T.depth(p)

    def sum(self, bounds, body, b):
        if not bounds:
            v = 1
            for f, e in sorted(body, key=lambda x: 0 if x[0][0] in ("delta", "ind") else 1):
                x = self.atom(f, b)
                if x == 0:
                    if self.strict and f[0] not in ("delta", "ind"):
                        for d, _ in body:
                            if d[0] == "inv":
                                self.atom(d, b)
                    return 0
                v = v * x ** e
            return v
        # a bound whose size only depends on already bound variables
        for k, (v, sz) in enumerate(bounds):
            if not any(o in T.freevars(sz) for o, _ in bounds if o != v):
                break
        else:
            raise Unknown("cyclic bounds")
        n = self.int(sz, b)
        rest = bounds[:k] + bounds[k + 1:]
        tot = 0
        for i in range(n):
            self.steps += 1
            if self.steps > self.budget:
                raise Unknown("evaluation budget")
            b[v] = i
            tot = tot + self.sum(rest, body, b)
        b.pop(v, None)
        return tot

    def table(self, key, vals):
        if not vals:
            return 0.5 + _h(self.seed, key)
        s = 0.0
        for i, v in enumerate(vals):
            if isinstance(v, complex):
                s += (0.3 + _h(self.seed, key, i)) * v.real + (0.3 + _h(self.seed, key, i, "i")) * v.imag
            else:
                s += (0.3 + _h(self.seed, key, i)) * v
        return 1.0 + 0.7 * math.sin(6 * _h(self.seed, key) + s)

    def skel(self, x, b):
        """(exact skeleton, list of real parameters) of a structured name"""
        vals = []

        def go(y):
            if isinstance(y, Poly):
                try:
                    v = self.ev(y, b)
                except Undef:
                    return "undef"
                if isinstance(v, int):
                    return v
                vals.append(v)
                return "#"
            if isinstance(y, tuple):
                if y and y[0] == "lam":
                    shape = [self.int(s, b) for s in y[1]]
                    d = None
                    for vv in T.freevars(y[2]):
                        if vv[0] == "bv" and vv not in b:
                            d = vv[1] if d is None else max(d, vv[1])
                    n = 1
                    for s in shape:
                        n *= s
                    if n > 4000:
                        raise Unknown("table argument too large")
                    for ix in itertools.product(*[range(s) for s in shape]):
                        bb = dict(b)
                        if d is not None:
                            for i, t in enumerate(ix):
                                bb[("bv", d, i)] = t
                        try:
                            vals.append(float(_re(self.ev(y[2], bb))))
                        except Undef:
                            vals.append(0.123)
                    return ("lam", tuple(shape))
                if y and y[0] == "tensor?":
                    raise Unknown("unmodelled tensor")
                if y and y[0] in ("top", "id"):
                    raise Unknown("unmodelled argument")
                return tuple(go(z) for z in y)
            if isinstance(y, Top):
                raise Unknown("unmodelled argument")
            return y
        return go(x), vals

    def fn(self, a, b):
        nm = a[1]
        if isinstance(nm, str) and nm.startswith("def:"):
            args = []
            for x in a[2:]:
                if isinstance(x, Poly):
                    v = _re(self.ev(x, b))
                    args.append(int(round(v)) if abs(v - round(v)) < 1e-12 and not isinstance(v, float) else v)
                else:
                    args.append(x)
            v = defs.DEFS[nm[4:]](*args)
            if v is None:
                raise Undef()
            return v
        part = None
        base = nm
        if isinstance(nm, str) and nm[:3] in ("re:", "im:"):
            part, base = nm[:2], nm[3:]
        if isinstance(base, str) and base in FN and len(a) == 3:
            v = FN[base](self.ev(a[2], b))
            v = clean(v)
            if part == "re":
                return v.real if isinstance(v, complex) else v
            if part == "im":
                return v.imag if isinstance(v, complex) else 0
            return v
        if base == "pow" and len(a) == 4:
            x, y = self.ev(a[2], b), self.ev(a[3], b)
            if x == 0 and _re(y) < 0:
                raise Undef()
            v = clean(complex(x) ** y)
            if part:
                v = complex(v)
                return v.real if part == "re" else v.imag
            return v
        if isinstance(base, str) and base.startswith("cmp_") and len(a) == 4:
            x, y = _re(self.ev(a[2], b)), _re(self.ev(a[3], b))
            return int({"eq": abs(x - y) < 1e-12, "ne": abs(x - y) >= 1e-12, "lt": x < y - 1e-12, "gt": x > y + 1e-12, "le": x <= y + 1e-12, "ge": x >= y - 1e-12}[base[4:]])
        if isinstance(base, str) and base in ("where",) and len(a) == 5:
            return self.ev(a[3], b) if self.ev(a[2], b) else self.ev(a[4], b)
        if isinstance(base, str) and base in ("maximum", "minimum", "max", "min") and len(a) == 4:
            x, y = _re(self.ev(a[2], b)), _re(self.ev(a[3], b))
            return max(x, y) if base.startswith("max") else min(x, y)
        if base == "clamp" and len(a) == 5:
            v = _re(self.ev(a[2], b))
            if isinstance(a[3], Poly):
                v = max(v, _re(self.ev(a[3], b)))
            if isinstance(a[4], Poly):
                v = min(v, _re(self.ev(a[4], b)))
            if all(isinstance(x, Poly) or x == "None" for x in a[3:5]):
                return v
        if isinstance(base, str) and base in BIN and len(a) == 4:
            return BIN[base](_re(self.ev(a[2], b)), _re(self.ev(a[3], b)))
        if base == "masked_fill" and len(a) == 5:
            return self.ev(a[4], b) if self.ev(a[3], b) else self.ev(a[2], b)
        if isinstance(base, str) and base in ("atan2", "arctan2") and len(a) == 4:
            return math.atan2(_re(self.ev(a[2], b)), _re(self.ev(a[3], b)))
        if isinstance(base, str) and base.startswith("reduce:") and len(a) == 4:
            sizes = [self.int(s, b) for s in a[2]]
            d = None
            for vv in T.freevars(a[3]):
                if vv[0] == "bv" and vv not in b:
                    d = vv[1] if d is None else max(d, vv[1])
            vals = []
            for ix in itertools.product(*[range(s) for s in sizes]):
                bb = dict(b)
                if d is not None:
                    for i, t in enumerate(ix):
                        bb[("bv", d, i)] = t
                vals.append(self.ev(a[3], bb))
            if not vals:
                raise Undef()
            op = base[7:].split(":")[0]
            if op in ("max", "amax"):
                return max(_re(v) for v in vals)
            if op in ("min", "amin"):
                return min(_re(v) for v in vals)
            if op == "prod":
                r = 1
                for v in vals:
                    r = r * v
                return r
            if op in ("any", "all"):
                return int({"any": any, "all": all}[op](v != 0 for v in vals))
            sk = (base, tuple(sizes))
            return self.table(("fn", sk), [v if isinstance(v, complex) else float(v) for v in vals])
        if isinstance(base, str) and base.startswith("allreduce:"):
            pass
        sk, vals = self.skel(a[1:], b)
        return self.table(("fn", sk), vals)


class Iter:
    """values of the loop-carried state, iteration by iteration (on demand)"""

    def __init__(self, ev, nm, b):
        self.ev, self.b = ev, b
        self.tok, self.init, self.body, self.stop = nm[1], nm[3], nm[4], nm[5]
        self.n = max(0, ev.int(nm[2], b))
        if self.n > 400:
            raise Unknown("too many iterations")
        self.evs = []
        self.memo = {}
        self.last = None

    def at(self, j):
        while len(self.evs) <= j:
            e = Eval(self.ev.env, self.ev.seed, self.ev.budget)
            e.count = self.ev.count
            e.strict = self.ev.strict
            e.prev = dict(self.ev.prev)
            e.prev[self.tok] = (self, len(self.evs))
            e.parent, e.tok = self.ev, self.tok
            self.evs.append(e)
        return self.evs[j]

    def before(self, j, k, idx):
        key = (j, k, tuple(idx))
        if j > 12 and key not in self.memo and (j - 1, k, key[2]) not in self.memo:
            for jj in range(1, j):          # bottom up: no deep recursion
                if (jj, k, key[2]) not in self.memo:
                    try:
                        self.before(jj, k, idx)
                    except Undef:
                        pass
        if key not in self.memo:
            try:
                if j == 0:
                    _, d, n, e = self.init[k]
                    v = self.ev.ev(e, {**self.b, **{("bv", d, i): x for i, x in enumerate(idx)}})
                else:
                    _, d, n, e = self.body[k]
                    bb = dict(self.b)
                    for i, x in enumerate([j - 1] + list(idx)):
                        bb[("bv", d, i)] = x
                    v = self.at(j - 1).ev(e, bb)
            except Undef:
                v = Undef
            self.memo[key] = v
        if self.memo[key] is Undef:
            raise Undef()
        return self.memo[key]

    def after(self, k, idx):
        if self.last is None:
            self.last = self.n
            if self.stop is not None:
                _, d, _, e = self.stop
                for j in range(self.n):
                    if abs(self.at(j).ev(e, {**self.b, ("bv", d, 0): j})) > 1e-9:
                        self.last = j + 1
                        break
        return self.before(self.last, k, idx)


_lr = {}


def loops_read(x):
    """loops whose carried state x reads without containing them"""
    if isinstance(x, Poly):
        r = _lr.get(x)
        if r is None:
            r = set()
            for m in x.t:
                for a, _ in m:
                    r |= loops_read(a)
            r = frozenset(r)
            if len(_lr) > 200000:
                _lr.clear()
            _lr[x] = r
        return r
    if not isinstance(x, tuple) or not x:
        return frozenset()
    if x[0] == "prev" and len(x) >= 3:
        return frozenset((x[1],))
    if x[0] == "iter":
        r = _lr.get(x[:6])
        if r is None:
            r = frozenset().union(*[loops_read(y) for y in x[2:6] if isinstance(y, (tuple, Poly))]) - {x[1]}
            _lr[x[:6]] = r
        return r
    r = set()
    for y in x:
        if isinstance(y, (tuple, Poly)):
            r |= loops_read(y)
    return frozenset(r)


# ---------------------------------------------------------------- sampling of sizes
def base_atoms(x, out, seen=None):
    seen = set() if seen is None else seen
    if isinstance(x, (Poly, tuple)):
        if isinstance(x, tuple) and x and x[0] in ("sym", "size", "rank") and len(x) >= 2 and isinstance(x[1], str):
            out.add(x)
            return
        if id(x) in seen:
            return
        seen.add(id(x))
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                base_atoms(a, out, seen)
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, (tuple, Poly)):
                base_atoms(y, out, seen)
    elif isinstance(x, Cond):
        for y in x.args:
            base_atoms(y, out, seen)


def cond_value(c, ev, b=None):
    b = b or {}
    if isinstance(c, bool):
        return c
    if c.kind == "gt":
        v = ev.ev(c.args[0], b)
        return _re(v) > 1e-9
    if c.kind == "eq":
        return abs(ev.ev(c.args[0], b)) < 1e-9
    if c.kind == "not":
        return not cond_value(c.args[0], ev, b)
    if c.kind == "and":
        return all(cond_value(x, ev, b) for x in c.args)
    if c.kind == "or":
        return any(cond_value(x, ev, b) for x in c.args)
    if c.kind == "opq" and isinstance(c.args[0], tuple) and c.args[0][0] == "truth" and c.args[0][1][0] == "lam" and not c.args[0][1][1]:
        return bool(abs(ev.ev(c.args[0][1][2], b)) > 1e-9)
    raise Unknown("opaque condition")


def holds(c, v, ev):
    """condition c has value v; a condition about the elements of a sequence: for every element"""
    fv = set()
    for a in c.args:
        if isinstance(a, Poly):
            fv |= {x for x in T.freevars(a) if x[0] in ("fi", "ax") and x[1] in T.AXSIZE}
    if not fv:
        return cond_value(c, ev) == v
    fv = sorted(fv)
    rng = [range(ev.int(T.AXSIZE[x[1]], {})) for x in fv]
    for ix in itertools.product(*rng):
        if cond_value(c, ev, dict(zip(fv, ix))) != v:
            return False
    return True


def sample(polys, conds, rng, tries=4000, maxsize=6, fixed=None, strict=False):
    """an assignment of sizes satisfying conds [(Cond, bool)], or None.  Conditions that cannot be evaluated are skipped."""
    atoms = set()
    for p in polys:
        base_atoms(p, atoms)
    for c, _ in conds:
        base_atoms(c, atoms)
    groups = sorted({a[1] for a in atoms if a[0] in ("size", "rank")})
    syms = sorted((a for a in atoms if a[0] == "sym" and a[1] != "inf"), key=repr)
    for t in range(tries):
        env = {}
        hi = maxsize if t < tries * 0.5 else maxsize + 6
        for g in groups:
            n = rng.choice([2, 2, 3]) if ("size", g) in T.GT1 else rng.choice([1, 2, 3])
            env[("size", g)] = n
            env[("rank", g)] = rng.randrange(n)
        for s in syms:
            lo = s[2] if len(s) > 2 and isinstance(s[2], int) else 1
            env[s] = rng.randint(*PREFER[s[1]]) if s[1] in PREFER and t < tries // 2 else rng.randint(lo, max(hi, lo + 2))
        if fixed:
            env.update(fixed)
        ev = Eval(env, 0)
        ok = True
        for c, v in conds:
            try:
                if not holds(c, v, ev):
                    ok = False
                    break
            except (Unknown, Undef):
                if strict:
                    raise Unknown("condition %s not evaluable" % c)
                continue
        if ok:
            return env
    return None


PTS = [None]         # how many points are compared per interpretation (costly terms)
PREFER = {}         # ranges of symbols that are sampled first
START = [0]         # how small the sampled sizes start (costly terms)


class Differ:
    def __init__(self, env, at, a, b):
        self.env, self.at, self.a, self.b = env, at, a, b

    def __str__(self):
        e = ", ".join("%s=%s" % (k[1] if k[0] == "sym" else "%s(%s)" % (k[0], k[1]), v) for k, v in sorted(self.env.items(), key=repr))
        return "with %s at index %s: %s vs %s" % (e, self.at, self.a, self.b)


def distinguish(p, q, axes, conds, trials=16, seed=1, maxpts=120):
    """None: no difference found; Differ: a refuting interpretation; raises Unknown when undecidable"""
    rng = random.Random(seed)
    maxpts = PTS[0] or maxpts
    sizes = [T.axsize(a) for a in axes]
    tested = spent = 0
    over = START[0]
    for t in range(trials):
        env = sample([p, q] + sizes, conds, rng, maxsize=(6, 4, 3, 2)[min(over, 3)])
        if env is None:
            if t == 0:
                raise Unknown("no sizes satisfy the path condition")
            break
        ev = Eval(env, seed=t)
        try:
            dims = [ev.int(s, {}) for s in sizes]
        except Undef:
            continue
        n = 1
        for d in dims:
            n *= max(d, 0)
        if n == 0:
            continue
        if n <= maxpts:
            pts = list(itertools.product(*[range(d) for d in dims]))
        else:
            pts = [tuple(rng.randrange(d) for d in dims) for _ in range(maxpts)]
            pts += [tuple(0 for _ in dims), tuple(d - 1 for d in dims)]
        for ix in pts:
            b = dict(zip(axes, ix))
            try:
                try:
                    x = ev.ev(p, b)
                    xu = False
                except Undef:
                    x, xu = None, True
                try:
                    y = ev.ev(q, b)
                    yu = False
                except Undef:
                    y, yu = None, True
            except Unknown as e:
                if "budget" not in str(e) or over >= 5:
                    raise
                over += 1           # too large an interpretation: smaller sizes from here on
                break
            if xu or yu:
                continue            # not defined on one side (division by zero): no verdict at this point
            tested += 1
            if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
                up, uq = set(), set()
                uninterpreted(p, up)
                uninterpreted(q, uq)
                if up != uq:
                    raise Unknown("uninterpreted operators differ: %s" % ", ".join(sorted(up ^ uq))[:80])
                return Differ(env, ix, x, y)
        spent += ev.steps
        if t >= 3 and spent > 60000:
            break
    if not tested:
        raise Unknown("no point evaluated")
    return None


def survives(p, axes, conds, trials=3, pts=6):
    """interpretation (sizes) under which p has no value, or None"""
    rng = random.Random(3)
    for t in range(trials):
        env = sample([p] + [T.axsize(a) for a in axes], conds, rng, maxsize=3)
        if env is None:
            continue
        ev = Eval(env, seed=t)
        ev.strict = True
        dims = [ev.int(T.axsize(a), {}) for a in axes]
        for _ in range(pts):
            try:
                v = ev.ev(p, {a: rng.randrange(d) for a, d in zip(axes, dims)})
            except (Undef, OverflowError):
                return env
            if v != v or abs(v) == float("inf"):
                return env
    return None


def out_of_range(e, axes, size, conds, trials=6, pts=80):
    """(interpretation, point, value, size) with the index outside [-size, size), "negative" if it is only ever negative, or None"""
    rng = random.Random(11)
    neg = None
    for t in range(trials):
        env = sample([e, size] + [T.axsize(a) for a in axes], conds, rng, tries=800, maxsize=(6, 6, 4, 3)[min(t, 3)])
        if env is None:
            return neg
        ev = Eval(env, seed=t)
        try:
            dims = [ev.int(T.axsize(a), {}) for a in axes]
            n = ev.int(size, {})
        except Undef:
            continue
        cnt = 1
        for d in dims:
            cnt *= max(d, 0)
        if cnt == 0:
            continue
        ps = itertools.product(*[range(d) for d in dims]) if cnt <= pts else [tuple(rng.randrange(d) for d in dims) for _ in range(pts)] + [tuple(d - 1 for d in dims)]
        for ix in ps:
            try:
                v = ev.ev(e, dict(zip(axes, ix)))
            except Undef:
                continue
            if v >= n - 1e-9 or v < -n - 1e-9:
                return (env, ix, v, n)
            if v < -1e-9:
                neg = "negative"
    return neg
