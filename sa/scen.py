"""Scenarios: how the analyser enters the package (which classes, with which abstract arguments)."""
import ast
import os
import sys
from fractions import Fraction
from . import terms as T
from .terms import Poly, P
from .values import *  # noqa
from . import torchops as O
from .interp import Repo, Interp, explore, RaiseEx, GiveUp, MISSING

sys.setrecursionlimit(200000)
F32, F64, BF16, F16, C64, C128 = DT("float32"), DT("float64"), DT("bfloat16"), DT("float16"), DT("complex64"), DT("complex128")
D = "torch_harmonics.distributed."


# ------------------------------------------------------------------ function summaries
def num(v):
    return v if isinstance(v, Poly) else None


def getarg(fn, args, kw, name):
    names = [a.arg for a in fn.node.args.posonlyargs + fn.node.args.args]
    if name in kw:
        return kw[name]
    if name in names and names.index(name) < len(args):
        return args[names.index(name)]
    nd = len(names) - len(fn.node.args.defaults)
    if name in names and names.index(name) >= nd:
        d = fn.node.args.defaults[names.index(name) - nd]
        try:
            return ast.literal_eval(d)
        except Exception:
            return Top("default")
    return MISSING


def sum_split_shapes(it, fn, args, kw, node):
    S, n = getarg(fn, args, kw, "size"), getarg(fn, args, kw, "num_chunks")
    S, n = num(S), num(n)
    if S is None or n is None:
        return MISSING
    S, n = it.simplify(S), it.simplify(n)
    it.check(it.compare(ast.GtE(), S, n), node, "check", "RuntimeError")
    v = n.intval()
    if v is not None and v <= 8:
        l = L([T.split(S, n, P(i)) if v > 1 else S for i in range(v)])
        return l
    i = new_fi(n)
    l = L([])
    l.fam = Fam(n, i, T.split(S, n, Poly.atom(i)))
    return l


def quad_def(rule, n, a, b, periodic=None):
    """(nodes, weights) of a quadrature rule on [a, b], by definition"""
    out = []
    extra = () if periodic is None else (P(1 if periodic else 0),)
    for part in (0, 1):
        ax = T.new_axis(n)
        e = Poly.atom(("fn", "def:quad", rule, part, n, Poly.atom(ax)) + extra)
        e = (b - a) * P(Fraction(1, 2)) * e + ((b + a) * P(Fraction(1, 2)) if part == 0 else T.ZERO)
        out.append(Ten([ax], e, F64, O.FRESH))
    return tuple(out)


def as_poly(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float)):
        return P(Fraction(v).limit_denominator(10 ** 9)) if v != int(v) else P(int(v))
    return v if isinstance(v, Poly) else None


def sum_quad(it, fn, args, kw, node):
    n = num(args[0] if args else kw.get("n"))
    if n is None:
        return MISSING
    a, b = as_poly(getarg(fn, args, kw, "a")), as_poly(getarg(fn, args, kw, "b"))
    if a is None or b is None:
        return MISSING
    per = None
    if fn.name == "trapezoidal_weights":
        per = getarg(fn, args, kw, "periodic")
        if not isinstance(per, bool):
            return MISSING
    if fn.name == "clenshaw_curtiss_weights":
        it.check(it.compare(ast.Gt(), n, P(1)), node, "check", "ValueError")
    return quad_def(fn.name, n, a, b, per)


def legendre_def(comp, m, l, t, norm, inverse, cs):
    """table of (derivatives of) normalised associated Legendre functions at cos(t), by definition"""
    ax = ([T.new_axis(2)] if comp else []) + [T.new_axis(m), T.new_axis(l), T.new_axis(t.shape[0])]
    idx = [Poly.atom(x) for x in ax]
    th = T.subst(t.expr, {t.axes[0]: idx[-1]})
    if comp:
        e = Poly.atom(("fn", "def:dplm", norm, inverse, cs, idx[0], idx[1], idx[2], th))
    else:
        e = Poly.atom(("fn", "def:plm", norm, inverse, cs, idx[0], idx[1], O.ewise(None, "cos", [th])))
    return Ten(ax, e, F64, O.FRESH)


def sum_legpoly(comp):
    def h(it, fn, args, kw, node):
        v = {k: getarg(fn, args, kw, k) for k in ("mmax", "lmax", "t", "norm", "inverse", "csphase")}
        if any(x is MISSING for x in v.values()):
            return MISSING
        m, l, t = num(v["mmax"]), num(v["lmax"]), v["t"]
        if m is None or l is None or not isinstance(t, Ten) or not t.known() or len(t.axes) != 1:
            return MISSING
        if not isinstance(v["norm"], str) or not isinstance(v["inverse"], bool) or not isinstance(v["csphase"], bool):
            return MISSING
        return legendre_def(comp, m, l, t, v["norm"], v["inverse"], v["csphase"])
    return h


def sum_vspec_quad(it, fn, args, kw, node):
    rule, n, a, b, per = args
    return quad_def(rule, num(n), as_poly(a), as_poly(b), per)


def sum_vspec_leg(comp):
    def h(it, fn, args, kw, node):
        m, l, t, norm, inv, cs = args
        return legendre_def(comp, num(m), num(l), t, norm, inv, cs)
    return h


SUMMARIES = {
    "vspec.QUAD": sum_vspec_quad,
    "vspec.LEG": sum_vspec_leg(False),
    "vspec.DLEG": sum_vspec_leg(True),
    "*.compute_split_shapes": sum_split_shapes,
    "*.legendre_gauss_weights": sum_quad,
    "*.lobatto_weights": sum_quad,
    "*.clenshaw_curtiss_weights": sum_quad,
    "*.trapezoidal_weights": sum_quad,
    "*._precompute_legpoly": sum_legpoly(False),
    "*._precompute_dlegpoly": sum_legpoly(True),
}


def base_config(**kw):
    c = {"summaries": dict(SUMMARIES), "overrides": {}, "env": {}, "device": "cpu"}
    for k, v in kw.items():
        if isinstance(v, dict) and isinstance(c.get(k), dict):
            c[k].update(v)
        else:
            c[k] = v
    return c


# ------------------------------------------------------------------ process grid
class Grid:
    """a process grid: for each direction None (no group), 1 (group of one) or 'many'"""
    def __init__(self, polar, azimuth):
        self.polar, self.azimuth = polar, azimuth
        self.gp = None if polar is None else Group("polar", polar == "many")
        self.ga = None if azimuth is None else Group("azimuth", azimuth == "many")

    def np(self):
        return self.gp.size() if self.gp else T.ONE

    def na(self):
        return self.ga.size() if self.ga else T.ONE

    def rp(self):
        return self.gp.rank() if self.gp else T.ZERO

    def ra(self):
        return self.ga.rank() if self.ga else T.ZERO

    def lat(self, S):
        return T.split(S, self.np(), self.rp()) if self.polar == "many" else S

    def lon(self, S):
        return T.split(S, self.na(), self.ra()) if self.azimuth == "many" else S

    def __repr__(self):
        return "polar=%s azimuth=%s" % (self.polar, self.azimuth)


GRIDS = [Grid("many", "many"), Grid("many", 1), Grid(1, "many"), Grid(1, 1), Grid("many", None), Grid(None, "many"), Grid(None, None)]


def init_grid(it, grid):
    it.groups = {"polar": grid.gp, "azimuth": grid.ga}
    T.GT1.clear()
    if grid.polar == "many":
        T.GT1.add(("size", "polar"))
    if grid.azimuth == "many":
        T.GT1.add(("size", "azimuth"))
    if grid.gp is None and grid.ga is None:
        return
    f = cls(it, "torch_harmonics.distributed.init")
    it.call(f, [grid.gp, grid.ga], {})


_REPO = None


def repo():
    global _REPO
    if _REPO is None:
        _REPO = Repo(os.environ.get("VERIF_REPO", "/repo"))
    return _REPO


def cls(it, dotted):
    """resolve a dotted name inside the analysed package"""
    parts = dotted.split(".")
    for k in range(len(parts), 0, -1):
        m = ".".join(parts[:k])
        if m in it.repo.mods:
            v = it.repo.mods[m]
            for nm in parts[k:]:
                v = it.modattr(v, nm) if not isinstance(v, Cls) else it.classattr(v, nm)
                if v is MISSING:
                    raise GiveUp("name %s not found" % dotted)
            return v
    raise GiveUp("name %s not found" % dotted)
