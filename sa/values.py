"""Abstract values."""
import itertools
from . import terms as T
from .terms import Poly, P

_uid = itertools.count(1)


class Top:
    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "Top(%s)" % (self.why,)


class Cond:
    """symbolic truth value; key is hashable and canonical"""

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    @property
    def key(self):
        return (self.kind,) + tuple(a.key if isinstance(a, Cond) else (a.key() if isinstance(a, Poly) else a) for a in self.args)

    def __repr__(self):
        if self.kind == "gt":
            return "(%s > 0)" % T.show(self.args[0])
        if self.kind == "eq":
            return "(%s == 0)" % T.show(self.args[0])
        return "%s(%s)" % (self.kind, ", ".join(map(repr, self.args)))


class L:
    """a Python list with known elements (mutable, by reference)"""

    def __init__(self, items):
        self.items = list(items)
        self.fam = None           # set when it became a symbolic family through a loop
        self.uid = next(_uid)

    def __repr__(self):
        return "L%r" % (self.items,) if self.fam is None else "L<%r>" % self.fam


class Fam:
    """sequence of symbolic length n: element number idx is elem"""

    def __init__(self, n, idx, elem):
        self.n, self.idx, self.elem = n, idx, elem

    def __repr__(self):
        return "Fam(%s; %r)" % (T.show(self.n), self.elem)


def new_fi(n):
    i = next(T._counter)
    T.AXSIZE[i] = P(n)
    return ("ax", i)


class Group:
    def __init__(self, name, many):
        self.name, self.many = name, many

    def size(self):
        return Poly.atom(("size", self.name)) if self.many else T.ONE

    def rank(self):
        return Poly.atom(("rank", self.name)) if self.many else T.ZERO

    def __repr__(self):
        return "Group(%s)" % self.name


class GRanks:
    def __init__(self, group):
        self.group = group


class GRank:
    """global rank of member idx of a group"""

    def __init__(self, group, idx):
        self.group, self.idx = group, idx

    def __repr__(self):
        return "GRank(%s,%s)" % (self.group, self.idx)


class DType:
    INFO = {  # name: (category, rank)
        "bool": (0, 0), "uint8": (1, 1), "int8": (1, 1), "int16": (1, 2), "int32": (1, 3), "int64": (1, 4),
        "float16": (2, 1), "bfloat16": (2, 1), "float32": (2, 2), "float64": (2, 3),
        "complex32": (3, 1), "complex64": (3, 2), "complex128": (3, 3),
    }
    ALIAS = {"half": "float16", "float": "float32", "double": "float64", "cfloat": "complex64", "cdouble": "complex128", "long": "int64", "int": "int32", "bfloat16": "bfloat16"}


class DT:
    """dtype value; name None = unknown"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = DType.ALIAS.get(name, name)

    def __eq__(self, o):
        return isinstance(o, DT) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "torch.%s" % self.name


UNK = DT(None)


def promote(a, b, ascal=False, bscal=False):
    """type promotion of two DT; scal marks python scalars / 0-d"""
    if a is None or a.name is None or b is None or b.name is None:
        return UNK
    if a == b:
        return a
    ca, ra = DType.INFO[a.name]
    cb, rb = DType.INFO[b.name]
    if ascal and not bscal:
        return b if ca <= cb else (_lift(b, ca))
    if bscal and not ascal:
        return a if cb <= ca else (_lift(a, cb))
    if ca == cb:
        if ra == rb:
            return DT("float32") if ca == 2 else UNK
        return a if ra > rb else b
    hi, lo = (a, b) if ca > cb else (b, a)
    ch, rh = DType.INFO[hi.name]
    cl, rl = DType.INFO[lo.name]
    if ch == 3 and cl == 2 and rl > rh:
        return DT({1: "complex32", 2: "complex64", 3: "complex128"}[rl])
    return hi


def _lift(a, cat):
    ca, ra = DType.INFO[a.name]
    if cat == 2:
        return DT("float32") if ca < 2 else a
    if cat == 3:
        return to_complex(a)
    return DT("int64") if ca < 1 else a


def to_complex(d):
    return DT({"float16": "complex32", "bfloat16": None, "float32": "complex64", "float64": "complex128"}.get(d.name, d.name if d.name and d.name.startswith("complex") else ("complex64" if d.name else None)))


def to_real(d):
    return DT({"complex32": "float16", "complex64": "float32", "complex128": "float64"}.get(d.name, d.name))


class Ten:
    """abstract tensor: axes (free index variables), element value number, dtype, possible storage origins"""

    def __init__(self, axes, expr, dtype=UNK, org=frozenset(), param=None, grad=False, device=None):
        self.axes = list(axes)
        self.expr = expr
        self.dtype = dtype
        self.org = frozenset(org)      # storage this value may alias
        self.id = next(_uid)
        self.param = param
        self.sparse = False
        self.meta = {}

    @property
    def shape(self):
        return [T.axsize(a) for a in self.axes]

    def known(self):
        return self.expr is not None

    def __repr__(self):
        return "Ten(%s %s)[%s]" % (", ".join(T.show(s) for s in self.shape), self.dtype.name, T.show(self.expr, 200) if self.expr is not None else "?")


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.buffers = {}      # name -> persistent flag
        self.params = {}
        self.ext_base = None

    def __repr__(self):
        return "<%s>" % (self.cls.name if self.cls else "obj")


class Fn:
    def __init__(self, node, mod, qual, closure=None, cls=None, defaults=None):
        self.node, self.mod, self.qual, self.closure, self.cls = node, mod, qual, closure, cls
        self.defaults = defaults

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def __repr__(self):
        return "Fn(%s)" % self.qual


class Cls:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.qual = mod.name + "." + node.name
        self.attrs = None

    def __repr__(self):
        return "Cls(%s)" % self.qual


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return "Bound(%r)" % self.fn


class Ext:
    """external (library) object by dotted name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class ExtObj:
    """instance of an external class, e.g. nn.Linear(...) or a context manager"""

    def __init__(self, name, args=(), kwargs=None):
        self.name, self.args, self.kwargs = name, args, kwargs or {}
        self.attrs = {}

    def __repr__(self):
        return "ExtObj(%s)" % self.name


class Method:
    """method of a builtin abstract value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "Method(%r.%s)" % (self.obj, self.name)


def subst_value(v, env):
    if isinstance(v, Poly):
        return T.subst(v, env)
    if isinstance(v, Ten):
        e2 = dict(env)
        axes = []
        for a in v.axes:
            s = T.subst(T.axsize(a), env)
            if s != T.axsize(a):
                na = T.new_axis(s)
                e2[a] = Poly.atom(na)
                axes.append(na)
            else:
                axes.append(a)
        r = Ten(axes, T.subst(v.expr, e2) if v.expr is not None else None, v.dtype, v.org, v.param)
        r.sparse = v.sparse
        r.meta = dict(v.meta)
        return r
    if isinstance(v, tuple):
        return tuple(subst_value(x, env) for x in v)
    if isinstance(v, L):
        if v.fam is not None:
            return subst_value(v.fam, env)
        return L([subst_value(x, env) for x in v.items])
    if isinstance(v, Fam):
        return Fam(T.subst(v.n, env), v.idx, subst_value(v.elem, {k: x for k, x in env.items() if k != v.idx}))
    if isinstance(v, GRank):
        return GRank(v.group, T.subst(v.idx, env))
    if isinstance(v, Cond):
        return Cond(v.kind, *[subst_value(x, env) for x in v.args])
    return v
