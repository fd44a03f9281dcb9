"""Abstract interpreter for the Python sources (no execution of the code under analysis).

Values are abstract (sa.values); calls to functions of the repository are analysed in their callee
(so extracting or inlining a helper changes nothing), calls to libraries use transfer functions in
sa.torchops.  Branches whose condition is not determined by the configuration are partitioned: the
driver `explore` re-analyses the entry point once per outcome.
"""
from fractions import Fraction
import ast
import os
from . import terms as T
from .terms import Poly, P
from .values import *  # noqa
from .values import _uid


class RaiseEx(Exception):
    def __init__(self, exc, node=None, cond=None):
        self.exc, self.node = exc, node


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class GiveUp(Exception):
    pass


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.ispkg = path.endswith("__init__.py")


class Repo:
    """parsed sources of the package"""

    def __init__(self, root="/repo", pkg="torch_harmonics"):
        self.root, self.pkg = root, pkg
        self.mods = {}
        self.failed = []
        base = os.path.join(root, pkg)
        for d, dirs, files in os.walk(base):
            dirs[:] = [x for x in dirs if x not in ("__pycache__",)]
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    try:
                        src = open(p, encoding="utf-8").read()
                        self.mods[rel] = Module(rel, p, ast.parse(src), src)
                    except (SyntaxError, UnicodeDecodeError) as e:
                        self.failed.append((p, str(e)))

        sp = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
        for f in sorted(os.listdir(sp)) if os.path.isdir(sp) else []:
            if f.endswith(".py"):
                p = os.path.join(sp, f)
                src = open(p, encoding="utf-8").read()
                self.mods[f[:-3]] = Module(f[:-3], p, ast.parse(src), src)

    def rel(self, path):
        return os.path.relpath(path, self.root)


MISSING = object()
MAXDEPTH = 40


class Frame:
    def __init__(self, fn, mod, parent=None):
        self.fn, self.mod, self.parent = fn, mod, parent
        self.vars = {}
        self.globals_ = set()
        self.nonlocals = set()
        self.node = None


class Interp:
    def __init__(self, repo, config=None):
        from . import torchops
        self.repo = repo
        self.ops = torchops
        self.config = config or {}
        self.modenv = {}
        self.modeval = set()
        self.stack = []
        self.tape = []            # applications of autograd functions
        self.events = []          # (kind, message, location)
        self.trace = []           # collective calls
        self.guards = []          # conditions established by checks
        self.decisions = []       # replayed decisions
        self.taken = []           # decisions on this path: (key, cond, value)
        self.known = {}           # cond key -> bool
        self.pos = 0
        self.autocast = []
        self.opaque_log = []
        self.bounds = {}          # index expressions used: (expression, axes, size) -> (location, function)
        self.calls = []           # (qualified callee, location) of repo functions analysed
        self.steps = 0
        self.maxsteps = self.config.get("maxsteps", 400000)
        self.loops = []
        self.famidx = []          # index variables of the symbolic iterations being analysed
        self.overrides = dict(self.config.get("overrides", {}))
        self.groups = {}
        self.nodecount = {}
        self.sideeffects = []
        self.eqs = {}
        self.visited = set()
        self.undecided = []

    # ------------------------------------------------------------------ locations / events
    def loc(self, node=None):
        if self.stack:
            fr = self.stack[-1]
            n = node or fr.node
            return "%s:%s in %s" % (self.repo.rel(fr.mod.path), getattr(n, "lineno", "?"), fr.fn.qual if fr.fn else fr.mod.name)
        return "?"

    def event(self, kind, msg, node=None):
        fn = self.stack[-1].fn.qual if self.stack and self.stack[-1].fn else "?"
        self.events.append((kind, msg, self.loc(node), fn))

    def use_index(self, e, axes, size, node=None):
        """e (over axes) indexes a dimension of the given size"""
        fn = self.stack[-1].fn.qual if self.stack and self.stack[-1].fn else "?"
        if e is not None and len(self.bounds) < 400 and "vspec" not in fn:
            self.bounds.setdefault((e, tuple(axes), size), (self.loc(node), fn))

    def opaque(self, why, node=None):
        self.opaque_log.append((why, self.loc(node)))
        return Top(why)

    # ------------------------------------------------------------------ module level
    def module_env(self, mod):
        if mod.name not in self.modenv:
            env = {"__name__": mod.name, "__file__": mod.path}
            self.modenv[mod.name] = env
            self._index(mod, mod.tree.body, env)
        return self.modenv[mod.name]

    def _index(self, mod, body, env):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # conditional / repeated definitions: keep the last, except registrations on top of a def
                env[st.name] = ("lazy", "def", st)
            elif isinstance(st, ast.ClassDef):
                env[st.name] = Cls(st, mod)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        env[a.asname] = ("lazy", "mod", a.name)
                    else:
                        env[a.name.split(".")[0]] = ("lazy", "mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._frombase(mod, st)
                for a in st.names:
                    if a.name == "*":
                        continue
                    env[a.asname or a.name] = ("lazy", "from", base, a.name)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                tg = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tg:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            env[n.id] = ("lazy", "assign", st, n.id)
            elif isinstance(st, ast.If):
                self._index(mod, st.body, env)
                # names only defined in else are still visible
                env2 = {}
                self._index(mod, st.orelse, env2)
                for k, v in env2.items():
                    env.setdefault(k, v)
            elif isinstance(st, ast.Try):
                self._index(mod, st.body, env)
                for h in st.handlers:
                    env2 = {}
                    self._index(mod, h.body, env2)
                    for k, v in env2.items():
                        env.setdefault(k, v)
            elif isinstance(st, ast.With):
                self._index(mod, st.body, env)

    def _frombase(self, mod, st):
        if st.level == 0:
            return st.module or ""
        parts = mod.name.split(".")
        if not mod.ispkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (st.level - 1)] if st.level > 1 else parts
        return ".".join(parts + ([st.module] if st.module else []))

    def import_name(self, dotted):
        if dotted in self.repo.mods:
            return self.repo.mods[dotted]
        return Ext(dotted)

    def modattr(self, mod, name):
        ov = self.overrides.get(mod.name + "." + name, MISSING)
        if ov is not MISSING:
            return ov
        env = self.module_env(mod)
        v = env.get(name, MISSING)
        if v is MISSING:
            sub = mod.name + "." + name
            if sub in self.repo.mods:
                return self.repo.mods[sub]
            return MISSING
        if isinstance(v, tuple) and v and v[0] == "lazy":
            v = self._force(mod, env, name, v)
        return v

    def _force(self, mod, env, name, v):
        kind = v[1]
        if kind == "def":
            r = Fn(v[2], mod, mod.name + "." + name)
            env[name] = r
            return r
        if kind == "mod":
            r = self.import_name(v[2])
            env[name] = r
            return r
        if kind == "from":
            base, nm = v[2], v[3]
            if base in self.repo.mods:
                m = self.repo.mods[base]
                if (base, nm) in self.modeval:
                    return Top("import cycle")
                self.modeval.add((base, nm))
                r = self.modattr(m, nm)
                self.modeval.discard((base, nm))
                if r is MISSING:
                    r = Top("unresolved import %s.%s" % (base, nm))
            else:
                r = Ext(base + "." + nm)
            env[name] = r
            return r
        if kind == "assign":
            st = v[2]
            fr = Frame(None, mod)
            fr.fn = Fn(ast.parse("def module_level(): pass").body[0], mod, mod.name + ".<module>")
            env[name] = Top("recursive module value")
            self.stack.append(fr)
            fr.module_level = True
            try:
                if isinstance(st, ast.AnnAssign) and st.value is None:
                    env[name] = Top("unassigned")
                else:
                    val = self.ev(st.value)
                    fr.vars = {}
                    for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                        self._assign_names(t, val, env)
            except (RaiseEx, GiveUp) as e:
                env[name] = Top("module value: %s" % e)
            finally:
                self.stack.pop()
            return env[name]
        return Top("lazy")

    def _assign_names(self, t, val, env):
        if isinstance(t, ast.Name):
            env[t.id] = val
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(val)
            for i, x in enumerate(t.elts):
                self._assign_names(x, items[i] if isinstance(items, list) and i < len(items) else Top("unpack"), env)

    # ------------------------------------------------------------------ decisions
    def simplify(self, p):
        """apply path equalities"""
        if not self.eqs:
            return p
        for _ in range(3):
            q = self._rewrite(p)
            if q == p:
                break
            p = q
        return p

    def _rewrite(self, p):
        return T.replace(p, self.eqs)

    def same(self, a, b):
        return a == b or self.simplify(a) == self.simplify(b)

    def truth(self, v, node=None):
        """bool or Cond for a value"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, Poly):
            c = v.constval()
            if c is not None:
                return c != 0
            if T.sign(v) in (1, -1):
                return True
            return Cond("not", Cond("eq", v))
        if isinstance(v, Cond):
            return v
        if isinstance(v, (tuple, dict)):
            return len(v) > 0
        if isinstance(v, L):
            if v.fam is not None:
                return True
            return len(v.items) > 0
        if isinstance(v, (Obj, Fn, Cls, Bound, Ext, ExtObj, Group, Module, DT, Fam)):
            return True
        if isinstance(v, Ten) and v.expr is not None:
            return Cond("opq", ("truth", self.ops.tkey(v)))
        return Cond("opq", ("top", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), self.stack[-1].fn.qual if self.stack and self.stack[-1].fn else ""))

    def decide(self, v, node=None):
        c = self.truth(v, node)
        if isinstance(c, bool):
            return c
        r = self.static(c)
        if r is not None:
            return r
        if c.kind == "not":
            return not self.decide(c.args[0], node)
        if c.kind == "and":
            for x in c.args:
                if not self.decide(x, node):
                    return False
            return True
        if c.kind == "or":
            for x in c.args:
                if self.decide(x, node):
                    return True
            return False
        k = c.key
        if k in self.known:
            return self.known[k]
        if self.pos < len(self.decisions):
            val = self.decisions[self.pos]
        else:
            val = self.config.get("default_decision", True)
            self.decisions.append(val)
        self.pos += 1
        self.taken.append((k, c, val, self.loc(node)))
        self.assume(c, val)
        return val

    def assume(self, c, val):
        if isinstance(c, bool):
            return
        if c.kind == "not":
            return self.assume(c.args[0], not val)
        if c.kind == "and" and val:
            for x in c.args:
                self.assume(x, True) if isinstance(x, Cond) else None
            return
        if c.kind == "or" and not val:
            for x in c.args:
                self.assume(x, False) if isinstance(x, Cond) else None
            return
        self.known[c.key] = val
        if c.kind == "gt":
            # p > 0 decided: record integer consequences
            if val:
                self.known.setdefault(Cond("eq", c.args[0]).key, False)
                self.known.setdefault(Cond("eq", -c.args[0]).key, False)
                self.known.setdefault(Cond("gt", -c.args[0]).key, False)
            else:
                self._max_equality(c.args[0])
                if c.args[0].t and self.static(Cond("gt", -c.args[0])) is False:
                    self._orient(c.args[0])
                    self.known.setdefault(Cond("eq", c.args[0]).key, True)
                    self.known.setdefault(Cond("eq", -c.args[0]).key, True)
        if c.kind == "eq" and val:
            self._orient(c.args[0])
            self.known.setdefault(Cond("gt", c.args[0]).key, False)
            self.known.setdefault(Cond("gt", -c.args[0]).key, False)

    def _orient(self, p):
        """p == 0: rewrite one linear atom"""
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                a = m[0][0]
                rank = {"max": 5, "min": 5, "mod": 4, "fdiv": 4, "fmax": 5, "fmin": 5, "split": 3, "sym": 1}.get(a[0], 0)
                if rank and (best is None or rank > best[0]):
                    rest = -(p - Poly({m: c})) * Poly.const(Fraction(1) / c)
                    if a in [x for mm in rest.t for x, _ in mm]:
                        continue
                    best = (rank, a, rest)
        if best:
            self.eqs[best[1]] = best[2]

    def _max_equality(self, p):
        """not (p > 0) with p = fmax - elem  =>  fmax == elem"""
        for m, c in p.t.items():
            if len(m) == 1 and m[0][0][0] == "fmax" and c == 1:
                self._orient(p)

    def static(self, c):
        """truth of a condition that holds in every run, else None"""
        if isinstance(c, bool):
            return c
        if not isinstance(c, Cond):
            return None
        if c.kind == "not":
            r = self.static(c.args[0])
            return None if r is None else not r
        if c.kind == "and":
            rs = [self.static(x) for x in c.args]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if c.kind == "or":
            rs = [self.static(x) for x in c.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if c.key in self.known:
            return self.known[c.key]
        if c.kind in ("gt", "eq"):
            p = self.simplify(c.args[0])
            v = p.constval()
            if v is not None:
                return v > 0 if c.kind == "gt" else v == 0
            s = T.sign(p)
            if s is not None:
                return s > 0 if c.kind == "gt" else s == 0
            lo, hi = T.lower(p), T.upper(p)
            if c.kind == "gt":
                if T.nonneg(-p) or (hi is not None and T.nonneg(-hi)):
                    return False
                if lo is not None and T.sign(lo) == 1:
                    return True
            if c.kind == "eq":
                if Cond("eq", -p).key in self.known:
                    return self.known[Cond("eq", -p).key]
        return None

    # ------------------------------------------------------------------ comparisons
    def compare(self, op, a, b, node=None):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self._is(a, b)
            if isinstance(op, ast.IsNot):
                return (not r) if isinstance(r, bool) else Cond("not", r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self._in(a, b, node)
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else Cond("not", r)
            return r
        if isinstance(a, Ten) or isinstance(b, Ten):
            nm = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.Gt: "gt", ast.LtE: "le", ast.GtE: "ge"}.get(type(op), "cmp")
            return self.ops.ewise(self, "cmp_" + nm, [a, b], DT("bool"))
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = a - b
            if isinstance(op, ast.Eq):
                return self._norm(Cond("eq", self._csign(d)))
            if isinstance(op, ast.NotEq):
                return self._neg(self._norm(Cond("eq", self._csign(d))))
            if isinstance(op, ast.Gt):
                return self._norm(Cond("gt", d))
            if isinstance(op, ast.Lt):
                return self._norm(Cond("gt", -d))
            # integers: a >= b  <=>  not (b > a)
            if isinstance(op, ast.GtE):
                return self._neg(self._norm(Cond("gt", -d)))
            if isinstance(op, ast.LtE):
                return self._neg(self._norm(Cond("gt", d)))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self._eqv(a, b)
            if isinstance(op, ast.NotEq):
                return (not r) if isinstance(r, bool) else self._neg(r)
            return r
        return Cond("opq", ("cmp", self.keyof(a), type(op).__name__, self.keyof(b)))

    def _csign(self, d):
        n = -d
        return n if n.key() < d.key() else d

    def _norm(self, c):
        r = self.static(c)
        return c if r is None else r

    def _neg(self, c):
        if isinstance(c, bool):
            return not c
        if c.kind == "not":
            return c.args[0]
        return Cond("not", c)

    def _is(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Top):
                return Cond("opq", ("isnone", o.why))
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, (Top, Cond)) or isinstance(b, (Top, Cond)):
                return Cond("opq", ("is", self.keyof(a), self.keyof(b)))
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if isinstance(a, Ten) and isinstance(b, Ten):
            return False            # distinct objects
        return Cond("opq", ("is", self.keyof(a), self.keyof(b)))

    def _eqv(self, a, b):
        if isinstance(a, (L, tuple)) and isinstance(b, (L, tuple)):
            x = self.iterate(a)
            y = self.iterate(b)
            if isinstance(x, list) and isinstance(y, list):
                if len(x) != len(y):
                    return False
                cs = [self.compare(ast.Eq(), p, q) for p, q in zip(x, y)]
                if any(c is False for c in cs):
                    return False
                cs = [c for c in cs if c is not True]
                if not cs:
                    return True
                return Cond("and", *cs) if len(cs) > 1 else cs[0]
        simple = (str, bool, type(None), DT)
        if isinstance(a, simple) and isinstance(b, simple):
            if isinstance(a, DT) and isinstance(b, DT) and (a.name is None or b.name is None):
                return Cond("opq", ("dteq", a.name, b.name))
            return a == b
        if isinstance(a, simple) and isinstance(b, (Poly, L, tuple, Obj, dict)) or isinstance(b, simple) and isinstance(a, (Poly, L, tuple, Obj, dict)):
            if isinstance(a, bool) or isinstance(b, bool):
                return Cond("opq", ("eq", self.keyof(a), self.keyof(b)))
            return False
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if a is b:
            return True
        ka, kb = self.keyof(a), self.keyof(b)
        return Cond("opq", ("eq",) + tuple(sorted([str(ka), str(kb)])))

    def _in(self, a, b, node):
        if isinstance(b, dict):
            if isinstance(a, str) or a is None or isinstance(a, (bool, DT)):
                return a in b
            ka = self.hkey(a)
            if ka in b:
                return True
            return Cond("opq", ("in", self.keyof(a)))
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        items = self.iterate(b)
        if isinstance(items, list):
            cs = [self.compare(ast.Eq(), a, x) for x in items]
            if any(c is True for c in cs):
                return True
            cs = [c for c in cs if c is not False]
            if not cs:
                return False
            return Cond("or", *cs) if len(cs) > 1 else cs[0]
        return Cond("opq", ("in", self.keyof(a), self.keyof(b)))

    def keyof(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Ten):
            return self.ops.tkey(v)
        if isinstance(v, (str, bool, type(None))):
            return repr(v)
        if isinstance(v, DT):
            return repr(v)
        if isinstance(v, (tuple,)):
            return tuple(self.keyof(x) for x in v)
        if isinstance(v, L):
            return ("L",) + tuple(self.keyof(x) for x in v.items) if v.fam is None else ("F", self.keyof(v.fam))
        if isinstance(v, Fam):
            return ("F", v.n, self.keyof(subst_value(v.elem, {v.idx: T.sym("_fi")})))
        if isinstance(v, dict):
            return tuple(sorted((str(k), str(self.keyof(x))) for k, x in v.items()))
        if isinstance(v, Cond):
            return v.key
        if isinstance(v, (Ext, ExtObj)):
            return ("ext", v.name)
        if isinstance(v, (Fn, Cls)):
            return ("fn", v.qual)
        if isinstance(v, Top):
            return ("top", v.why)
        if isinstance(v, slice):
            return ("slice", self.keyof(v.start), self.keyof(v.stop), self.keyof(v.step))
        if isinstance(v, Group):
            return ("group", v.name)
        return ("id", id(v))

    def hkey(self, v):
        if isinstance(v, Poly):
            i = v.intval()
            return i if i is not None else v
        if isinstance(v, tuple):
            return tuple(self.hkey(x) for x in v)
        if isinstance(v, (L, Ten, dict, Fam, Top)):
            return ("id", id(v))
        return v

    # ------------------------------------------------------------------ iteration
    def iterate(self, v, node=None):
        """python list of abstract elements, or a Fam, or None when unknown"""
        if isinstance(v, L):
            return list(v.items) if v.fam is None else v.fam
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Fam):
            if v.n.intval() is not None and v.n.intval() <= 64:
                return [subst_value(v.elem, {v.idx: P(i)}) for i in range(v.n.intval())]
            return v
        if isinstance(v, dict):
            return [self.unhkey(k) for k in v.keys()]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ten):
            if v.axes:
                n = T.axsize(v.axes[0])
                if n.intval() is not None and n.intval() <= 64:
                    return [self.ops.index(self, v, (P(i),)) for i in range(n.intval())]
                fi = new_fi(n)
                return Fam(n, fi, self.ops.index(self, v, (Poly.atom(fi),)))
            return None
        if isinstance(v, ExtObj) and "iter" in v.attrs:
            return v.attrs["iter"]
        if isinstance(v, Obj) and "__items__" in v.attrs:
            return list(v.attrs["__items__"])
        return None

    def unhkey(self, k):
        if isinstance(k, int) and not isinstance(k, bool):
            return P(k)
        if isinstance(k, tuple):
            return tuple(self.unhkey(x) for x in k)
        return k

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise GiveUp("step limit")
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, node)
        if isinstance(f, Bound):
            return self.call_fn(f.fn, [f.self_] + list(args), kwargs, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, Method):
            return self.ops.call_method(self, f.obj, f.name, args, kwargs, node)
        if isinstance(f, Ext):
            return self.ops.call_ext(self, f.name, args, kwargs, node)
        if isinstance(f, Obj):
            for nm in ("__call__", "forward"):
                m = self.classattr(f.cls, nm)
                if m is not MISSING:
                    return self.call(self.bind(m, f), args, kwargs, node)
            return self.ops.call_unknown(self, "obj:" + (f.cls.name if f.cls else "?"), args, kwargs, node)
        if isinstance(f, ExtObj):
            return self.ops.call_extobj(self, f, args, kwargs, node)
        if isinstance(f, tuple) and len(f) == 3 and f[0] == "partial":
            kw = dict(f[2][1])
            kw.update(kwargs)
            return self.call(f[1], list(f[2][0]) + list(args), kw, node)
        if isinstance(f, tuple) and len(f) == 2 and f[0] == "memo":
            if f[1] is None and len(args) == 1:
                return ("memo", args[0])
            if f[1] is not None:
                return self.ops.retag(self.call(f[1], args, kwargs, node), ("cache", getattr(f[1], "qual", "?")))
        return self.ops.call_unknown(self, repr(f), args, kwargs, node)

    def mro(self, cls):
        out = [cls]
        for b in cls.node.bases:
            v = self.eval_in_module(b, cls.mod)
            if isinstance(v, Cls):
                for c in self.mro(v):
                    if c not in out:
                        out.append(c)
            elif isinstance(v, Ext):
                if not any(isinstance(o, Ext) and o.name == v.name for o in out):
                    out.append(v)
        return out

    def eval_in_module(self, node, mod):
        fr = Frame(Fn(ast.parse("def m(): pass").body[0], mod, mod.name), mod)
        self.stack.append(fr)
        try:
            return self.ev(node)
        finally:
            self.stack.pop()

    def cls_attrs(self, cls):
        if cls.attrs is None:
            cls.attrs = {}
            for st in cls.node.body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    decs = [self.decname(d) for d in st.decorator_list]
                    kind = "method"
                    if any(d == "staticmethod" for d in decs):
                        kind = "static"
                    elif any(d == "classmethod" for d in decs):
                        kind = "classm"
                    elif any(d in ("property", "functools.cached_property", "cached_property") for d in decs):
                        kind = "prop"
                    elif any(d.endswith(".setter") for d in decs):
                        kind = "setter"
                    fn = Fn(st, cls.mod, cls.qual + "." + st.name, cls=cls)
                    if kind == "setter":
                        cls.attrs["__set__" + st.name] = (kind, fn)
                    else:
                        cls.attrs[st.name] = (kind, fn)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            cls.attrs[t.id] = ("val", st.value)
                elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                    cls.attrs[st.target.id] = ("val", st.value)
        return cls.attrs

    def decname(self, d):
        if isinstance(d, ast.Call):
            d = d.func
        parts = []
        while isinstance(d, ast.Attribute):
            parts.append(d.attr)
            d = d.value
        if isinstance(d, ast.Name):
            parts.append(d.id)
        return ".".join(reversed(parts))

    def classattr(self, cls, name, after=None):
        if cls is None:
            return MISSING
        seen = after is None
        for c in self.mro(cls):
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, Ext):
                continue
            a = self.cls_attrs(c)
            if name in a:
                return a[name]
        return MISSING

    def bind(self, m, obj):
        kind, fn = m
        if kind == "method":
            return Bound(fn, obj)
        if kind == "classm":
            return Bound(fn, obj.cls if isinstance(obj, Obj) else obj)
        if kind == "static":
            return fn
        if kind == "prop":
            return self.call_fn(fn, [obj], {})
        if kind == "val":
            c = obj.cls if isinstance(obj, Obj) else obj
            return self.eval_in_module(fn, c.mod)
        return fn

    def is_autograd_fn(self, cls):
        return any(isinstance(c, Ext) and c.name.endswith("autograd.Function") for c in self.mro(cls))

    def instantiate(self, cls, args, kwargs, node=None):
        o = Obj(cls)
        init = self.classattr(cls, "__init__")
        if init is not MISSING:
            self.call_fn(init[1], [o] + list(args), kwargs, node)
        else:
            ann = [s for s in cls.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            if ann and any(self.decname(d).endswith("dataclass") for d in cls.node.decorator_list):
                names = [s.target.id for s in ann]
                for i, n in enumerate(names):
                    if i < len(args):
                        o.attrs[n] = args[i]
                    elif n in kwargs:
                        o.attrs[n] = kwargs[n]
        return o

    def call_fn(self, fn, args, kwargs, node=None):
        ov = self.overrides.get(fn.qual, MISSING)
        if ov is not MISSING and callable(ov):
            return ov(self, list(args), dict(kwargs), node)
        if len(self.stack) > MAXDEPTH:
            return self.opaque("depth limit", node)
        if sum(1 for f in self.stack if f.fn is not None and f.fn.node is fn.node) > 3:
            return self.opaque("recursion", node)
        summ = self.ops.summary(self, fn, args, kwargs, node)
        if summ is not MISSING:
            return self.post_call(fn, summ)
        fr = Frame(fn, fn.mod, fn.closure)
        if self.stack:
            self.stack[-1].node = node or self.stack[-1].node
        self.calls.append(fn.qual)
        self.visited.add(fn.qual)
        self.stack.append(fr)
        try:
            self.bindargs(fn, fr, args, kwargs, node)
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body)
            if _is_generator(fn.node):
                return self.opaque("generator %s" % fn.qual, node)
            try:
                self.exec_block(fn.node.body)
                v = None
            except ReturnEx as r:
                v = r.v
            v = self.post_call(fn, v)
            if self.config.get("record_ops"):
                nm = self.custom_op(fn)
                if nm is not None:
                    a = fn.node.args
                    names = [x.arg for x in a.posonlyargs + a.args]
                    full = list(args[:len(names)])
                    for x in names[len(full):]:
                        full.append(kwargs[x] if x in kwargs else fr.vars.get(x))
                    self.tape.append((("op", nm, fn), None, True, full, v))
            return v
        finally:
            self.stack.pop()

    def custom_op(self, fn):
        """operator name when fn is decorated with torch.library.custom_op(name, ...)"""
        for d in getattr(fn.node, "decorator_list", []):
            if isinstance(d, ast.Call) and self.decname(d).split(".")[-1] == "custom_op" and d.args and isinstance(d.args[0], ast.Constant):
                return d.args[0].value
        return None

    def autograd_registration(self, opname):
        """(backward function, setup_context function) registered for an operator, or None"""
        found = []
        for mod in self.repo.mods.values():
            if "register_autograd" not in mod.src:
                continue
            for c in ast.walk(mod.tree):
                if isinstance(c, ast.Call) and isinstance(c.func, (ast.Attribute, ast.Name)) and self.decname(c).split(".")[-1] == "register_autograd" and c.args:
                    if isinstance(c.args[0], ast.Constant) and c.args[0].value == opname:
                        found.append((mod, c))
        if len(found) != 1:
            return None
        mod, c = found[0]
        kw = {k.arg: k.value for k in c.keywords}
        bw = c.args[1] if len(c.args) > 1 else kw.get("backward")
        sc = c.args[2] if len(c.args) > 2 else kw.get("setup_context")
        if bw is None:
            return None
        out = []
        for x in (bw, sc):
            out.append(None if x is None else self.eval_in_module(x, mod))
        return out

    def post_call(self, fn, v):
        decs = getattr(fn.node, "decorator_list", [])
        for d in decs:
            nm = self.decname(d)
            if nm.split(".")[-1] in ("lru_cache", "cache"):
                copy = False
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == "copy" and isinstance(k.value, ast.Constant):
                            copy = bool(k.value.value)
                tag = ("fresh",) if copy else ("cache", fn.qual)
                v = self.ops.retag(v, tag)
        return v

    def bindargs(self, fn, fr, args, kwargs, node):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        n = len(names)
        for i, nm in enumerate(names):
            if i < len(args):
                fr.vars[nm] = args[i]
        if len(args) > n:
            if a.vararg:
                fr.vars[a.vararg.arg] = tuple(args[n:])
            else:
                self.event("arity", "call of %s with %d positional arguments, it takes %d" % (fn.qual, len(args), n), node)
        elif a.vararg:
            fr.vars[a.vararg.arg] = ()
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                fr.vars[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            fr.vars[a.kwarg.arg] = extra
        elif extra and None not in extra:
            self.event("arity", "call of %s with unexpected keyword(s) %s" % (fn.qual, ", ".join(map(str, extra))), node)
        # defaults
        defs = a.defaults
        for nm, d in zip(names[n - len(defs):], defs):
            if nm not in fr.vars:
                fr.vars[nm] = self.eval_default(fn, d)
        for nm, d in zip(kwonly, a.kw_defaults):
            if nm not in fr.vars and d is not None:
                fr.vars[nm] = self.eval_default(fn, d)
        for nm in names + kwonly:
            if nm not in fr.vars:
                if None in kwargs:
                    fr.vars[nm] = Top("**kwargs")
                else:
                    self.event("arity", "call of %s without argument %s" % (fn.qual, nm), node)
                    fr.vars[nm] = Top("missing argument")

    def eval_default(self, fn, d):
        fr = Frame(fn, fn.mod, fn.closure)
        self.stack.append(fr)
        try:
            return self.ev(d)
        finally:
            self.stack.pop()

    # ------------------------------------------------------------------ statements
    def exec_block(self, body):
        for st in body:
            self.exec(st)

    def exec(self, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise GiveUp("step limit")
        fr = self.stack[-1]
        fr.node = st
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            self.opaque("statement %s" % type(st).__name__, st)
            return
        m(st)

    def x_Expr(self, st):
        self.ev(st.value)

    def x_Pass(self, st):
        pass

    def x_Return(self, st):
        raise ReturnEx(self.ev(st.value) if st.value is not None else None)

    def x_Break(self, st):
        raise BreakEx()

    def x_Continue(self, st):
        raise ContinueEx()

    def x_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v)

    def x_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def x_AugAssign(self, st):
        cur = self.ev(st.target)
        v = self.ev(st.value)
        r = self.binop(st.op, cur, v, st, inplace=True)
        if isinstance(cur, Ten):
            self.mutate(cur, st, "augmented assignment")
            if isinstance(r, Ten) and self._keeps_identity(st.target):
                cur.axes, cur.expr = r.axes, r.expr
                r = cur
        self.assign(st.target, r, aug=True)

    def _keeps_identity(self, t):
        return isinstance(t, (ast.Name, ast.Attribute))

    def mutate(self, ten, node, how):
        self.sideeffects.append((ten.org, how, self.loc(node), self.stack[-1].fn.qual if self.stack[-1].fn else "?"))

    def x_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.stack[-1].vars.pop(t.id, None)

    def x_Global(self, st):
        self.stack[-1].globals_ |= set(st.names)

    def x_Nonlocal(self, st):
        self.stack[-1].nonlocals |= set(st.names)

    def x_Import(self, st):
        for a in st.names:
            if a.asname:
                self.setname(a.asname, self.import_name(a.name))
            else:
                self.setname(a.name.split(".")[0], self.import_name(a.name.split(".")[0]))

    def x_ImportFrom(self, st):
        mod = self.stack[-1].mod
        base = self._frombase(mod, st)
        for a in st.names:
            if base in self.repo.mods:
                v = self.modattr(self.repo.mods[base], a.name)
                if v is MISSING:
                    v = Top("import")
            else:
                v = Ext(base + "." + a.name)
            self.setname(a.asname or a.name, v)

    def x_FunctionDef(self, st):
        fr = self.stack[-1]
        self.setname(st.name, Fn(st, fr.mod, (fr.fn.qual if fr.fn else fr.mod.name) + "." + st.name, closure=fr, cls=fr.fn.cls if fr.fn else None))

    def x_ClassDef(self, st):
        fr = self.stack[-1]
        self.setname(st.name, Cls(st, fr.mod))

    def x_Assert(self, st):
        v = self.ev(st.test)
        self.check(v, st, "assert")

    def check(self, v, node, how, exc="AssertionError"):
        """a condition the code enforces: continue where it holds"""
        c = self.truth(v, node)
        if c is False:
            raise RaiseEx(exc, node)
        if c is True:
            self.guards.append((True, how, self.loc(node)))
            return
        r = self.static(c)
        if r is False:
            raise RaiseEx(exc, node)
        self.guards.append((c, how, self.loc(node)))
        if r is None:
            self.assume(c, True)

    def x_Raise(self, st):
        nm = "Exception"
        if st.exc is not None:
            e = st.exc
            if isinstance(e, ast.Call):
                e = e.func
            nm = self.decname(e) or "Exception"
        raise RaiseEx(nm, st)

    def x_If(self, st):
        test = self.ev(st.test)
        c = self.truth(test, st)
        # "if cond: raise" is a guard
        if isinstance(c, Cond) and not st.orelse and _only_raises(st.body):
            r = self.static(c)
            if r is None:
                self.guards.append((self._neg(c), "raise", self.loc(st)))
                if self.config.get("guards_only_continue", True):
                    self.assume(c, False)
                    return
        if isinstance(c, Cond) and self.static(c) is None and self.elementwise(c) and not _jumps(st.body + st.orelse):
            return self.if_convert(c, st)
        if self.decide(c, st):
            self.exec_block(st.body)
        else:
            self.exec_block(st.orelse)

    # ------------------------------------------------------------------ branches that differ between elements of a sequence
    def elementwise(self, c):
        """the condition speaks about the current element of a symbolic iteration"""
        if not self.famidx:
            return False
        return any(x in self.famidx for x in cond_vars(c))

    def if_convert(self, c, st):
        """both branches are evaluated for the generic element and their effects merged"""
        fr = self.stack[-1]
        base = dict(fr.vars)
        rec = self.loops[-1] if self.loops else None
        res = []
        tens = {id(v): v for v in base.values() if isinstance(v, Ten)}
        snap = {k: (list(v.axes), v.expr) for k, v in tens.items()}
        eff = []
        for val, body in ((True, st.body), (False, st.orelse)):
            known, eqs = dict(self.known), dict(self.eqs)
            fr.vars = dict(base)
            for k, v in tens.items():
                v.axes, v.expr = list(snap[k][0]), snap[k][1]
            n0 = len(rec["appends"]) if rec else 0
            self.assume(c, val)
            try:
                self.exec_block(body)
            finally:
                res.append((fr.vars, rec["appends"][n0:] if rec else [], dict(self.eqs)))
                eff.append({k: v.expr for k, v in tens.items()})
                if rec:
                    del rec["appends"][n0:]
                self.known, self.eqs = known, eqs
        (v1, a1, e1), (v2, a2, e2) = res
        for k, v in tens.items():
            x, y = eff[0][k], eff[1][k]
            v.axes = list(snap[k][0])
            v.expr = x if x is y else (None if x is None or y is None else self.merge_poly(c, x, y, e1, e2, v.axes))
        out = {}
        for k in list(v1) + [k for k in v2 if k not in v1]:
            x, y = v1.get(k, MISSING), v2.get(k, MISSING)
            if x is MISSING or y is MISSING:
                out[k] = y if x is MISSING else x
                continue
            out[k] = x if x is y else self.merge(c, x, y, e1, e2)
        fr.vars = out
        if rec:
            if len(a1) == len(a2) and all(p[0] is q[0] for p, q in zip(a1, a2)):
                for (l, x), (_, y) in zip(a1, a2):
                    rec["appends"].append((l, self.merge(c, x, y, e1, e2)))
            elif a1 or a2:
                for l, _ in a1 + a2:
                    rec["appends"].append((l, Top("appended conditionally")))
                    rec["appends"].append((l, Top("appended conditionally")))

    def merge(self, c, x, y, e1, e2):
        """value of the element: x where c holds, else y (e1, e2: equalities known in either case)"""
        if x is y:
            return x
        if isinstance(x, Poly) and isinstance(y, Poly):
            return self.merge_poly(c, x, y, e1, e2)
        if isinstance(x, Ten) and isinstance(y, Ten) and len(x.axes) == len(y.axes):
            sizes = [self.merge_poly(c, a, b, e1, e2) for a, b in zip(x.shape, y.shape)]
            ax = [T.new_axis(s) for s in sizes]
            e = None
            if x.expr is not None and y.expr is not None:
                e = self.merge_poly(c, T.subst(x.expr, {a: Poly.atom(b) for a, b in zip(x.axes, ax)}), T.subst(y.expr, {a: Poly.atom(b) for a, b in zip(y.axes, ax)}), e1, e2, ax)
            return Ten(ax, e, x.dtype if x.dtype == y.dtype else UNK, x.org | y.org)
        if isinstance(x, (tuple, L)) and type(x) is type(y):
            xs, ys = (x, y) if isinstance(x, tuple) else (x.items, y.items)
            if len(xs) == len(ys) and (isinstance(x, tuple) or (x.fam is None and y.fam is None)):
                z = [self.merge(c, a, b, e1, e2) for a, b in zip(xs, ys)]
                return tuple(z) if isinstance(x, tuple) else L(z)
        try:
            if self._eqv(x, y) is True:
                return x
        except Exception:
            pass
        return Top("merged branches")

    def merge_poly(self, c, x, y, e1, e2, axes=()):
        if x == y:
            return x
        if T.replace(T.replace(x, e2), e2) == T.replace(T.replace(y, e2), e2):
            return x
        if T.replace(T.replace(x, e1), e1) == T.replace(T.replace(y, e1), e1):
            return y
        # value numbers that no interpretation separates where the branch is (not) taken
        ren, extra = {}, []
        for k, i in enumerate(self.famidx):
            s = Poly.atom(("sym", "elem%d" % k, 0))
            ren[i] = s
            extra.append((Cond("gt", T.subst(T.axsize(i), ren) - s), True))
        from .randint import distinguish, Unknown
        from .compare import path_conds
        base = [(cond_subst(q, ren), v) for q, v in path_conds(self)] + extra
        cc = cond_subst(c, ren)
        xs, ys = T.subst(x, ren), T.subst(y, ren)
        axs = []
        if axes:
            ren2 = {}
            for a in axes:
                b = T.new_axis(T.subst(T.axsize(a), ren))
                ren2[a] = Poly.atom(b)
                axs.append(b)
            xs, ys = T.subst(xs, ren2), T.subst(ys, ren2)
        for val, keep in ((False, x), (True, y)):
            try:
                if distinguish(xs, ys, axs, base + [(cc, val)]) is None:
                    return keep
            except Unknown:
                pass
        i = cond_ind(c)
        if i is None:
            return T.sym("merged%d" % next(T._counter))
        return i * x + (T.ONE - i) * y

    def x_With(self, st):
        pushed = 0
        for it in st.items:
            v = self.ev(it.context_expr)
            if isinstance(v, ExtObj) and v.name.split(".")[-1] == "autocast":
                self.autocast.append(v)
                pushed += 1
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v if isinstance(v, (Obj, ExtObj)) else Top("with"))
        try:
            self.exec_block(st.body)
        finally:
            for _ in range(pushed):
                self.autocast.pop()

    def x_Try(self, st):
        try:
            self.exec_block(st.body)
            self.exec_block(st.orelse)
        except RaiseEx as e:
            if st.handlers:
                h = st.handlers[0]
                if h.name:
                    self.setname(h.name, Top("exception"))
                self.exec_block(h.body)
            else:
                raise
        finally:
            self.exec_block(st.finalbody)

    def x_While(self, st):
        n = 0
        while True:
            c = self.truth(self.ev(st.test), st)
            r = self.static(c) if isinstance(c, Cond) else c
            if r is False:
                break
            if r is None or n > 200:
                self._havoc_loop(st)
                return
            n += 1
            try:
                self.exec_block(st.body)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_block(st.orelse)

    def _havoc_loop(self, st, run=True):
        fr = self.stack[-1]
        names = _assigned(st.body)
        for nme in names:
            if nme in fr.vars:
                fr.vars[nme] = Top("loop-carried %s" % nme)
        if run:
            self.loops.append(None)
            try:
                self.exec_block(st.body)
            except (BreakEx, ContinueEx):
                pass
            finally:
                self.loops.pop()
        for nme in names:
            fr.vars[nme] = Top("after loop %s" % nme)

    def x_For(self, st):
        it = self.iterate(self.ev(st.iter), st)
        if it is None:
            fr = self.stack[-1]
            self.assign(st.target, Top("loop variable"))
            self._havoc_loop(st)
            return
        if isinstance(it, list) and len(it) > 24 and all(isinstance(x, Poly) and x.intval() is not None for x in it):
            d = it[1] - it[0]
            if all(b - a == d for a, b in zip(it, it[1:])):
                i = new_fi(P(len(it)))
                it = Fam(P(len(it)), i, it[0] + d * Poly.atom(i))
        if isinstance(it, list):
            if len(it) > 256:
                self.assign(st.target, Top("loop variable"))
                self._havoc_loop(st)
                return
            for x in it:
                self.assign(st.target, x)
                try:
                    self.exec_block(st.body)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.exec_block(st.orelse)
            return
        # symbolic family: one generic iteration
        fr = self.stack[-1]
        names = _assigned(st.body)
        carried = _read_before_assign(st.body) & names
        tnames = [n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)]
        rc = self.recur_start(st, fr, (carried | _mutated(st.body)) - set(tnames), it)
        for nme in carried:
            if nme in fr.vars and nme not in tnames and not (rc and nme in rc["vars"]):
                fr.vars[nme] = Top("loop-carried %s" % nme)
        self.assign(st.target, it.elem)
        rec = {"fam": it, "appends": [], "stores": [], "uid": next(_uid)}
        self.loops.append(rec)
        self.famidx.append(it.idx)
        body = st.body
        brk = None
        if rc and _tail_break(body):
            brk, body = body[-1], body[:-1]
        stop = None
        try:
            self.exec_block(body)
            if brk is not None:
                v = self.ev(brk.test)
                if isinstance(v, Ten) and v.expr is not None and all(T.axsize(a) == T.ONE for a in v.axes):
                    stop = T.subst(v.expr, {a: T.ZERO for a in v.axes})
                else:
                    c = self.truth(v, brk)
                    if isinstance(c, Cond) and self.static(c) is not None:
                        c = self.static(c)
                    if isinstance(c, Cond) and c.kind == "gt":
                        stop = Poly.atom(("fn", "cmp_gt", c.args[0], T.ZERO))
                    elif isinstance(c, (bool, Cond)):
                        stop = cond_ind(c)
                if stop is None:
                    rec["abrupt"] = True
        except (BreakEx, ContinueEx):
            rec["abrupt"] = True
        finally:
            self.loops.pop()
            self.famidx.pop()
        after = self.recur_end(rc, fr, it, stop, bool(rec.get("abrupt"))) if rc else {}
        seen = {}
        for lst, val in rec["appends"]:
            seen.setdefault(id(lst), []).append((lst, val))
        for _, lv in seen.items():
            lst = lv[0][0]
            if len(lv) == 1 and not lst.items and lst.fam is None and not rec.get("abrupt"):
                lst.fam = Fam(it.n, it.idx, lv[0][1])
            else:
                lst.items = [Top("appended in loop")]
                lst.fam = Fam(T.sym("len%d" % next(T._counter)), it.idx, Top("appended in loop"))
        for lst, i in rec["stores"]:
            lst.items[i] = Top("stored in loop")
        for nme in names:
            if nme in fr.vars and nme not in tnames:
                fr.vars[nme] = after.get(nme, Top("after loop %s" % nme))

    # ------------------------------------------------------------------ recurrences: loops with carried state
    def recur_start(self, st, fr, cand, fam):
        """bind every loop-carried value to 'its value before the current iteration'"""
        if not isinstance(fam.n, Poly) or not cand:
            return None
        tok = next(_uid)
        vs = {}
        for nme in sorted(cand):
            if nme not in fr.vars:
                continue
            v = fr.vars[nme]
            if isinstance(v, bool):
                continue
            if isinstance(v, (int, float)):
                v = P(v) if v == int(v) else v
            if isinstance(v, Poly):
                vs[nme] = ("num", v)
            elif isinstance(v, Ten) and v.expr is not None and not v.sparse:
                vs[nme] = ("ten", v)
        if not vs:
            return None
        # the same tensor under two names is one state component
        objs, comps, rcv = {}, [], {}
        for nme, (k, v) in vs.items():
            if k == "ten" and id(v) in objs:
                rcv[nme] = objs[id(v)]
                continue
            c = {"kind": k, "val": v, "k": len(comps), "names": [], "init": v if k == "num" else (list(v.axes), v.expr), "dt": v.dtype if k == "ten" else None}
            comps.append(c)
            rcv[nme] = c
            if k == "ten":
                objs[id(v)] = c
        for nme, c in rcv.items():
            c["names"].append(nme)
        for c in comps:
            if c["kind"] == "num":
                for nme in c["names"]:
                    fr.vars[nme] = Poly.atom(("T", ("prev", tok, c["k"]), ()))
            else:
                t = c["val"]
                t.expr = self.prev_expr(tok, c["k"], t)
        return {"tok": tok, "vars": rcv, "comps": comps}

    def prev_expr(self, tok, k, t):
        idx = tuple(Poly.atom(a) for a in t.axes)
        if t.dtype.name and t.dtype.name.startswith("complex"):
            return Poly.atom(("T", ("prev", tok, k, "re"), idx)) + T.I * Poly.atom(("T", ("prev", tok, k, "im"), idx))
        return Poly.atom(("T", ("prev", tok, k), idx))

    def recur_end(self, rc, fr, fam, stop, abrupt):
        tok, comps = rc["tok"], rc["comps"]
        bodies, ok = [], not abrupt
        for c in comps:
            new = fr.vars.get(c["names"][0], MISSING)
            if isinstance(new, (int, float)) and not isinstance(new, bool):
                new = P(new) if new == int(new) else new
            if c["kind"] == "num":
                if isinstance(new, Poly):
                    bodies.append(([], new))
                else:
                    ok = False
                    break
            else:
                if not (isinstance(new, Ten) and new.expr is not None and len(new.axes) == len(c["init"][0]) and new.dtype == c["dt"]):
                    ok = False
                    break
                same = True
                for a, b in zip(new.axes, c["init"][0]):
                    if not self.same(T.axsize(a), T.axsize(b)):
                        same = False
                if not same:
                    ok = False
                    break
                bodies.append((list(new.axes), new.expr))
        after = {}
        if ok:
            def lam(axes, e):
                ax = [fam.idx] + list(axes)
                d = 1 + max([T.depth(e)] + [T.depth(T.axsize(a)) for a in ax])
                env = {a: Poly.atom(("bv", d, i)) for i, a in enumerate(ax)}
                return ("rlam", d, len(ax), T.subst(e, env))
            blams = tuple(lam(ax, e) for ax, e in bodies)
            ilams = []
            for c in comps:
                axs, e = ([], c["init"]) if c["kind"] == "num" else c["init"]
                d = 1 + max([T.depth(e)] + [T.depth(T.axsize(a)) for a in axs])
                ilams.append(("rlam", d, len(axs), T.subst(e, {a: Poly.atom(("bv", d, i)) for i, a in enumerate(axs)})))
            sl = lam([], stop) if stop is not None else None
            nm = ("iter", tok, fam.n, tuple(ilams), blams, sl)
        for c in comps:
            for nme in c["names"]:
                if not ok:
                    after[nme] = Top("after loop %s" % nme)
                elif c["kind"] == "num":
                    after[nme] = Poly.atom(("T", nm + (c["k"],), ()))
            if c["kind"] == "ten":
                t = c["val"]
                if not ok:
                    t.expr = None
                    continue
                axs = c["init"][0]
                idx = tuple(Poly.atom(a) for a in axs)
                if t.dtype.name and t.dtype.name.startswith("complex"):
                    e = Poly.atom(("T", nm + (c["k"], "re"), idx)) + T.I * Poly.atom(("T", nm + (c["k"], "im"), idx))
                else:
                    e = Poly.atom(("T", nm + (c["k"],), idx))
                t.axes, t.expr = list(axs), e
                for nme in c["names"]:
                    cur = fr.vars.get(nme)
                    after[nme] = t if cur is t else Ten(list(axs), e, t.dtype, getattr(cur, "org", t.org))
        for nme, v in after.items():
            fr.vars[nme] = v
        return after

    # ------------------------------------------------------------------ assignment
    def setname(self, name, v):
        fr = self.stack[-1]
        if name in fr.globals_ or getattr(fr, "module_level", False):
            self.module_env(fr.mod)[name] = v
            if name in fr.globals_:
                self.sideeffects.append((frozenset([("global", fr.mod.name + "." + name)]), "global statement", self.loc(), fr.fn.qual))
            return
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
        fr.vars[name] = v

    def assign(self, t, v, aug=False):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            it = self.iterate(v)
            if isinstance(it, list):
                if star:
                    s = star[0]
                    after = len(t.elts) - s - 1
                    for x, y in zip(t.elts[:s], it[:s]):
                        self.assign(x, y)
                    self.assign(t.elts[s].value, L(it[s:len(it) - after]))
                    for x, y in zip(t.elts[s + 1:], it[len(it) - after:]):
                        self.assign(x, y)
                    return
                if len(it) != len(t.elts):
                    self.event("unpack", "unpacking %d values into %d targets" % (len(it), len(t.elts)), t)
                for i, x in enumerate(t.elts):
                    self.assign(x, it[i] if i < len(it) else Top("unpack"))
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, Top("unpack of unknown"))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            self.setitem(o, i, v, t, aug)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def setattr(self, o, name, v, node=None):
        if isinstance(o, Obj):
            st = self.classattr(o.cls, "__set__" + name)
            if st is not MISSING:
                self.call_fn(st[1], [o, v], {})
                return
            if isinstance(v, Ten) and v.param:
                v = self.ops.name_param(self, o, name, v)
                o.params[name] = v
            o.attrs[name] = v
        elif isinstance(o, ExtObj):
            o.attrs[name] = v
        elif isinstance(o, Ten):
            o.meta[name] = v
            if name == "data":
                self.mutate(o, node, "assignment to .data")
        elif isinstance(o, Module):
            self.module_env(o)[name] = v

    def setitem(self, o, i, v, node, aug=False):
        if isinstance(o, L):
            n = i.intval() if isinstance(i, Poly) else None
            if o.fam is None and n is not None and -len(o.items) <= n < len(o.items):
                o.items[n] = v
                if self.loops and self.loops[-1] is not None and o.uid < self.loops[-1]["uid"]:
                    self.loops[-1]["stores"].append((o, n))
                elif self.loops:
                    pass
                return
            if o.fam is None and n is not None:
                self.event("index", "list index %d out of range for length %d" % (n, len(o.items)), node)
            if o.fam is not None:
                self.ops.fam_store(self, o, i, v)
                return
            o.items = [Top("list store")] * len(o.items)
        elif isinstance(o, dict):
            o[self.hkey(i)] = v
        elif isinstance(o, Ten):
            if not aug:
                self.mutate(o, node, "item assignment")
            self.ops.store(self, o, i, v, node)

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise GiveUp("step limit")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.opaque("expression %s" % type(n).__name__, n)
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str) or v is Ellipsis:
            return v
        if isinstance(v, (int, float)):
            return P(v)
        if isinstance(v, complex):
            return P(v.real) + P(v.imag) * T.I
        return Top("constant")

    def e_Name(self, n):
        return self.lookup(n.id, n)

    def lookup(self, name, node=None):
        fr = self.stack[-1]
        if name not in fr.globals_:
            f = fr
            while f is not None:
                if name in f.vars:
                    return f.vars[name]
                f = f.parent
        v = self.modattr(fr.mod, name)
        if v is not MISSING:
            return v
        if name in self.ops.BUILTINS:
            return Ext("builtins." + name)
        if name.endswith("Error") or name.endswith("Exception") or name.endswith("Warning"):
            return Ext("builtins." + name)
        return self.opaque("name %s" % name, node)

    def e_Attribute(self, n):
        o = self.ev(n.value)
        return self.getattr(o, n.attr, n)

    def getattr(self, o, name, node=None):
        if isinstance(o, Module):
            v = self.modattr(o, name)
            return v if v is not MISSING else self.opaque("module attribute %s.%s" % (o.name, name), node)
        if isinstance(o, Ext):
            return self.ops.ext_attr(self, o, name)
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            m = self.classattr(o.cls, name)
            if m is not MISSING:
                return self.bind(m, o)
            if name == "__class__":
                return o.cls
            return self.ops.obj_attr(self, o, name, node)
        if isinstance(o, Cls):
            m = self.classattr(o, name)
            if m is not MISSING:
                if m[0] == "classm":
                    return Bound(m[1], o)
                if m[0] in ("method", "static"):
                    return m[1]
                if m[0] == "val":
                    return self.eval_in_module(m[1], o.mod)
            if name == "apply" and self.is_autograd_fn(o):
                return Method(o, "apply")
            if name == "__name__":
                return o.name
            return self.opaque("class attribute %s.%s" % (o.name, name), node)
        if isinstance(o, Fn):
            if name == "__name__":
                return o.name
            return Method(o, name)
        return self.ops.value_attr(self, o, name, node)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        i = self.ev(n.slice)
        return self.getitem(o, i, n)

    def getitem(self, o, i, node=None):
        if isinstance(o, (L, tuple)):
            fam = o.fam if isinstance(o, L) else None
            if fam is not None:
                return self.ops.fam_index(self, fam, i, node)
            items = o.items if isinstance(o, L) else o
            if isinstance(i, Poly):
                k = i.intval()
                if k is None:
                    k2 = self.simplify(i).intval()
                    k = k2
                if k is not None:
                    if -len(items) <= k < len(items):
                        return items[k]
                    self.event("index", "index %d out of range for length %d" % (k, len(items)), node)
                    return Top("index range")
                return Top("symbolic index into list")
            if isinstance(i, slice):
                s = self._pyslice(i)
                if s is None:
                    return Top("symbolic slice of list")
                r = items[s]
                return L(r) if isinstance(o, L) else tuple(r)
            return Top("list index")
        if isinstance(o, Fam):
            return self.ops.fam_index(self, o, i, node)
        if isinstance(o, dict):
            k = self.hkey(i)
            if k in o:
                return o[k]
            if isinstance(i, (Top, Cond)) or (isinstance(i, Poly) and i.intval() is None):
                return Top("dict lookup")
            raise RaiseEx("KeyError", node)
        if isinstance(o, Ten):
            return self.ops.index(self, o, i, node)
        if isinstance(o, str):
            if isinstance(i, Poly) and i.intval() is not None:
                try:
                    return o[i.intval()]
                except IndexError:
                    return Top("str index")
            s = self._pyslice(i) if isinstance(i, slice) else None
            return o[s] if s is not None else Top("str slice")
        if isinstance(o, GRanks):
            return GRank(o.group, i) if isinstance(i, Poly) else Top("granks")
        if isinstance(o, Obj):
            m = self.classattr(o.cls, "__getitem__")
            if m is not MISSING:
                return self.call(self.bind(m, o), [i], {}, node)
            if "__items__" in o.attrs:
                return self.getitem(L(o.attrs["__items__"]), i, node)
        if isinstance(o, (Ext, Cls)):
            return o
        return self.opaque("subscript", node)

    def _pyslice(self, s):
        out = []
        for x in (s.start, s.stop, s.step):
            if x is None:
                out.append(None)
            elif isinstance(x, Poly) and x.intval() is not None:
                out.append(x.intval())
            else:
                return None
        return slice(*out)

    def e_Slice(self, n):
        return slice(self.ev(n.lower) if n.lower else None, self.ev(n.upper) if n.upper else None, self.ev(n.step) if n.step else None)

    def e_Index(self, n):
        return self.ev(n.value)

    def e_Tuple(self, n):
        return tuple(self._elts(n.elts))

    def e_List(self, n):
        r = self._elts(n.elts)
        return L(r)

    def _elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                it = self.iterate(self.ev(e.value))
                if isinstance(it, list):
                    out += it
                else:
                    out.append(Top("starred unknown"))
            else:
                out.append(self.ev(e))
        return out

    def e_Set(self, n):
        return tuple(self._elts(n.elts))

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v)
                if isinstance(x, dict):
                    d.update(x)
            else:
                d[self.hkey(self.ev(k))] = self.ev(v)
        return d

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                x = self.ev(v.value)
                if isinstance(x, str):
                    parts.append(x)
                elif isinstance(x, Poly) and x.intval() is not None:
                    parts.append(str(x.intval()))
                else:
                    parts.append("{?}")
        return "".join(parts)

    def e_FormattedValue(self, n):
        return "{?}"

    def e_Lambda(self, n):
        fr = self.stack[-1]
        return Fn(n, fr.mod, (fr.fn.qual if fr.fn else fr.mod.name) + ".<lambda>", closure=fr, cls=fr.fn.cls if fr.fn else None)

    def e_IfExp(self, n):
        c = self.truth(self.ev(n.test), n)
        if isinstance(c, Cond) and self.static(c) is None and self.elementwise(c):
            vals = []
            for val, e in ((True, n.body), (False, n.orelse)):
                known, eqs = dict(self.known), dict(self.eqs)
                self.assume(c, val)
                try:
                    vals.append((self.ev(e), dict(self.eqs)))
                finally:
                    self.known, self.eqs = known, eqs
            return self.merge(c, vals[0][0], vals[1][0], vals[0][1], vals[1][1])
        return self.ev(n.body) if self.decide(c, n) else self.ev(n.orelse)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        conds = []
        last = None
        for i, x in enumerate(n.values):
            v = self.ev(x)
            last = v
            c = self.truth(v, x)
            if isinstance(c, Cond):
                r = self.static(c)
                if r is None:
                    if isinstance(v, Cond) or isinstance(v, bool):
                        conds.append(c)
                        continue
                    # value-returning and/or: partition
                    r = self.decide(c, x)
                c = r
            if isand and not c:
                return v if not conds else False
            if not isand and c:
                return v if not conds else True
        if not conds:
            return last
        if len(conds) == 1 and (isinstance(last, Cond) or (isinstance(last, bool))):
            return conds[0]
        return Cond("and" if isand else "or", *conds)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            c = self.truth(v, n)
            return (not c) if isinstance(c, bool) else self._neg(c)
        if isinstance(n.op, ast.USub):
            if isinstance(v, Poly):
                return -v
            if isinstance(v, Ten):
                return self.ops.binary(self, "mul", P(-1), v, n)
            return self.opaque("neg", n)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, Ten):
                return self.ops.ewise(self, "logical_not" if v.dtype.name == "bool" else "invert", [v], v.dtype)
            if isinstance(v, Cond):
                return self._neg(v)
            if isinstance(v, bool):
                return not v
        return self.opaque("unary", n)

    def e_BinOp(self, n):
        return self.binop(n.op, self.ev(n.left), self.ev(n.right), n)

    def binop(self, op, a, b, node, inplace=False):
        return self.ops.binop(self, op, a, b, node)

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            res.append(self.compare(op, left, right, n))
            left = right
        if len(res) == 1:
            return res[0]
        if any(r is False for r in res):
            return False
        res = [r for r in res if r is not True]
        if not res:
            return True
        return Cond("and", *[r if isinstance(r, Cond) else Cond("opq", ("cmpchain", id(n))) for r in res]) if len(res) > 1 else res[0]

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.setname(n.target.id, v)
        return v

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            return self._super_call(n)
        f = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.ev(a.value))
                if isinstance(it, list):
                    args += it
                else:
                    args.append(Top("*args"))
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, dict):
                    kwargs.update(d)
                else:
                    kwargs[None] = d
            else:
                kwargs[k.arg] = self.ev(k.value)
        self.stack[-1].node = n
        return self.call(f, args, kwargs, n)

    def _super_call(self, n):
        fr = self.stack[-1]
        f = fr
        while f is not None and (f.fn is None or f.fn.cls is None):
            f = f.parent
        meth = n.func.attr
        args = self._elts(n.args)
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, dict):
                    kwargs.update(v)
            else:
                kwargs[k.arg] = v
        if f is None:
            return None
        a = f.fn.node.args
        selfname = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
        self_ = f.vars.get(selfname)
        if isinstance(self_, Obj):
            m = self.classattr(self_.cls, meth, after=f.fn.cls)
            if m is not MISSING:
                return self.call_fn(m[1], [self_] + args, kwargs, n)
        if meth == "__init__":
            return None
        if isinstance(self_, Obj):
            return self.ops.obj_super(self, self_, meth, args, kwargs, n)
        return self.opaque("super().%s" % meth, n)

    def _comp(self, gens, body):
        """evaluate comprehension generators; returns list or Fam"""
        fr = self.stack[-1]
        sub = Frame(fr.fn, fr.mod, fr)
        self.stack.append(sub)
        try:
            return self._comp1(gens, 0, body)
        finally:
            self.stack.pop()

    def _comp1(self, gens, k, body):
        if k == len(gens):
            return [body()]
        g = gens[k]
        it = self.iterate(self.ev(g.iter))
        if it is None:
            return None
        if isinstance(it, Fam):
            if k + 1 < len(gens) or g.ifs:
                # filtered / nested symbolic comprehension
                self.assign(g.target, it.elem)
                for c in g.ifs:
                    self.ev(c)
                v = body() if k + 1 == len(gens) else Top("nested comprehension")
                r = Fam(T.sym("cnt%d" % next(T._counter)), it.idx, Top("filtered comprehension"))
                r.src = v
                return r
            self.assign(g.target, it.elem)
            self.famidx.append(it.idx)
            try:
                return Fam(it.n, it.idx, body())
            finally:
                self.famidx.pop()
        out = []
        for x in it:
            self.assign(g.target, x)
            ok = True
            for c in g.ifs:
                if not self.decide(self.ev(c), c):
                    ok = False
                    break
            if not ok:
                continue
            r = self._comp1(gens, k + 1, body)
            if not isinstance(r, list):
                return None
            out += r
        return out

    def e_ListComp(self, n):
        r = self._comp(n.generators, lambda: self.ev(n.elt))
        if r is None:
            return self.opaque("list comprehension", n)
        if isinstance(r, Fam):
            l = L([])
            l.fam = r
            return l
        return L(r)

    def e_GeneratorExp(self, n):
        r = self._comp(n.generators, lambda: self.ev(n.elt))
        if r is None:
            return self.opaque("generator expression", n)
        return r if isinstance(r, Fam) else tuple(r)

    def e_SetComp(self, n):
        return self.e_GeneratorExp(n)

    def e_DictComp(self, n):
        r = self._comp(n.generators, lambda: (self.ev(n.key), self.ev(n.value)))
        if isinstance(r, list):
            return {self.hkey(k): v for k, v in r}
        return self.opaque("dict comprehension", n)

    def e_Await(self, n):
        return self.ev(n.value)


def _is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _jumps(body):
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.Yield)):
                return True
    return False


def cond_vars(c):
    out = set()
    if isinstance(c, Cond):
        for a in c.args:
            if isinstance(a, Poly):
                out |= T.freevars(a)
            elif isinstance(a, Cond):
                out |= cond_vars(a)
    return out


def cond_subst(c, ren):
    if not isinstance(c, Cond) or not ren:
        return c
    return Cond(c.kind, *[T.subst(a, ren) if isinstance(a, Poly) else cond_subst(a, ren) if isinstance(a, Cond) else a for a in c.args])


def cond_ind(c):
    """0/1 value number of an integer condition, None if it has none"""
    if isinstance(c, bool):
        return T.ONE if c else T.ZERO
    if c.kind == "gt":
        return T.pmin(T.ONE, T.pmax(c.args[0], T.ZERO))
    if c.kind == "eq":
        return T.ONE - T.pmin(T.ONE, T.pmax(c.args[0], -c.args[0]))
    if c.kind == "not":
        i = cond_ind(c.args[0])
        return None if i is None else T.ONE - i
    if c.kind in ("and", "or"):
        r = T.ONE
        for a in c.args:
            i = cond_ind(a)
            if i is None:
                return None
            r = r * (i if c.kind == "and" else T.ONE - i)
        return r if c.kind == "and" else T.ONE - r
    return None


def _only_raises(body):
    return bool(body) and isinstance(body[-1], ast.Raise)


def _assigned(body):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


def _mutated(body):
    """names whose value may be changed in place in body (syntactic)"""
    out = set()

    def base(e):
        while isinstance(e, (ast.Subscript, ast.Attribute)):
            e = e.value
        return e.id if isinstance(e, ast.Name) else None
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                out.add(base(n))
            elif isinstance(n, ast.AugAssign):
                out.add(base(n.target))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.endswith("_") and not n.func.attr.startswith("_"):
                out.add(base(n.func.value))
    out.discard(None)
    return out


def _tail_break(body):
    st = body[-1] if body else None
    return isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Break)


def _read_before_assign(body):
    """names possibly read before being assigned in one pass over body (syntactic)"""
    assigned, out = set(), set()

    def visit(n):
        if isinstance(n, ast.Assign):
            visit(n.value)
            for t in n.targets:
                visit(t)
        elif isinstance(n, ast.AugAssign):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name) and x.id not in assigned:
                    out.add(x.id)
            visit(n.value)
        elif isinstance(n, ast.For):
            visit(n.iter)
            visit(n.target)
            for s in n.body + n.orelse:
                visit(s)
        elif isinstance(n, ast.If):
            visit(n.test)
            before = set(assigned)
            for s in n.body:
                visit(s)
            a1 = set(assigned)
            assigned.clear()
            assigned.update(before)
            for s in n.orelse:
                visit(s)
            a2 = set(assigned)
            assigned.clear()
            assigned.update(a1 & a2)
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                if n.id not in assigned:
                    out.add(n.id)
            else:
                assigned.add(n.id)
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in n.generators:
                visit(g.iter)
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        assigned.add(x.id)
                for i in g.ifs:
                    visit(i)
            if isinstance(n, ast.DictComp):
                visit(n.key)
                visit(n.value)
            else:
                visit(n.elt)
        else:
            for c in ast.iter_child_nodes(n):
                visit(c)

    for s in body:
        visit(s)
    return out


class Path:
    def __init__(self, it, result, exc):
        self.it, self.result, self.exc = it, result, exc
        self.conds = [(c, v, loc) for _, c, v, loc in it.taken]


def explore(make, run, limit=64):
    """analyse `run(interp)` once per combination of outcomes of undetermined branches.

    make() builds a fresh Interp.  Returns list of Path; .truncated if the limit was hit."""
    paths = []
    todo = [[]]
    truncated = False
    while todo:
        dec = todo.pop()
        it = make()
        it.decisions = list(dec)
        res, exc = None, None
        try:
            res = run(it)
        except RaiseEx as e:
            exc = e
        except (GiveUp, T.TooBig, RecursionError) as e:
            exc = GiveUp(str(e) or type(e).__name__)
            exc.stackloc = it.loc()
        paths.append(Path(it, res, exc))
        base = len(dec)
        for i in range(len(it.taken) - 1, base - 1, -1):
            if i < base:
                break
            todo.append([v for _, _, v, _ in it.taken[:i]] + [not it.taken[i][2]])
        if len(paths) >= limit:
            truncated = bool(todo)
            break
    for p in paths:
        p.truncated = truncated
    return paths
