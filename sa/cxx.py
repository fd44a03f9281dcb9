"""Abstract interpretation of the C++ sources: clang's type-checked syntax tree is read (never compiled to code, never run), scalars become
polynomials over symbolic sizes, arrays become element value numbers over a flat index, and loops become recurrences over the state they carry."""
import copy
import glob
import json
import os
import re
import subprocess
import sys
import tempfile
from fractions import Fraction

from . import terms as T
from .terms import Poly, P
from .values import Ten, DT, Cond, new_fi, _uid

VENV = "/opt/venv"
DTYPES = {"Float": "float32", "Double": "float64", "Half": "float16", "BFloat16": "bfloat16", "Long": "int64", "Int": "int32", "Bool": "bool", "Byte": "uint8",
          "Float32": "float32", "Float64": "float64", "Float16": "float16", "Int64": "int64", "Int32": "int32", "F32": "float32", "F64": "float64", "I64": "int64"}
CTYPES = {"float": "float32", "double": "float64", "long": "int64", "int64_t": "int64", "int": "int32", "c10::Half": "float16", "c10::BFloat16": "bfloat16"}


class Unk(Exception):
    """the construct is not modelled"""


class Rejected(Exception):
    """the code throws or aborts"""


class Fork(Exception):
    pass


class _Jump(Exception):
    pass


class Break_(_Jump):
    pass


class Continue_(_Jump):
    pass


class Return_(Exception):
    def __init__(self, v):
        self.v = v


class TopV:
    def __init__(self, why):
        self.why = why


# ------------------------------------------------------------------ clang
def include_flags():
    out = []
    for d in glob.glob(VENV + "/lib/python3*/site-packages/torch/include"):
        out += ["-isystem", d, "-isystem", d + "/torch/csrc/api/include"]
    for d in glob.glob("/usr/include/python3*") + glob.glob("/usr/local/include/python3*") + glob.glob("/opt/*/include/python3*"):
        if os.path.exists(os.path.join(d, "Python.h")):
            out += ["-isystem", d]
    return out


def ast_dump(path, filt, timeout=300):
    cmd = ["clang++", "-fsyntax-only", "-std=c++20", "-w", "-DBUILD_CPP=1"] + include_flags() + ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt, path]
    with tempfile.TemporaryFile("w+") as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, text=True, timeout=timeout)
        if r.returncode:
            raise Unk("clang does not parse %s: %s" % (os.path.basename(path), r.stderr[:200]))
        f.seek(0)
        s = f.read()
    d, i, n, out = json.JSONDecoder(), 0, len(s), []
    while i < n:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


class TU:
    """one translation unit: its functions by id and by name, with source positions filled in"""

    def __init__(self, path, filt):
        self.path, self.filt = path, filt
        self.fns, self.byname, self.impls = {}, {}, {}
        self.add(ast_dump(path, filt))

    def add(self, docs):
        for d in docs:
            self.file, self.line = self.path, 0
            self.index(d)

    def loc(self, l):
        if not l:
            return
        if "expansionLoc" in l:
            l = l["expansionLoc"]
        if "file" in l:
            self.file = l["file"]
        if "line" in l:
            self.line = l["line"]

    def index(self, n):
        if not isinstance(n, dict) or not n:
            return
        self.loc(n.get("loc"))
        r = n.get("range") or {}
        b = r.get("begin")
        self.loc(b)
        n["_at"] = (self.file, self.line)
        self.loc(r.get("end"))
        k = n.get("kind")
        if k == "FunctionDecl" and any(c.get("kind") == "CompoundStmt" for c in n.get("inner", ())):
            self.fns[n["id"]] = n
            self.byname.setdefault(n.get("name"), []).append(n)
        elif k == "CXXMemberCallExpr":
            m = n["inner"][0]
            if m.get("kind") == "MemberExpr" and m.get("name") == "impl" and len(n["inner"]) >= 3:
                s = list(walk(n["inner"][1], "StringLiteral"))
                f = [x["referencedDecl"] for x in walk(n["inner"][2], "DeclRefExpr") if x.get("referencedDecl", {}).get("kind") == "FunctionDecl"]
                if s and f:
                    self.impls[json.loads(s[0]["value"])] = f[0]
        for c in n.get("inner", ()):
            self.index(c)


def walk(n, kind=None):
    if isinstance(n, dict):
        if kind is None or n.get("kind") == kind:
            yield n
        for c in n.get("inner", ()):
            yield from walk(c, kind)


class Program:
    """the translation units of one extension, loaded on demand"""

    def __init__(self, files, filt):
        self.files, self.filt, self.tus, self.failed = list(files), filt, {}, set()

    def tu(self, path):
        if path in self.failed:
            raise Unk("%s not parsed" % os.path.basename(path))
        if path not in self.tus:
            self.tus[path] = TU(path, self.filt)
        return self.tus[path]

    def mentioning(self, rx):
        out = []
        for f in self.files:
            with open(f, errors="replace") as h:
                if re.search(rx, h.read()):
                    out.append(f)
        return out

    def op(self, name):
        for f in self.mentioning(r'impl\s*\(\s*"%s"' % re.escape(name)):
            t = self.tu(f)
            if name in t.impls:
                r = t.impls[name]
                fn = t.fns.get(r["id"])
                if fn is not None:
                    return t, fn
                return self.find(t, r)
        raise Unk("no implementation registered for %s" % name)

    def function(self, name):
        for f in self.mentioning(r"\b%s\b" % re.escape(name)):
            c = self.tu(f).byname.get(name, ())
            if len(c) == 1:
                return self.tu(f), c[0]
        raise Unk("no function %s" % name)

    def find(self, tu, ref):
        fn = tu.fns.get(ref["id"])
        if fn is not None:
            return tu, fn
        name, ty = ref.get("name"), ref.get("type", {}).get("qualType")
        for f in [tu.path] + [x for x in self.mentioning(r"\b%s\b" % re.escape(name or "?")) if x != tu.path]:
            t = self.tu(f)
            c = [x for x in t.byname.get(name, ()) if x.get("type", {}).get("qualType") == ty and not any(y.get("kind") == "TemplateArgument" for y in x.get("inner", ()))]
            if not c:
                c = t.byname.get(name, ()) if len(t.byname.get(name, ())) == 1 else []
            if len(c) >= 1:
                return t, c[0]
        return None


# ------------------------------------------------------------------ values
class Arr:
    """a flat array; expr is the element at index ax"""
    n = 0

    def __init__(self, name, size, expr_of, dtype=None, shared=True):
        Arr.n += 1
        self.name, self.size, self.dtype, self.k = name, size, dtype, Arr.n
        self.ax = T.new_axis(size if size is not None else T.sym("unbounded"))
        self.expr = expr_of(Poly.atom(self.ax))
        self.written = False

    def at(self, i):
        return T.subst(self.expr, {self.ax: i})

    def __repr__(self):
        return "Arr(%s)" % self.name


class Ptr:
    def __init__(self, arr, off):
        self.arr, self.off = arr, off


class Vec:
    """std::vector / std::array / new[]: owns an array"""

    def __init__(self, arr):
        self.arr = arr


class CT:
    """tensor handle: contiguous storage, or (strided view) a permutation of one"""

    def __init__(self, arr, shape, dtype, view=None):
        self.arr, self.shape, self.dtype, self.view = arr, list(shape), dtype, view

    def strides(self):
        out, s = [], T.ONE
        for x in reversed(self.shape):
            out.insert(0, s)
            s = s * x
        return out

    def at(self, idx):
        if self.view is not None:
            base, perm = self.view
            j = [None] * len(perm)
            for k, p in enumerate(perm):
                j[p] = idx[k]
            return base.at(j)
        o = T.ZERO
        for i, s in zip(idx, self.strides()):
            o = o + i * s
        return self.arr.at(o)


class Acc:
    def __init__(self, ct, idx=()):
        self.ct, self.idx = ct, list(idx)


class Opt:
    def __init__(self, dtype):
        self.dtype = dtype


class Fun:
    def __init__(self, tu, node, frame, params):
        self.tu, self.node, self.frame, self.params = tu, node, frame, params


class LV:
    """an lvalue: variable cell or array element"""

    def __init__(self, key=None, arr=None, idx=None):
        self.key, self.arr, self.idx = key, arr, idx


def numel(shape):
    s = T.ONE
    for x in shape:
        s = s * x
    return s


def where(c, x, y):
    v = c.constval()
    if v is not None:
        return x if v else y
    if x == y:
        return x
    d = x - y
    if d.constval() is not None and y.constval() is None:
        return y + c * d
    return Poly.atom(("fn", "where", c, x, y))


def cmp_(op, a, b):
    d = a - b
    s = T.sign(d) if d.t else 0
    if d.constval() is not None:
        s = (d.constval() > 0) - (d.constval() < 0)
    r = {"<": {-1: 1, 0: 0, 1: 0}, ">": {-1: 0, 0: 0, 1: 1}, "<=": {-1: 1, 0: 1, 1: 0}, ">=": {-1: 0, 0: 1, 1: 1}, "==": {-1: 0, 0: 1, 1: 0}, "!=": {-1: 1, 0: 0, 1: 1}}[op]
    if s in (-1, 0, 1) and (s or not d.t):
        return P(r[s])
    lo, hi = T.lower(d), T.upper(d)
    if op in ("<", ">="):
        if hi is not None and T.nonneg(-hi - 1):
            return P(int(op == "<"))
        if lo is not None and T.nonneg(lo):
            return P(int(op == ">="))
    if op in (">", "<="):
        if lo is not None and T.nonneg(lo - 1):
            return P(int(op == ">"))
        if hi is not None and T.nonneg(-hi):
            return P(int(op == "<="))
    return Poly.atom(("fn", "cmp_" + {"<": "lt", ">": "gt", "<=": "le", ">=": "ge", "==": "eq", "!=": "ne"}[op], a, b))


def not_(c):
    v = c.constval()
    if v is not None:
        return P(0 if v else 1)
    if len(c.t) == 1:
        (m, k), = c.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][:1] == ("fn",) and str(m[0][0][1]).startswith("cmp_"):
            a = m[0][0]
            return Poly.atom(("fn", "cmp_" + {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}[a[1][4:]], a[2], a[3]))
    return T.ONE - c


def cond_of(c, val):
    """Cond for the sampler"""
    if len(c.t) == 1:
        (m, k), = c.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][:1] == ("fn",) and str(m[0][0][1]).startswith("cmp_"):
            a = m[0][0]
            d = a[2] - a[3]
            o = a[1][4:]
            if o in ("eq", "ne"):
                return Cond("eq", d), val == (o == "eq")
            if o == "gt":
                return Cond("gt", d), val
            if o == "lt":
                return Cond("gt", -d), val
            if o == "le":
                return Cond("gt", d), not val
            if o == "ge":
                return Cond("gt", -d), not val
    return Cond("eq", c), not val


def cdiv(a, b):
    lo = T.lower(a)
    if (lo is not None and T.nonneg(lo)) or T.nonneg(a) or T.divide_exact(a, b) is not None:
        return T.fdiv(a, b)
    return Poly.atom(("fn", "cdiv", a, b))


def cmod(a, b):
    lo = T.lower(a)
    if (lo is not None and T.nonneg(lo)) or T.nonneg(a) or T.divide_exact(a, b) is not None:
        return T.mod(a, b)
    return Poly.atom(("fn", "cmod", a, b))


def has_jump(n, kinds):
    """a jump of the given kinds that leaves n itself (not one inside a nested loop)"""
    k = n.get("kind") if isinstance(n, dict) else None
    if k in kinds:
        return True
    if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "LambdaExpr"):
        return "ReturnStmt" in kinds and k != "LambdaExpr" and any(has_jump(c, ("ReturnStmt",)) for c in n.get("inner", ()))
    if k == "SwitchStmt":
        kinds = tuple(x for x in kinds if x != "BreakStmt")
    return any(has_jump(c, kinds) for c in n.get("inner", ())) if isinstance(n, dict) else False


def strip(n):
    while isinstance(n, dict) and n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXFunctionalCastExpr", "FullExpr") and n.get("inner"):
        n = n["inner"][-1] if n["kind"] != "ConstantExpr" else n["inner"][0]
    return n


def ty(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType") or ""


class CX:
    """interprets one function; config: track ('oob'|'race'|None), small (literal -> replacement for cache-block constants)"""

    def __init__(self, prog, track=None, blocks=None, choices=()):
        self.prog, self.track, self.blocks = prog, track, blocks or {}
        self.choices, self.taken = list(choices), []
        self.vars, self.arrays, self.conds, self.guards = {}, [], [], []
        self.frames, self.depth, self.dry = [], 0, 0
        self.effects = []
        self.levels, self.regions, self.names, self.races, self.statics = [], [], {}, [], set()
        self.notes, self.sites = [], {}
        self.at = None
        self.steps = 0
        self.visited = set()

    # ---------------------------------------------------------------- state
    def snap(self):
        return dict(self.vars), {a: a.expr for a in self.arrays}

    def restore(self, s):
        self.vars = dict(s[0])
        for a, e in s[1].items():
            a.expr = e

    def merge(self, c, s1, s2):
        """state where c holds: s1, else s2"""
        v1, a1 = s1
        v2, a2 = s2
        out = {}
        for k in v1:
            x = v1[k]
            if k not in v2:
                out[k] = x
                continue
            y = v2[k]
            out[k] = x if x is y else self.merge_value(c, x, y)
        for k in v2:
            out.setdefault(k, v2[k])
        self.vars = out
        for a in self.arrays:
            x, y = a1.get(a), a2.get(a)
            if x is None or y is None:
                a.expr = x if x is not None else (y if y is not None else a.expr)
            else:
                a.expr = x if x is y or x == y else where(c, x, y)

    def merge_value(self, c, x, y):
        if isinstance(x, Poly) and isinstance(y, Poly):
            return where(c, x, y)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.arr is y.arr:
            return Ptr(x.arr, where(c, x.off, y.off))
        if isinstance(x, LV) and isinstance(y, LV) and x.key == y.key and x.arr is y.arr and x.idx == y.idx:
            return x
        return TopV("differs between branches")

    def newarr(self, name, size, f, dtype=None):
        a = Arr(name, size, f, dtype)
        self.arrays.append(a)
        return a

    def key(self, did):
        for fr in reversed(self.chain()):
            if (fr, did) in self.vars:
                return (fr, did)
        return None

    def chain(self):
        out, f = [], self.frames[-1]
        while f is not None:
            out.insert(0, f["id"])
            f = f["parent"]
        return out

    def setvar(self, key, v):
        self.vars[key] = v
        self.effects.append(("v", key))

    # ---------------------------------------------------------------- array access
    def bound(self, arr, i):
        if self.track == "oob" and arr.size is not None:
            c = T.ind(i, T.ZERO, arr.size)
            if c != T.ONE:
                self.outside(arr, T.ONE - c)

    def outside(self, arr, e):
        site = ("oob", self.at, arr.name)
        self.sites[site] = None
        k = site if site in self.vars else "oob"
        self.setvar(k, self.vars[k] + e)

    def read(self, arr, i):
        self.bound(arr, i)
        return arr.at(i)

    def write(self, arr, i, v):
        self.bound(arr, i)
        x = Poly.atom(arr.ax)
        if not isinstance(v, Poly):
            raise Unk("non-numeric store")
        arr.expr = where(T.delta(x - i), v, arr.expr)
        arr.written = True
        self.effects.append(("a", arr))
        w = self.shadow(arr)
        if w is not None:
            w.expr = where(T.delta(Poly.atom(w.ax) - i), T.ONE, w.expr)
            self.effects.append(("a", w))

    def shadow(self, arr):
        """marks of the elements the current iteration of a parallel loop has written"""
        for lv in reversed(self.levels):
            if arr in lv["marks"]:
                return lv["marks"][arr][0]
        return None

    def load(self, lv):
        if not isinstance(lv, LV):
            return lv
        if lv.arr is not None:
            return self.read(lv.arr, lv.idx)
        v = self.vars.get(lv.key)
        if isinstance(v, LV):
            return self.load(v)
        if isinstance(v, TopV):
            raise Unk(v.why)
        if v is None:
            raise Unk("uninitialised variable")
        return v

    def store(self, lv, v):
        if not isinstance(lv, LV):
            raise Unk("store to a temporary")
        if lv.arr is not None:
            return self.write(lv.arr, lv.idx, v)
        cur = self.vars.get(lv.key)
        if isinstance(cur, LV):
            return self.store(cur, v)
        self.setvar(lv.key, v)

    # ---------------------------------------------------------------- functions
    def call(self, tu, fn, args):
        params = [c for c in fn.get("inner", ()) if c.get("kind") == "ParmVarDecl"]
        body = [c for c in fn.get("inner", ()) if c.get("kind") == "CompoundStmt"]
        if len(args) < len(params) or not body:
            raise Unk("call of %s" % fn.get("name"))
        self.visited.add("%s (%s)" % (fn.get("name"), os.path.basename(fn.get("_at", ("?",))[0])))
        return self.invoke(tu, body[0], params, args, None)

    def invoke(self, tu, body, params, args, parent):
        if len(self.frames) > 30:
            raise Unk("call depth")
        fid = next(_uid)
        self.frames.append({"id": fid, "parent": parent, "tu": tu, "entry": self.depth})
        try:
            for p, a in zip(params, args):
                t = p.get("type", {}).get("qualType", "")
                if isinstance(a, LV) and not t.rstrip().endswith("&"):
                    a = self.load(a)
                self.vars[(fid, p["id"])] = a
                self.names[(fid, p["id"])] = p.get("name")
            try:
                self.stmts(body.get("inner", []))
            except Return_ as r:
                return r.v
            return None
        finally:
            self.frames.pop()

    # ---------------------------------------------------------------- statements
    def stmts(self, lst):
        lst = [s for s in lst if s]
        for k, s in enumerate(lst):
            if s.get("kind") == "IfStmt" and self.depth and has_jump(s, ("ContinueStmt", "BreakStmt")):
                return self.if_jump(s, lst[k + 1:])
            if s.get("kind") == "CompoundStmt" and self.depth and has_jump(s, ("ContinueStmt", "BreakStmt")):
                return self.stmts(s.get("inner", []) + lst[k + 1:])
            self.stmt(s)

    def if_parts(self, s):
        inner = [x for x in s.get("inner", [])]
        if s.get("hasInit") or s.get("hasVar"):
            raise Unk("if with initialiser")
        return inner[0], inner[1], inner[2] if s.get("hasElse") and len(inner) > 2 else None

    def if_jump(self, s, rest):
        test, then, els = self.if_parts(s)
        c = self.truth(self.rv(test))
        tl = then.get("inner", []) if then.get("kind") == "CompoundStmt" else [then]
        el = [] if els is None else (els.get("inner", []) if els.get("kind") == "CompoundStmt" else [els])
        v = c.constval()
        if v is not None:
            return self.stmts((tl if v else el) + rest)
        s0 = self.snap()
        states, jumps = [], []
        for body in (tl, el):
            self.restore(s0)
            j = None
            try:
                self.stmts(body + rest)
            except Continue_:
                j = "c"
            except Break_:
                j = "b"
                self.setvar(self.frames[-1].setdefault("brk", [None])[-1], T.ONE)
            states.append(self.snap())
            jumps.append(j)
        self.merge(c, states[0], states[1])

    def stmt(self, s):
        k = s.get("kind")
        self.steps += 1
        if self.steps > 200000:
            raise Unk("too many steps")
        if "_at" in s:
            self.at = s["_at"]
        if self.track in ("race", "marks"):
            words, _ = self.directive(s)
            if words & {"atomic", "critical", "single", "master", "masked", "sections", "section", "task", "taskloop", "ordered", "target", "teams", "declare", "scan", "threadprivate"}:
                raise Unk("OpenMP directive %s" % " ".join(sorted(words)))
            if "parallel" in words and "for" not in words and (not self.regions or self.regions[-1]["at"] != s.get("_at")):
                self.regions.append({"at": s.get("_at"), "arrays": set(self.arrays), "vars": set(self.vars), "private": self.named(_, "private", "firstprivate"), "reduction": self.named(_, "reduction")})
                try:
                    return self.stmt(s)
                finally:
                    self.regions.pop()
        f = getattr(self, "s_" + k, None)
        if f is not None:
            return f(s)
        if k.endswith("Expr") or k.endswith("Operator") or k.endswith("Literal") or k == "ExprWithCleanups":
            self.ev(s)
            return
        raise Unk("statement %s" % k)

    def s_CompoundStmt(self, s):
        self.stmts(s.get("inner", []))

    def s_NullStmt(self, s):
        pass

    def s_ContinueStmt(self, s):
        raise Continue_()

    def s_BreakStmt(self, s):
        raise Break_()

    def s_ReturnStmt(self, s):
        if self.frames[-1]["entry"] != self.depth:
            raise Unk("return inside a loop")
        inner = s.get("inner", [])
        raise Return_(self.rvx(inner[0]) if inner else None)

    def rvx(self, n):
        v = self.ev(n)
        return self.load(v) if isinstance(v, LV) else v

    def s_DeclStmt(self, s):
        for d in s.get("inner", []):
            if d.get("kind") == "VarDecl":
                self.declare(d)
            elif d.get("kind") not in ("TypeAliasDecl", "TypedefDecl", "UsingDecl", "StaticAssertDecl", "UsingDirectiveDecl", "CXXRecordDecl", "DecompositionDecl"):
                raise Unk("declaration %s" % d.get("kind"))
            elif d.get("kind") == "DecompositionDecl":
                raise Unk("structured binding")

    def declare(self, d):
        key = (self.frames[-1]["id"], d["id"])
        self.names[key] = d.get("name")
        t, dt = d.get("type", {}).get("qualType", ""), ty(d)
        init = [x for x in d.get("inner", []) if x.get("kind") not in ("UnusedAttr", "AlignedAttr", "VisibilityAttr") and not x.get("kind", "").endswith("Attr")]
        if d.get("storageClass") == "static" or d.get("tls"):
            return self.declare_static(d, key, t, dt, init)
        if not init:
            m = re.match(r"(?:const )?([\w:]+(?: \w+)*) ?\[(\d+)\]$", dt)
            if m:
                a = self.newarr(d.get("name"), P(int(m.group(2))), lambda x: Poly.atom(("T", "uninit%d" % next(_uid), (x,))), None)
                self.vars[key] = Vec(a)
            else:
                self.vars[key] = TopV("uninitialised %s" % d.get("name"))
            return
        v = self.construct(d.get("name"), dt, init[-1])
        if isinstance(v, LV) and not t.rstrip().endswith("&"):
            v = self.load(v)
        if isinstance(v, Vec) and not t.rstrip().endswith("&") and strip(init[-1]).get("kind") == "DeclRefExpr":
            old = v.arr
            v = Vec(self.newarr(d.get("name"), old.size, lambda x: old.at(x), old.dtype))
        self.vars[key] = v

    def declare_static(self, d, key, t, dt, init):
        """initialised by the first call in the process (or thread): its contents are whatever earlier calls left"""
        const = t.startswith("const ") or d.get("constexpr")
        v = self.construct(d.get("name"), dt, init[-1]) if init else None
        if isinstance(v, LV):
            v = self.load(v)
        u = "static%d" % next(_uid)
        if const and isinstance(v, Poly) and v.constval() is not None:
            self.vars[key] = v
            return
        if isinstance(v, Vec) or v is None and re.match(r"(?:std::vector<|[\w: ]+\[\d+\]$)", dt):
            if v is None:
                m = re.search(r"\[(\d+)\]$", dt)
                n = P(int(m.group(1))) if m else T.sym(u + "size")
                v = Vec(self.newarr(d.get("name"), n, lambda x: Poly.atom(("T", u, (x,)))))
            else:
                n = v.arr.size
                v = Vec(self.newarr(d.get("name"), n if n is not None and n.constval() is not None and not dt.startswith("std::vector") else T.sym(u + "size"), lambda x: Poly.atom(("T", u, (x,)))))
            if not d.get("tls"):
                self.statics.add(v.arr)
        elif isinstance(v, Poly):
            v = Poly.atom(("T", u, ()))
        else:
            raise Unk("static local variable")
        if not const and not d.get("tls") and (self.regions or self.levels):
            self.races.append((self.at, d.get("name"), T.ONE, list(self.conds)))
        self.vars[key] = v

    def construct(self, name, dt, init):
        base = dt.replace("const ", "").strip()
        if base.startswith(("std::vector<", "std::array<", "std::__cxx11", "class std::vector")) or re.match(r"^[\w: ]+\[\d+\]$", base):
            n = init
            while n.get("kind") in ("ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ImplicitCastExpr", "CXXFunctionalCastExpr"):
                n = n["inner"][-1]
            if n.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                args = [x for x in n.get("inner", []) if x.get("kind") != "CXXDefaultArgExpr"]
                if base.startswith("std::array<"):
                    if not args:
                        return Vec(self.newarr(name, self.array_size(base), lambda x: Poly.atom(("T", "uninit%d" % next(_uid), (x,)))))
                elif len(args) == 0:
                    return Vec(self.newarr(name, T.ZERO, lambda x: T.ZERO))
                if args and strip(args[0]).get("kind") in ("CXXStdInitializerListExpr",):
                    raise Unk("vector initialiser list")
                vals = [self.rv(a) for a in args]
                if len(vals) == 1 and isinstance(vals[0], Vec):
                    o = vals[0].arr
                    e = o.expr
                    return Vec(self.newarr(name, o.size, lambda x: T.subst(e, {o.ax: x}), o.dtype))
                if len(vals) == 1 and isinstance(vals[0], Poly):
                    return Vec(self.newarr(name, vals[0], lambda x: T.ZERO))
                if len(vals) == 2 and all(isinstance(v, Poly) for v in vals):
                    return Vec(self.newarr(name, vals[0], lambda x: vals[1]))
                if len(vals) == 2 and all(isinstance(v, Ptr) for v in vals) and vals[0].arr is vals[1].arr:
                    o, e, off = vals[0].arr, vals[0].arr.expr, vals[0].off
                    return Vec(self.newarr(name, vals[1].off - off, lambda x: T.subst(e, {o.ax: x + off})))
                raise Unk("construction of %s" % base[:40])
            if n.get("kind") == "InitListExpr":
                els = [x for x in n.get("inner", []) if x.get("kind") not in ("ImplicitValueInitExpr",)]
                if els and els[0].get("kind") == "InitListExpr":
                    els = [x for x in els[0].get("inner", []) if x.get("kind") != "ImplicitValueInitExpr"]
                fill = n.get("array_filler")
                vals = [self.rv(x) for x in els if x.get("kind") not in ("ImplicitValueInitExpr",)]
                def f(x, vals=vals):
                    e = T.ZERO
                    for i, v in enumerate(vals):
                        e = where(T.delta(x - i), v, e)
                    return e
                return Vec(self.newarr(name, self.array_size(base), f))
        return self.ev(init)

    def array_size(self, base):
        m = re.search(r",\s*(\d+)[UL]*\s*>$", base) or re.search(r"\[(\d+)\]$", base)
        if not m:
            return None
        n = int(m.group(1))
        return P(self.blocks.get(n, n))

    def s_IfStmt(self, s):
        test, then, els = self.if_parts(s)
        if test.get("kind") == "ConstantExpr" and test.get("value") in ("false", "true"):
            if test["value"] == "true":
                self.stmt(then)
            elif els is not None:
                self.stmt(els)
            return
        c = self.truth(self.rv(test))
        if self.aborts(then) and els is None:
            if not self.depth:
                self.guards.append((c, self.at, list(self.conds)))
            v = c.constval()
            if v is not None and v:
                raise Rejected(self.at)
            if v is None and not self.depth:
                self.assume(c, False)
            return
        v = c.constval()
        if v is None and not self.depth:
            v = self.decide(c)
        if v is not None:
            if v:
                self.stmt(then)
            elif els is not None:
                self.stmt(els)
            return
        s0 = self.snap()
        if has_jump(s, ("ReturnStmt",)):
            raise Unk("conditional return inside a loop")
        self.stmt(then)
        s1 = self.snap()
        self.restore(s0)
        if els is not None:
            self.stmt(els)
        s2 = self.snap()
        self.merge(c, s1, s2)

    def aborts(self, n):
        """the block only reports an error and does not return"""
        for d in walk(n, "DeclRefExpr"):
            if d.get("referencedDecl", {}).get("name") in ("torchCheckFail", "torchInternalAssertFail", "exit", "abort", "__assert_fail", "terminate"):
                return True
        return any(True for _ in walk(n, "CXXThrowExpr"))

    def assume(self, c, val):
        self.conds.append((c, val))

    def known(self, c):
        for d, v in self.conds:
            if d == c:
                return v
            if d == not_(c):
                return not v
        return None

    def decide(self, c):
        k = self.known(c)
        if k is not None:
            return k
        if len(self.taken) < len(self.choices):
            v = self.choices[len(self.taken)]
        else:
            v = True
        self.taken.append(v)
        self.assume(c, v)
        return v

    def s_SwitchStmt(self, s):
        inner = s["inner"]
        v = self.rv(inner[0])
        cases, cur = [], None
        for st in inner[-1].get("inner", []):
            n, labels = st, []
            while n.get("kind") in ("CaseStmt", "DefaultStmt"):
                if n["kind"] == "CaseStmt":
                    labels.append(n["inner"][0])
                    n = n["inner"][-1]
                else:
                    labels.append(None)
                    n = n["inner"][-1]
            if labels:
                cur = (labels, [n])
                cases.append(cur)
            elif cur is not None:
                cur[1].append(n)
        default = None
        for i, (labels, body) in enumerate(cases):
            if None in labels:
                default = i
            for l in labels:
                if l is None:
                    continue
                w = self.rv(l)
                if isinstance(v, DT) or isinstance(w, DT):
                    hit = v == w
                else:
                    c = cmp_("==", v, w)
                    hit = c.constval()
                    if hit is None:
                        if self.depth:
                            raise Unk("switch inside a loop")
                        hit = self.decide(c)
                if hit:
                    return self.run_cases(cases, i)
        if default is not None:
            return self.run_cases(cases, default)

    def run_cases(self, cases, i):
        try:
            for labels, body in cases[i:]:
                for st in body:
                    self.stmt(st)
        except Break_:
            pass

    def s_DoStmt(self, s):
        c = self.rv(s["inner"][1])
        if not (isinstance(c, Poly) and c.constval() == 0):
            raise Unk("do loop")
        self.stmt(s["inner"][0])

    # ---------------------------------------------------------------- loops
    def pragma(self, s):
        """OpenMP directives that apply to a statement"""
        f, l = s.get("_at", (None, None))
        if not f or not l:
            return []
        try:
            lines = source(f)
        except OSError:
            return []
        out, i = [], l - 2
        while i >= 0:
            t = lines[i].strip()
            if not t or t.startswith("//"):
                i -= 1
                continue
            j = i
            while j > 0 and lines[j - 1].rstrip().endswith("\\"):
                j -= 1
            t = " ".join(x.strip().rstrip("\\").strip() for x in lines[j:i + 1])
            if not t.startswith("#pragma"):
                break
            out.append(t)
            i = j - 1
        return out

    def directive(self, s):
        """words and clauses of the OpenMP directives that apply to a statement"""
        words, clauses = set(), {}
        for p in self.pragma(s):
            m = re.match(r"#pragma\s+omp\s+(.*)", p.split("//")[0])
            if not m:
                continue
            rest = m.group(1)
            for c, a in re.findall(r"(\w+)\s*\(([^()]*)\)", rest):
                clauses.setdefault(c, []).append(a.split(":")[-1] if c == "reduction" else a)
            words |= set(re.sub(r"\w+\s*\([^()]*\)", " ", rest).replace(",", " ").split())
        return words, clauses

    def named(self, clauses, *names):
        return {x.strip() for n in names for a in clauses.get(n, ()) for x in a.split(",")}

    def s_ForStmt(self, s):
        init, _, cond, inc, body = (s["inner"] + [None] * 5)[:5]
        name = None
        if init and init.get("kind") == "DeclStmt" and len(init.get("inner", [])) == 1:
            d = init["inner"][0]
            self.declare(d)
            name = d["id"]
        elif init:
            e = strip(init)
            if e.get("kind") == "BinaryOperator" and e.get("opcode") == "=" and strip(e["inner"][0]).get("kind") == "DeclRefExpr":
                self.ev(init)
                name = strip(e["inner"][0])["referencedDecl"]["id"]
            else:
                raise Unk("loop initialiser")
        else:
            raise Unk("loop without initialiser")
        self.loop(s, name, cond, inc, body)

    def s_WhileStmt(self, s):
        cond, body = s["inner"][0], s["inner"][-1]
        lst = body.get("inner", []) if body.get("kind") == "CompoundStmt" else [body]
        last = strip(lst[-1]) if lst else None
        if last is None or has_jump(body, ("ContinueStmt",)):
            raise Unk("while loop")
        v = self.stepped(last)
        if v is None:
            raise Unk("while loop")
        self.loop(s, v, cond, lst[-1], {"kind": "CompoundStmt", "inner": lst[:-1], "_at": body.get("_at")})

    def stepped(self, inc):
        inc = strip(inc)
        if inc.get("kind") in ("UnaryOperator", "CompoundAssignOperator", "BinaryOperator"):
            t = strip(inc["inner"][0])
            if t.get("kind") == "DeclRefExpr":
                return t["referencedDecl"]["id"]
        return None

    def assigns(self, n, did):
        for x in walk(n):
            k = x.get("kind")
            if k in ("CompoundAssignOperator",) or (k == "BinaryOperator" and x.get("opcode") == "=") or (k == "UnaryOperator" and x.get("opcode") in ("++", "--", "&")):
                t = strip(x["inner"][0])
                if t.get("kind") == "DeclRefExpr" and t["referencedDecl"]["id"] == did:
                    return True
        return False

    def loop(self, s, name, cond, inc, body):
        if cond is None or inc is None or not cond or not inc:
            raise Unk("loop header")
        key = self.key(name)
        c = strip(cond)
        i_ = strip(inc)
        step = None
        if i_.get("kind") == "UnaryOperator" and i_.get("opcode") in ("++", "--"):
            step = P(1 if i_["opcode"] == "++" else -1)
        elif i_.get("kind") == "CompoundAssignOperator" and i_.get("opcode") in ("+=", "-="):
            v = self.rv(i_["inner"][1])
            step = v if i_["opcode"] == "+=" else -v
        elif i_.get("kind") == "BinaryOperator" and i_.get("opcode") == "=":
            r = strip(i_["inner"][1])
            if r.get("kind") == "BinaryOperator" and r.get("opcode") in ("+", "-"):
                a, b = strip(r["inner"][0]), r["inner"][1]
                if a.get("kind") == "DeclRefExpr" and a["referencedDecl"]["id"] == name:
                    step = self.rv(b)
                    step = step if r["opcode"] == "+" else -step
        if step is None or self.stepped(i_) != name or self.assigns(body, name):
            raise Unk("loop header")
        if c.get("kind") != "BinaryOperator" or c.get("opcode") not in ("<", "<=", ">", ">=", "!="):
            raise Unk("loop condition")
        l, r = strip(c["inner"][0]), strip(c["inner"][1])
        op = c["opcode"]
        if l.get("kind") == "DeclRefExpr" and l["referencedDecl"]["id"] == name:
            bn = c["inner"][1]
        elif r.get("kind") == "DeclRefExpr" and r["referencedDecl"]["id"] == name:
            bn = c["inner"][0]
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
        else:
            raise Unk("loop condition")
        for d in walk(bn, "DeclRefExpr"):
            if self.assigns(body, d.get("referencedDecl", {}).get("id")):
                raise Unk("loop bound changes in the loop")
        a, b = self.load(LV(key=key)), self.rv(bn)
        sv = step.constval()
        if sv is None:
            sg = T.sign(step)
            if sg != 1 and not T.nonneg(step - 1):
                raise Unk("loop step of unknown sign")
            sv = 1
            single = False
        else:
            single = abs(sv) == 1
        if op == "!=":
            op = "<" if sv > 0 else ">"
            if not single:
                raise Unk("loop condition")
        if (sv > 0) != (op in ("<", "<=")):
            raise Unk("loop direction")
        span = (b - a if sv > 0 else a - b) + (1 if op in ("<=", ">=") else 0)
        mag = step if sv > 0 else -step
        n = span if single else cdiv(T.pmax(span, T.ZERO) + mag - 1, mag)
        if single and not T.nonneg(n):
            n = T.pmax(n, T.ZERO)
        self.run_loop(s, key, a, step, n, body)

    def run_loop(self, s, key, a, step, n, body):
        cn = n.constval()
        lv = self.level(s)
        if cn is not None and cn <= 4 and lv is None:
            for j in range(int(cn)):
                self.setvar(key, a + step * j)
                try:
                    self.stmt(body)
                except Continue_:
                    pass
                except Break_:
                    break
            else:
                self.setvar(key, a + step * int(cn))
            return
        if self.dry:
            # effects of one iteration suffice
            self.setvar(key, a)
            self.depth += 1
            self.brk_push()
            try:
                self.stmt(body)
            except (Continue_, Break_):
                pass
            finally:
                self.depth -= 1
                self.brk_pop()
            return
        s0 = self.snap()
        narr = len(self.arrays)
        self.dry += 1
        self.depth += 1
        eff0, self.effects = self.effects, []
        brk = self.brk_push()
        i = new_fi(n)
        try:
            self.setvar(key, a + step * Poly.atom(i))
            if lv is not None:
                self.levels.append(dict(lv, marks={}))
            self.stmt(body)
        except (Continue_, Break_):
            pass
        finally:
            if lv is not None:
                self.levels.pop()
            self.dry -= 1
            self.depth -= 1
            eff, self.effects = self.effects, eff0
            self.brk_pop()
        inner = set(self.arrays[narr:])
        self.arrays = self.arrays[:narr]
        self.restore(s0)
        hasbrk = has_jump(body, ("BreakStmt",))
        comps, seen = [], set()
        if lv is not None:
            if hasbrk:
                raise Unk("break in a parallel loop")
            eff = eff + self.enter_parallel(lv, key, eff, s0, inner)
            s0 = self.snap()

        def add(eff, inner):
            more = False
            for kind, x in eff:
                if (kind, x) in seen or (kind == "v" and (x not in s0[0] or x == key)) or (kind == "a" and (x in inner or lv is not None and any(x is w for w, _ in lv["marks"].values()))):
                    continue
                seen.add((kind, x))
                comps.append((kind, x))
                more = True
            return more
        add(eff, inner)
        for _ in range(6):
            tok, inits, eff, inner, brk = self.loop_body(s, key, a, step, n, body, i, comps, hasbrk, lv)
            s1 = self.snap()
            more = add(eff, inner)
            if not more:
                break
            self.restore(s0)
        else:
            raise Unk("loop state")
        if hasbrk:
            comps = comps + [("v", brk)]
        # closed forms first, the rest is a recurrence
        ptok = ("prev", tok)
        iso = self.isolated(lv, key, comps) if lv is not None else {}
        news = []
        for k, (kind, x) in enumerate(comps):
            v = self.vars[x] if kind == "v" else x.expr
            if isinstance(v, Ptr):
                if not isinstance(inits[k], Ptr) or inits[k].arr is not v.arr:
                    v = None
                else:
                    v = v.off
            news.append(v if isinstance(v, Poly) else None)
        closed = {}
        for k, how in iso.items():
            kind, x = comps[k]
            if news[k] is None or inits[k] is None or isinstance(inits[k], Ptr):
                continue
            prev = Poly.atom(("T", ("prev", tok, k), () if kind == "v" else (Poly.atom(x.ax),)))
            if how == "private" or self.track == "marks":        # what a thread finds here afterwards depends on the schedule
                closed[k] = Poly.atom(("T", "leftover%d" % next(_uid), () if kind == "v" else (Poly.atom(x.ax),)))
                news[k] = prev
                continue
            if kind == "a":
                r = self.mapped(x, k, tok, i, n, news[k], inits[k], inits[k])
                if r is not None:
                    closed[k] = r
            news[k] = where(cmp_("!=", news[k], inits[k]), news[k], prev)
        dep = [set() if v is None else prevs(v, tok) for v in news]
        for k, (kind, x) in enumerate(comps):
            if news[k] is None or inits[k] is None or k in closed:
                continue
            if kind == "a" and x.name == "marks":
                g = news[k] - Poly.atom(("T", ("prev", tok, k), (Poly.atom(x.ax),)))
                if not prevs(g, tok):
                    closed[k] = inits[k] + T.sum_over(g, [i], exact=False) if g.t else inits[k]
                continue
            if kind == "v" and not isinstance(inits[k], Ptr):
                me = Poly.atom(("T", ("prev", tok, k), ()))
                g = news[k] - me
                if not prevs(g, tok):
                    closed[k] = inits[k] + T.sum_over(g, [i], exact=False) if g.t else inits[k]
            elif kind == "a" and not dep[k] - {k}:
                r = self.mapped(x, k, tok, i, n, news[k], inits[k])
                if r is not None:
                    closed[k] = r
        bad = [k for k in range(len(comps)) if news[k] is None or inits[k] is None]
        use = set()
        for k in range(len(comps)):
            if k not in closed and k not in bad:
                use |= self.reach(k, dep)
        rec = sorted(use)
        if any(b in use for b in bad):
            raise Unk("state of a loop is not a number")
        if rec:
            ilams, blams = [], []
            for k in range(len(comps)):
                kind, x = comps[k]
                if k not in use:
                    ilams.append(("rlam", 1, 0, T.ZERO))
                    blams.append(("rlam", 1, 0, T.ZERO))
                    continue
                axs = [] if kind == "v" else [x.ax]
                e = inits[k].off if isinstance(inits[k], Ptr) else inits[k]
                d = 1 + max([T.depth(e)] + [T.depth(T.axsize(z)) for z in axs])
                ilams.append(("rlam", d, len(axs), T.subst(e, {z: Poly.atom(("bv", d, j)) for j, z in enumerate(axs)})))
                e = news[k]
                ax = [i] + axs
                d = 1 + max([T.depth(e)] + [T.depth(T.axsize(z)) for z in ax])
                blams.append(("rlam", d, len(ax), T.subst(e, {z: Poly.atom(("bv", d, j)) for j, z in enumerate(ax)})))
            nm = ("iter", tok, n, tuple(ilams), tuple(blams), None)
        for k, (kind, x) in enumerate(comps):
            if k in closed:
                v = closed[k]
            elif k in bad:
                v = None
            else:
                v = Poly.atom(("T", nm + (k,), () if kind == "v" else (Poly.atom(x.ax),)))
            if kind == "v":
                if v is None:
                    self.vars[x] = TopV("after loop") if not isinstance(inits[k], type(None)) or not isinstance(self.vars.get(x), (LV, Vec, CT, Acc, Fun)) else self.vars[x]
                else:
                    self.vars[x] = Ptr(inits[k].arr, v) if isinstance(inits[k], Ptr) else v
            else:
                x.expr = v
            self.effects.append((kind, x))
        self.setvar(key, a + step * n)
        if lv is not None:
            self.leave_parallel(lv)

    def loop_body(self, s, key, a, step, n, body, i, comps, hasbrk, lv):
        """one symbolic iteration over a state of unknown previous values"""
        comps = list(comps)
        brk = self.brk_push()
        if hasbrk:
            self.vars[brk] = T.ZERO
            comps.append(("v", brk))
        tok = next(_uid)
        inits = []
        iso = self.isolated(lv, key, comps) if lv is not None else {}
        for k, (kind, x) in enumerate(comps):
            if k in iso:                # every iteration starts from the state before the loop
                v = self.vars[x] if kind == "v" else x.expr
                inits.append(v if isinstance(v, (Poly, Ptr)) else None)
            elif kind == "v":
                v = self.vars[x]
                if isinstance(v, LV):
                    inits.append(None)
                    continue
                if isinstance(v, Poly):
                    inits.append(v)
                    self.vars[x] = Poly.atom(("T", ("prev", tok, k), ()))
                elif isinstance(v, Ptr):
                    inits.append(v)
                    self.vars[x] = Ptr(v.arr, Poly.atom(("T", ("prev", tok, k), ())))
                else:
                    inits.append(None)
            else:
                inits.append(x.expr)
                x.expr = Poly.atom(("T", ("prev", tok, k), (Poly.atom(x.ax),)))
        eff0, self.effects = self.effects, []
        self.depth += 1
        self.setvar(key, a + step * Poly.atom(i))
        narr = len(self.arrays)
        try:
            if lv is not None:
                self.levels.append(lv)
                for w, _ in lv["marks"].values():
                    w.expr = T.ZERO
            if hasbrk:
                b = self.vars[brk]
                s1 = self.snap()
                try:
                    self.stmt(body)
                except Continue_:
                    pass
                except Break_:
                    self.vars[brk] = T.ONE
                s2 = self.snap()
                self.merge(cmp_("==", b, T.ZERO), s2, s1)
            else:
                try:
                    self.stmt(body)
                except Continue_:
                    pass
        finally:
            self.depth -= 1
            self.brk_pop()
            if lv is not None:
                self.levels.pop()
        if lv is not None and not lv["left"]:
            for w, m in lv["marks"].values():
                m.expr = m.expr + T.subst(w.expr, {w.ax: Poly.atom(m.ax)})
                w.expr = T.ZERO
                self.effects.append(("a", m))
        eff, self.effects = self.effects, eff0
        inner = set(self.arrays[narr:])
        self.arrays = self.arrays[:narr]
        return tok, inits, eff, inner, brk

    def brk_push(self):
        k = ("brk", next(_uid))
        self.frames[-1].setdefault("brk", []).append(k)
        return k

    def brk_pop(self):
        self.frames[-1]["brk"].pop()

    def reach(self, k, dep):
        seen, todo = set(), [k]
        while todo:
            j = todo.pop()
            if j in seen:
                continue
            seen.add(j)
            todo += list(dep[j])
        return seen

    def mapped(self, arr, k, tok, i, n, new, init, base_state=None):
        """one store per iteration at consecutive places: element x of the result is the value stored there"""
        if len(new.t) != 1:
            return None
        (m, c), = new.t.items()
        x = Poly.atom(arr.ax)
        if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0][:2] != ("fn", "where"):
            # value already simplified to prev + delta-weighted constant: not a plain store
            return None
        _, _, cnd, val, old = m[0][0]
        if old != (Poly.atom(("T", ("prev", tok, k), (x,))) if base_state is None else base_state) or len(cnd.t) != 1:
            return None
        (dm, dc), = cnd.t.items()
        if dc != 1 or len(dm) != 1 or dm[0][0][0] != "delta":
            return None
        p = dm[0][0][1]
        cx = p.t.get(((arr.ax, 1),))
        if cx not in (1, -1):
            return None
        idx = -(p - Poly({((arr.ax, 1),): cx})) * Poly.const(Fraction(1) / cx)      # p = cx * (x - idx)
        ci = idx.t.get(((i, 1),))
        if ci not in (1, -1) or arr.ax in T.freevars(idx):
            return None
        base = idx - Poly({((i, 1),): ci})
        if i in T.freevars(base) or prevs(idx, tok):
            return None
        if arr.ax in T.freevars(val):
            return None
        own = ("T", ("prev", tok, k), (idx,))
        v2 = replace_atom(val, own, T.subst(init, {arr.ax: idx}))
        if prevs(v2, tok):
            return None
        at = (x - base) * ci
        return where(T.ind(at, T.ZERO, n), T.subst(v2, {i: at}), init)

    # every iteration of a parallel loop is run from the state before the loop; what it changed is then put together
    def level(self, s):
        if self.track not in ("race", "marks"):
            return None
        words, clauses = self.directive(s)
        up = self.levels[-1] if self.levels else None
        if "for" in words or "simd" in words:
            col = clauses.get("collapse", ["1"])[0].strip()
            if not col.isdigit():
                raise Unk("collapse")
            if "lastprivate" in clauses or "linear" in clauses:
                raise Unk("OpenMP clause")
            lv = {"simd": "for" not in words, "left": int(col) - 1, "marks": {}, "root": True, "keys": set(), "at": s.get("_at"), "private": self.named(clauses, "private", "firstprivate"), "reduction": self.named(clauses, "reduction"), "region": None}
            if not lv["simd"] and "parallel" not in words:
                lv["region"] = self.regions[-1] if self.regions else None
                if lv["region"]:
                    lv["private"] = lv["private"] | lv["region"]["private"]
            return lv
        if up is not None and up["left"] > 0:
            return dict(up, left=up["left"] - 1, root=False)
        return None

    def shared(self, lv, kind, x):
        r = lv["region"]
        if kind == "v":
            return self.names.get(x) not in lv["private"] and (r is None or x in r["vars"])
        return x in self.statics or r is None or x in r["arrays"]

    def isolated(self, lv, key, comps):
        out = {}
        for k, (kind, x) in enumerate(comps):
            if kind == "v" and (not isinstance(x, tuple) or self.names.get(x) in lv["reduction"] or x in lv["keys"] or x[0] == "brk"):
                continue
            if kind == "a" and x.name in ("mark", "marks"):
                continue
            out[k] = "shared" if self.shared(lv, kind, x) else "private"
        return out

    def enter_parallel(self, lv, key, eff, s0, inner):
        """marks for the shared arrays the loop writes; assignments to shared scalars are races"""
        lv["keys"].add(key)
        more = []
        if lv["root"] and not lv["simd"]:
            for kind, x in dict.fromkeys(eff):
                if kind == "a" and x not in inner and x.name not in ("mark", "marks") and self.shared(lv, kind, x):
                    if x.size is None:
                        raise Unk("array of unknown size in a parallel loop")
                    w, m = self.newarr("mark", x.size, lambda y: T.ZERO), self.newarr("marks", x.size, lambda y: T.ZERO)
                    lv["marks"][x] = (w, m)
        if lv["root"]:
            for kind, x in dict.fromkeys(eff):
                if kind == "v" and isinstance(x, tuple) and x in s0[0] and x != key and x[0] != "brk" and x in self.names and self.names[x] not in lv["reduction"] and not self.counter(lv, x) and self.shared(lv, kind, x):
                    self.races.append((lv["at"], self.names[x], T.ONE, list(self.conds)))
        return more + [("a", m) for _, m in lv["marks"].values()]

    def counter(self, lv, x):
        return False

    def leave_parallel(self, lv):
        if not lv["root"]:
            return
        for x, (w, m) in lv["marks"].items():
            ax = T.new_axis(x.size)
            e = T.sum_over(cmp_(">", m.at(Poly.atom(ax)), T.ONE), [ax], exact=False)
            if not e.t:
                continue
            if self.depth:
                self.setvar("race", self.vars["race"] + e)
            else:
                self.races.append((lv["at"], x.name, e, list(self.conds)))

    # ---------------------------------------------------------------- expressions
    def truth(self, v):
        if isinstance(v, bool):
            return P(int(v))
        if not isinstance(v, Poly):
            raise Unk("condition on %s" % type(v).__name__)
        return v

    def rv(self, n):
        v = self.ev(n)
        return self.load(v) if isinstance(v, LV) else v

    def num(self, n):
        v = self.rv(n)
        if isinstance(v, bool):
            return P(int(v))
        if not isinstance(v, Poly):
            raise Unk("a number is expected")
        return v

    def ev(self, n):
        k = n.get("kind")
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise Unk("expression %s" % k)
        return f(n)

    def first(self, n):
        return self.ev(n["inner"][0])

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = first

    def e_ConstantExpr(self, n):
        return self.ev(n["inner"][0])

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.ev([x for x in n["inner"] if x.get("kind") != "NonTypeTemplateParmDecl"][-1])

    def e_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        if ck == "LValueToRValue":
            return self.rv(n["inner"][0])
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            v = self.rv(n["inner"][0])
            if isinstance(v, bool) or not isinstance(v, Poly):
                return v
            if boolish(v):
                return v
            return cmp_("!=", v, T.ZERO)
        if ck == "FloatingToIntegral":
            v = self.num(n["inner"][0])
            if v.constval() is not None:
                return P(int(v.constval()))
            return Poly.atom(("fn", "trunc", v))
        if ck in ("IntegralCast", "FloatingCast", "IntegralToFloating"):
            src = n["inner"][0]
            v = self.rv(src)
            if isinstance(v, Poly) and v.constval() is None and not self.dry:
                a, b = ty(src), ty(n)
                if ck == "FloatingCast" and a.replace("const ", "") == "double" and b.replace("const ", "") == "float":
                    self.notes.append(("narrow-float", self.at))
                if ck == "IntegralCast" and "long" in a and b.replace("const ", "").replace("unsigned ", "") in ("int", "short", "char"):
                    self.notes.append(("narrow-int", self.at))
            return v
        if ck == "PointerToBoolean":
            return T.ONE
        return self.ev(n["inner"][0])

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr

    def e_IntegerLiteral(self, n):
        v = int(n["value"])
        return P(self.blocks.get(v, v))

    def e_FloatingLiteral(self, n):
        v = Fraction(str(n["value"])) if re.match(r"^-?[\d.]+(?:[eE][-+]?\d+)?$", str(n["value"])) else None
        if v is None:
            raise Unk("literal")
        return Poly.const(v)

    def e_CXXBoolLiteralExpr(self, n):
        return P(int(n["value"] in (True, "true")))

    def e_StringLiteral(self, n):
        return n.get("value")

    def e_CXXNullPtrLiteralExpr(self, n):
        return None

    def e_CXXDefaultArgExpr(self, n):
        return None

    def e_CXXScalarValueInitExpr(self, n):
        return T.ZERO

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_UnaryExprOrTypeTraitExpr(self, n):
        raise Unk("sizeof")

    def e_DeclRefExpr(self, n):
        r = n["referencedDecl"]
        k, name = r["kind"], r.get("name", "")
        if k in ("VarDecl", "ParmVarDecl"):
            key = self.key(r["id"])
            if key is not None:
                v = self.vars[key]
                if isinstance(v, LV):
                    return v
                return LV(key=key)
            if name.startswith("k"):
                d = DTYPES.get(name[1:])
                if d:
                    return DT(d)
                return ("const", name)
            raise Unk("variable %s" % name)
        if k == "EnumConstantDecl":
            if name in DTYPES:
                return DT(DTYPES[name])
            return ("const", "k" + name)
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return ("fn", r)
        raise Unk("reference to %s" % k)

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        if op in ("++", "--"):
            lv = self.ev(n["inner"][0])
            v = self.load(lv)
            d = 1 if op == "++" else -1
            w = Ptr(v.arr, v.off + d) if isinstance(v, Ptr) else v + d
            self.store(lv, w)
            return v if n.get("isPostfix") else lv
        if op == "&":
            lv = self.ev(n["inner"][0])
            if isinstance(lv, LV) and lv.arr is not None:
                return Ptr(lv.arr, lv.idx)
            if isinstance(lv, tuple):
                return lv
            raise Unk("address of a variable")
        if op == "*":
            p = self.rv(n["inner"][0])
            if isinstance(p, Ptr):
                return LV(arr=p.arr, idx=p.off)
            raise Unk("dereference")
        v = self.rv(n["inner"][0])
        if op == "!":
            return not_(self.truth(v))
        if op == "-":
            return -v
        if op in ("+", "__extension__"):
            return v
        raise Unk("operator %s" % op)

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        l, r = n["inner"]
        if op == "=":
            v = self.rv(r)
            lv = self.ev(l)
            self.store(lv, v)
            return lv
        if op == ",":
            self.ev(l)
            return self.ev(r)
        if op in ("&&", "||"):
            a = self.truth(self.rv(l))
            ca = a.constval()
            if ca is not None:
                if op == "&&":
                    return self.truth(self.rv(r)) if ca else T.ZERO
                return T.ONE if ca else self.truth(self.rv(r))
            s0 = self.snap()
            b = self.truth(self.rv(r))
            s1 = self.snap()
            self.merge(a, *((s1, s0) if op == "&&" else (s0, s1)))
            return where(a, b, T.ZERO) if op == "&&" else where(a, T.ONE, b)
        a, b = self.rv(l), self.rv(r)
        return self.arith(op, a, b, n)

    def arith(self, op, a, b, n):
        if isinstance(a, (DT,)) or isinstance(b, (DT,)) or (isinstance(a, tuple) and isinstance(b, tuple)):
            if op == "==":
                return P(int(a == b))
            if op == "!=":
                return P(int(a != b))
        if isinstance(a, Ptr) and isinstance(b, Poly):
            if op in ("+", "-"):
                return Ptr(a.arr, a.off + b if op == "+" else a.off - b)
        if isinstance(b, Ptr) and isinstance(a, Poly) and op == "+":
            return Ptr(b.arr, b.off + a)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.arr is b.arr:
            if op == "-":
                return a.off - b.off
            return cmp_(op, a.off, b.off)
        a, b = (P(int(x)) if isinstance(x, bool) else x for x in (a, b))
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            raise Unk("operator %s" % op)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return cmp_(op, a, b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        t = ty(n).replace("const ", "")
        isint = t in ("long", "int", "unsigned long", "unsigned int", "long long", "int64_t", "size_t", "unsigned long long")
        if op == "/":
            return cdiv(a, b) if isint else a * T.inv(b)
        if op == "%":
            return cmod(a, b)
        if op in ("&", "|", "^"):
            if boolish(a) and boolish(b):
                return Poly.atom(("fn", {"&": "logical_and", "|": "logical_or", "^": "logical_xor"}[op], a, b))
            raise Unk("bit operation")
        if op in ("<<", ">>") and b.constval() is not None:
            return a * 2 ** int(b.constval()) if op == "<<" else cdiv(a, P(2 ** int(b.constval())))
        raise Unk("operator %s" % op)

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        l, r = n["inner"]
        b = self.rv(r)
        lv = self.ev(l)
        a = self.load(lv)
        t = dict(n)
        if n.get("computeResultType"):
            t = {"type": n["computeResultType"]}
        self.store(lv, self.arith(op, a, b, t))
        return lv

    def e_ConditionalOperator(self, n):
        c = self.truth(self.rv(n["inner"][0]))
        v = c.constval()
        if v is None and not self.depth:
            v = self.known(c)
        if v is not None:
            return self.ev(n["inner"][1 if v else 2])
        s0 = self.snap()
        a = self.rv(n["inner"][1])
        s1 = self.snap()
        self.restore(s0)
        b = self.rv(n["inner"][2])
        s2 = self.snap()
        self.merge(c, s1, s2)
        r = self.merge_value(c, a, b)
        if isinstance(r, TopV):
            raise Unk("conditional value")
        return r

    def e_ArraySubscriptExpr(self, n):
        p, i = self.rv(n["inner"][0]), self.rv(n["inner"][1])
        if isinstance(i, Ptr):
            p, i = i, p
        if isinstance(p, Vec):
            p = Ptr(p.arr, T.ZERO)
        if isinstance(p, Ptr) and isinstance(i, Poly):
            return LV(arr=p.arr, idx=p.off + i)
        raise Unk("subscript")

    def e_InitListExpr(self, n):
        return [self.rv(x) for x in n.get("inner", [])]

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(n["inner"][0])

    def e_CXXConstructExpr(self, n):
        t = ty(n)
        args = [x for x in n.get("inner", []) if x.get("kind") != "CXXDefaultArgExpr"]
        if t.replace("const ", "").startswith("std::vector<"):
            return self.construct("tmp", t, n)
        if len(args) == 1:
            return self.ev(args[0])
        if not args and "Tensor" in t:
            return TopV("undefined tensor")
        if t.startswith(("std::tuple<", "std::pair<")):
            return tuple(self.rv(a) for a in args)
        raise Unk("construction of %s" % t[:40])

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, n):
        if not n.get("isArray"):
            raise Unk("new")
        size = self.rv(n["inner"][0])
        a = self.newarr("new", size, lambda x: Poly.atom(("T", "uninit%d" % next(_uid), (x,))))
        return Ptr(a, T.ZERO)

    def e_CXXDeleteExpr(self, n):
        return None

    def e_LambdaExpr(self, n):
        m = [x for x in walk(n["inner"][0], "CXXMethodDecl") if x.get("name") == "operator()"]
        if not m:
            raise Unk("lambda")
        params = [c for c in m[0].get("inner", ()) if c.get("kind") == "ParmVarDecl"]
        body = [c for c in n["inner"][1:] if c.get("kind") == "CompoundStmt"]
        body = body or [c for c in m[0].get("inner", ()) if c.get("kind") == "CompoundStmt"]
        return Fun(self.frames[-1]["tu"], body[-1], self.frames[-1], params)

    def e_CXXOperatorCallExpr(self, n):
        op = strip(n["inner"][0]).get("referencedDecl", {}).get("name", "")
        args = n["inner"][1:]
        if op == "operator=":
            v = self.rv(args[1])
            lv = self.ev(args[0])
            if isinstance(v, Vec) and strip(args[1]).get("kind") == "DeclRefExpr":
                raise Unk("vector assignment")
            self.store(lv, v)
            return lv
        if op == "operator[]":
            o = self.rv(args[0])
            i = self.rv(args[1])
            if isinstance(o, Vec):
                return LV(arr=o.arr, idx=i)
            if isinstance(o, Ptr):
                return LV(arr=o.arr, idx=o.off + i)
            if isinstance(o, Acc):
                return self.acc(o, i)
            if isinstance(o, list) and isinstance(i, Poly) and i.intval() is not None:
                return o[i.intval()]
            raise Unk("operator[]")
        if op == "operator()":
            f = self.rv(args[0])
            if isinstance(f, Fun):
                return self.invoke(f.tu, f.node, f.params, [self.ev(a) for a in args[1:]], f.frame)
            raise Unk("call of an object")
        if op in ("operator+", "operator-", "operator==", "operator!=", "operator<", "operator>", "operator+=", "operator-=", "operator++", "operator--", "operator*"):
            if op in ("operator++", "operator--"):
                lv = self.ev(args[0])
                v = self.load(lv)
                if not isinstance(v, (Ptr, Poly)):
                    raise Unk(op)
                d = 1 if op.endswith("++") else -1
                self.store(lv, Ptr(v.arr, v.off + d) if isinstance(v, Ptr) else v + d)
                return v if len(args) > 1 else lv
            if op == "operator*" and len(args) == 1:
                p = self.rv(args[0])
                if isinstance(p, Ptr):
                    return LV(arr=p.arr, idx=p.off)
                raise Unk(op)
            a, b = self.ev(args[0]), self.rv(args[1])
            if op in ("operator+=", "operator-="):
                v = self.arith(op[8], self.load(a), b, n)
                self.store(a, v)
                return a
            return self.arith(op[8:], self.load(a) if isinstance(a, LV) else a, b, n)
        raise Unk(op)

    def acc(self, o, i):
        idx = o.idx + [i]
        if len(idx) == len(o.ct.shape):
            off = T.ZERO
            for x, s in zip(idx, o.ct.strides()):
                off = off + x * s
            return LV(arr=o.ct.arr, idx=off)
        return Acc(o.ct, idx)

    def e_CallExpr(self, n):
        f = strip(n["inner"][0])
        args = n["inner"][1:]
        if f.get("kind") == "MemberExpr":
            return self.method(n, f, args)
        if f.get("kind") != "DeclRefExpr":
            raise Unk("indirect call")
        r = f["referencedDecl"]
        name = r.get("name", "")
        if r["kind"] == "FunctionDecl":
            hit = self.prog.find(self.frames[-1]["tu"], r) if not name.startswith("__builtin") and name not in STD else None
            if hit is not None:
                return self.call(hit[0], hit[1], [self.ev(a) for a in args if a.get("kind") != "CXXDefaultArgExpr"])
        h = getattr(self, "f_" + name, None)
        if h is None:
            if r["kind"] == "CXXMethodDecl" and name in ("max", "lowest", "min", "infinity", "epsilon"):
                return self.limit(name, ty(n))
            raise Unk("function %s" % name)
        return h(n, args)

    def limit(self, name, t):
        t = t.replace("const ", "")
        if t in ("float", "double"):
            if name in ("max", "infinity"):
                return Poly.atom(("sym", "inf"))
            if name == "lowest":
                return -Poly.atom(("sym", "inf"))
        if t in ("long", "int") and name in ("max", "min", "lowest"):
            return P(10 ** 9 if name == "max" else -10 ** 9)
        raise Unk("numeric_limits::%s" % name)

    def f___builtin_expect(self, n, args):
        return self.rv(args[0])

    def f_max(self, n, args):
        if not args:
            return self.limit("max", ty(n))
        a, b = self.num(args[0]), self.num(args[1])
        d = a - b
        if d.constval() is not None:
            return a if d.constval() >= 0 else b
        return Poly.atom(("fn", "maximum", a, b))

    def f_min(self, n, args):
        if not args:
            return self.limit("min", ty(n))
        a, b = self.num(args[0]), self.num(args[1])
        d = a - b
        if d.constval() is not None:
            return a if d.constval() <= 0 else b
        if ty(n).replace("const ", "") in ("long", "int"):
            return T.pmin(a, b)
        return Poly.atom(("fn", "minimum", a, b))

    def unary(name):
        def f(self, n, args):
            return Poly.atom(("fn", name, self.num(args[0])))
        return f

    f_exp = f_expf = unary("exp")
    f_log = f_logf = unary("log")
    f_sqrt = f_sqrtf = unary("sqrt")
    f_abs = f_fabs = f_fabsf = f_labs = unary("abs")
    f_sin, f_cos, f_tanh, f_floor, f_ceil = unary("sin"), unary("cos"), unary("tanh"), unary("floor"), unary("ceil")
    del unary

    def f_move(self, n, args):
        return self.ev(args[0])

    f_forward = f_scalar_type = f_move

    def f_make_tuple(self, n, args):
        return tuple(self.rv(a) for a in args)

    f_make_pair = f_tuple = f_make_tuple

    def f_fprintf(self, n, args):
        return None

    f_printf = f_fprintf

    def f_fill(self, n, args):
        p, q, v = (self.rv(a) for a in args)
        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.arr is q.arr):
            raise Unk("fill")
        self.block(p, q.off - p.off, lambda j: v)
        return None

    def f_fill_n(self, n, args):
        p, c, v = (self.rv(a) for a in args)
        if not isinstance(p, Ptr):
            raise Unk("fill_n")
        self.block(p, c, lambda j: v)
        return Ptr(p.arr, p.off + c)

    def f_copy(self, n, args):
        p, q, d = (self.rv(a) for a in args)
        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.arr is q.arr and isinstance(d, Ptr)):
            raise Unk("copy")
        return self.copied(p, q.off - p.off, d)

    def f_copy_n(self, n, args):
        p, c, d = (self.rv(a) for a in args)
        if not (isinstance(p, Ptr) and isinstance(d, Ptr)):
            raise Unk("copy_n")
        return self.copied(p, c, d)

    def f_memcpy(self, n, args):
        raise Unk("memcpy")

    def f_accumulate(self, n, args):
        p, q, v = (self.rv(a) for a in args[:3])
        if len(args) != 3 or not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.arr is q.arr):
            raise Unk("accumulate")
        j = T.new_axis(q.off - p.off)
        return v + T.sum_over(self.read(p.arr, p.off + Poly.atom(j)), [j], exact=False)

    def copied(self, p, c, d):
        e, ax = p.arr.expr, p.arr.ax
        self.block(d, c, lambda j: T.subst(e, {ax: p.off + j}))
        self.range(p.arr, p.off, c)
        return Ptr(d.arr, d.off + c)

    def block(self, p, count, f):
        """elements p[0..count) become f(j)"""
        a = p.arr
        x = Poly.atom(a.ax)
        j = x - p.off
        whole = p.off == T.ZERO and a.size is not None and count == a.size
        a.expr = f(j) if whole else where(T.ind(j, T.ZERO, count), f(j), a.expr)
        self.effects.append(("a", a))
        w = self.shadow(a)
        if w is not None:
            w.expr = T.ONE if whole else where(T.ind(Poly.atom(w.ax) - p.off, T.ZERO, count), T.ONE, w.expr)
            self.effects.append(("a", w))
        if not whole:
            self.range(a, p.off, count)

    def range(self, a, off, count):
        """elements off..off+count are accessed"""
        if self.track == "oob" and a.size is not None:
            c = T.ind(off, T.ZERO, a.size) * T.ind(off + count - 1, T.ZERO, a.size)
            if c != T.ONE:
                self.outside(a, cmp_(">", count, T.ZERO) * (T.ONE - c))

    # tensors
    def shape(self, v):
        if isinstance(v, (list, tuple)) and all(isinstance(x, Poly) for x in v):
            return list(v)
        raise Unk("tensor shape")

    def alloc(self, n, args, f, like=False):
        vals = [self.rv(a) for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        dt = DT(None)
        if like:
            t = vals[0]
            if not isinstance(t, CT):
                raise Unk("like")
            sh, dt = t.shape, t.dtype
        else:
            sh = self.shape(vals[0])
        for v in vals[1:]:
            if isinstance(v, Opt):
                dt = v.dtype
            elif isinstance(v, DT):
                dt = v
        a = self.newarr("tensor", numel(sh), f)
        return CT(a, sh, dt)

    def f_zeros(self, n, args):
        return self.alloc(n, args, lambda x: T.ZERO)

    def f_ones(self, n, args):
        return self.alloc(n, args, lambda x: T.ONE)

    def f_empty(self, n, args):
        u = "uninit%d" % next(_uid)
        return self.alloc(n, args, lambda x: Poly.atom(("T", u, (x,))))

    def f_zeros_like(self, n, args):
        return self.alloc(n, args, lambda x: T.ZERO, True)

    def f_empty_like(self, n, args):
        u = "uninit%d" % next(_uid)
        return self.alloc(n, args, lambda x: Poly.atom(("T", u, (x,))), True)

    def f_full(self, n, args):
        v = self.rv(args[1])
        if not isinstance(v, Poly):
            raise Unk("full")
        return self.alloc(n, [args[0]] + args[2:], lambda x: v)

    def f_dtype(self, n, args):
        return Opt(self.rv(args[0]))

    # ---------------------------------------------------------------- methods
    def e_CXXMemberCallExpr(self, n):
        return self.method(n, strip(n["inner"][0]), n["inner"][1:])

    def method(self, n, m, args):
        if m.get("kind") != "MemberExpr":
            raise Unk("member call")
        name = m.get("name", "")
        o = self.rv(m["inner"][0])
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        if isinstance(o, Vec):
            return self.vec_method(o, name, args, n)
        if isinstance(o, CT):
            return self.ten_method(o, name, args, n)
        if isinstance(o, Acc):
            if name == "data":
                return Ptr(o.ct.arr, T.ZERO if not o.idx else self.acc_off(o))
            i = self.rv(args[0]) if args else None
            if name in ("size", "stride") and isinstance(i, Poly) and i.intval() is not None:
                i = i.intval() + len(o.idx)
                return (o.ct.shape if name == "size" else o.ct.strides())[i]
            raise Unk("accessor.%s" % name)
        if isinstance(o, Opt):
            if name == "dtype":
                return Opt(self.rv(args[0])) if args else o.dtype
            if name in ("device", "layout", "requires_grad", "memory_format"):
                return o
            raise Unk("options.%s" % name)
        if isinstance(o, tuple) and o and o[0] == "device" and name == "type":
            return ("const", "kCPU")
        if isinstance(o, DT) and name in ("toScalarType", "name"):
            return o
        if isinstance(o, list):
            if name == "size":
                return P(len(o))
        raise Unk("%s.%s" % (type(o).__name__, name))

    def acc_off(self, o):
        off = T.ZERO
        for x, s in zip(o.idx, o.ct.strides()):
            off = off + x * s
        return off

    def vec_method(self, o, name, args, n):
        a = o.arr
        if name in ("data", "begin", "cbegin"):
            return Ptr(a, T.ZERO)
        if name in ("end", "cend"):
            return Ptr(a, a.size)
        if name == "size":
            return a.size
        if name == "empty":
            return cmp_("==", a.size, T.ZERO)
        if name == "fill":
            v = self.rv(args[0])
            self.block(Ptr(a, T.ZERO), a.size, lambda j: v)
            return None
        if name == "at":
            return LV(arr=a, idx=self.rv(args[0]))
        if name in ("front", "back"):
            return LV(arr=a, idx=T.ZERO if name == "front" else a.size - 1)
        if name == "assign" and len(args) == 2:
            c, v = self.rv(args[0]), self.rv(args[1])
            if isinstance(c, Poly) and isinstance(v, Poly) and c == a.size:
                self.block(Ptr(a, T.ZERO), a.size, lambda j: v)
                return None
        if name in ("assign", "resize", "clear") and n is not None:
            vals = [self.rv(x) for x in args]
            d = strip(strip(n["inner"][0])["inner"][0])
            if all(isinstance(v, Poly) for v in vals) and d.get("kind") == "DeclRefExpr" and a not in self.statics:
                key = self.key(d["referencedDecl"]["id"])
                if key is not None and self.vars.get(key) is o:
                    c = vals[0] if vals else T.ZERO
                    v = vals[1] if len(vals) > 1 else T.ZERO
                    e, ax, sz = a.expr, a.ax, a.size
                    f = (lambda x: v) if name != "resize" else lambda x: where(T.ind(x, T.ZERO, sz), T.subst(e, {ax: x}), v) if sz is not None and sz.t else v
                    self.setvar(key, Vec(self.newarr(a.name, c, f, a.dtype)))
                    return None
        if name in ("reserve", "shrink_to_fit"):
            return None
        raise Unk("vector.%s" % name)

    def ten_method(self, o, name, args, n):
        if name in ("size", "stride"):
            i = self.rv(args[0])
            if not isinstance(i, Poly) or i.intval() is None:
                raise Unk("tensor.size")
            if name == "stride" and o.view is not None:
                raise Unk("stride of a view")
            return (o.shape if name == "size" else o.strides())[i.intval()]
        if name == "sizes":
            return list(o.shape)
        if name in ("dim", "ndimension"):
            return P(len(o.shape))
        if name == "numel":
            return numel(o.shape)
        if name in ("scalar_type", "dtype"):
            return o.dtype
        if name == "options":
            return Opt(o.dtype)
        if name == "device":
            return ("device",)
        if name == "defined":
            return T.ONE
        if name in ("is_cuda", "is_sparse"):
            return T.ZERO
        if name == "is_cpu":
            return T.ONE
        if name == "is_contiguous":
            return P(int(o.view is None))
        if name in ("to", "toType"):
            v = self.rv(args[0])
            if isinstance(v, Opt):
                v = v.dtype
            if isinstance(v, DT) and v.name and v != o.dtype:
                return self.fresh(o, v)
            return o
        if name in ("contiguous", "detach", "cpu"):
            return o if o.view is None else self.fresh(o, o.dtype)
        if name == "clone":
            return self.fresh(o, o.dtype)
        if name == "permute":
            pm = [x.intval() for x in self.shape(self.rv(args[0]))]
            pm = [x % len(o.shape) for x in pm]
            if sorted(pm) != list(range(len(o.shape))):
                raise Rejected(self.at)
            return CT(o.arr, [o.shape[p] for p in pm], o.dtype, view=(o, pm))
        if name == "transpose":
            i, j = (self.rv(a).intval() % len(o.shape) for a in args)
            pm = list(range(len(o.shape)))
            pm[i], pm[j] = pm[j], pm[i]
            return CT(o.arr, [o.shape[p] for p in pm], o.dtype, view=(o, pm))
        if name in ("reshape", "view"):
            sh = self.shape(self.rv(args[0]))
            src = o if o.view is None else self.fresh(o, o.dtype)
            neg = [k for k, x in enumerate(sh) if x.constval() == -1]
            if neg:
                rest = numel([x for k, x in enumerate(sh) if k not in neg])
                sh[neg[0]] = T.fdiv(numel(o.shape), rest)
            if numel(sh) != numel(o.shape):
                self.notes.append(("reshape", self.at, numel(sh) - numel(o.shape)))
            return CT(src.arr, sh, o.dtype)
        if name in ("unsqueeze", "squeeze"):
            if o.view is not None:
                raise Unk(name)
            i = self.rv(args[0]).intval()
            sh = list(o.shape)
            if name == "unsqueeze":
                sh.insert(i if i >= 0 else len(sh) + 1 + i, T.ONE)
            elif sh[i] == T.ONE:
                del sh[i]
            else:
                raise Unk(name)
            return CT(o.arr, sh, o.dtype)
        if name == "copy_":
            s = self.rv(args[0])
            if not isinstance(s, CT) or o.view is not None or len(s.shape) != len(o.shape):
                raise Unk("copy_")
            for x, y in zip(s.shape, o.shape):
                if x != y and x != T.ONE:
                    self.notes.append(("reshape", self.at, x - y))
            f = flat(s)
            a = o.arr
            a.expr = f(Poly.atom(a.ax))
            self.effects.append(("a", a))
            return o
        if name in ("zero_", "fill_"):
            v = self.rv(args[0]) if args else T.ZERO
            if o.view is not None:
                raise Unk(name)
            self.block(Ptr(o.arr, T.ZERO), numel(o.shape), lambda j: v)
            return o
        if name in ("data_ptr", "const_data_ptr", "mutable_data_ptr"):
            if o.view is not None:
                raise Unk("data_ptr of a view")
            self.typed(o, ty(n))
            return Ptr(o.arr, T.ZERO)
        if name in ("packed_accessor64", "packed_accessor32", "accessor", "packed_accessor"):
            if o.view is not None:
                raise Unk("accessor of a view")
            self.typed(o, ty(n))
            m = re.search(r"Accessor\w*<[\w:]+, (\d+)", ty(n))
            if m and int(m.group(1)) != len(o.shape):
                self.notes.append(("rank", self.at))
                raise Rejected(self.at)
            return Acc(o)
        if name == "item":
            return o.at([T.ZERO] * len(o.shape))
        raise Unk("tensor.%s" % name)

    def typed(self, o, t):
        m = re.search(r"<\s*(?:const )?([\w:]+)", t) or re.match(r"(?:const )?([\w:]+) \*", t)
        d = CTYPES.get(m.group(1)) if m else None
        if d and o.dtype.name and d != o.dtype.name:
            self.notes.append(("dtype", self.at, o.dtype.name, d))
            raise Rejected(self.at)

    def fresh(self, o, dt):
        f = flat(o)
        return CT(self.newarr("tensor", numel(o.shape), f), list(o.shape), dt)


STD = {"max", "min", "exp", "expf", "log", "sqrt", "abs", "fabs", "fill", "copy", "fill_n", "copy_n", "move", "forward", "make_tuple", "zeros", "empty", "ones", "full", "zeros_like", "empty_like", "accumulate", "scalar_type", "memcpy"}


def flat(o):
    """element of o by flat (row-major) index"""
    if o.view is None:
        e, ax = o.arr.expr, o.arr.ax
        return lambda x: T.subst(e, {ax: x})
    st = CT(None, o.shape, o.dtype).strides()
    sh = o.shape
    base, perm = o.view
    exprs = flat(base)
    bst = CT(None, base.shape, base.dtype).strides()

    def f(x):
        idx = unravel(x, sh, st)
        off = T.ZERO
        for k, p in enumerate(perm):
            off = off + idx[k] * bst[p]
        return exprs(off)
    return f


def unravel(x, sh, st):
    out = []
    for k, (n, s) in enumerate(zip(sh, st)):
        q = T.fdiv(x, s)
        out.append(q if k == 0 else T.mod(q, n))
    return out


_src = {}


def source(f):
    if f not in _src:
        with open(f, errors="replace") as h:
            _src[f] = h.read().split("\n")
    return _src[f]


def boolish(v):
    if v.constval() in (0, 1):
        return True
    if len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1:
            a = m[0][0]
            return a[0] in ("delta", "ind") or (a[0] == "fn" and (str(a[1]).startswith(("cmp_", "logical")) or (a[1] == "where" and boolish(a[3]) and boolish(a[4]))))
    return False


def prevs(p, tok, _memo=None):
    """state components of loop tok that p reads"""
    out, seen = set(), set()

    def go(x):
        if isinstance(x, (Poly, tuple)):
            if id(x) in seen:
                return
            seen.add(id(x))
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    go(a)
        elif isinstance(x, tuple):
            if len(x) == 3 and x[0] == "prev" and x[1] == tok:
                out.add(x[2])
                return
            for y in x:
                if isinstance(y, (tuple, Poly)):
                    go(y)
    go(p)
    return out


def replace_atom(p, atom, q):
    return T.replace(p, {atom: q})


def explore(prog, op, args, limit=64, sites=(), **kw):
    """every path of an operator's implementation: [(CX, result | Rejected)]"""
    todo, out = [[]], []
    while todo:
        ch = todo.pop()
        c = CX(prog, choices=ch, **kw)
        c.vars["oob"] = c.vars["race"] = T.ZERO
        for k in sites:
            c.vars[k] = T.ZERO
        tu, fn = prog.function(op[1:]) if op.startswith("=") else prog.op(op)
        try:
            r = c.call(tu, fn, args(c))
        except Rejected as e:
            r = e
        out.append((c, r))
        for k in range(len(ch), len(c.taken)):
            todo.append(c.taken[:k] + [not c.taken[k]])
        if len(out) > limit:
            raise Unk("too many paths")
    return out
