"""Symbolic derivative of a value number with respect to the elements of one input tensor."""
from . import terms as T
from .terms import Poly


class NotDifferentiable(Exception):
    pass


def mentions(x, name, memo=None):
    memo = {} if memo is None else memo
    if isinstance(x, Poly):
        k = id(x)
        if k not in memo:
            memo[k] = any(mentions(a, name, memo) for m in x.t for a, _ in m)
        return memo[k]
    if isinstance(x, tuple):
        if len(x) >= 2 and x[0] == "T" and x[1] == name:
            return True
        return any(mentions(y, name, memo) for y in x if isinstance(y, (tuple, Poly)))
    return False


def diff(p, name, js):
    """d p / d name[js]"""
    out = T.ZERO
    for m, c in p.t.items():
        for k, (a, e) in enumerate(m):
            if not mentions(a, name):
                continue
            d = datom(a, name, js)
            if not d.t:
                continue
            rest = Poly.const(c * e)
            for q, (b, f) in enumerate(m):
                f = f - 1 if q == k else f
                for _ in range(f):
                    rest = rest * Poly.atom(b)
            out = out + rest * d
    return out


def datom(a, name, js):
    k = a[0]
    if k == "T":
        if a[1] != name:
            raise NotDifferentiable("index of %s depends on %s" % (a[1], name))
        idx = a[2]
        if len(idx) != len(js) or any(mentions(i, name) for i in idx):
            raise NotDifferentiable("index")
        r = T.ONE
        for i, j in zip(idx, js):
            r = r * T.delta(i - j)
        return r
    if k == "sum":
        bounds, fac = T.open_sum(a)
        body = T.ONE
        for f, e in fac:
            for _ in range(e):
                body = body * Poly.atom(f)
        return T.sum_over(diff(body, name, js), [v for v, _ in bounds], exact=True)
    if k == "inv":
        return -(Poly.atom(a) * Poly.atom(a)) * diff(a[1], name, js)
    if k == "fn" and a[1] == "exp":
        return Poly.atom(a) * diff(a[2], name, js)
    if k == "fn" and a[1] == "log":
        return T.inv(a[2]) * diff(a[2], name, js)
    if k == "fn" and a[1] == "sqrt":
        return T.inv(Poly.atom(a)) * T.inv(T.P(2)) * diff(a[2], name, js)
    if k == "fn" and a[1] == "tanh":
        return (T.ONE - Poly.atom(a) * Poly.atom(a)) * diff(a[2], name, js)
    raise NotDifferentiable(str(a[:2])[:60])


def vjp(out_expr, out_axes, grad_expr, name, shape):
    """gradient tensor: (axes, expression) of sum_out grad[out] * d out / d name[j]"""
    js = [T.new_axis(s) for s in shape]
    e = diff(out_expr, name, [Poly.atom(j) for j in js]) * grad_expr
    return js, T.sum_over(e, list(out_axes), exact=True)
