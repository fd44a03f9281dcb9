"""Comparison of abstract results."""
from . import terms as T
from .terms import Poly, P
from .values import *  # noqa
import random
from .randint import distinguish, Unknown, sample, Eval, Undef, cond_value, holds, base_atoms


LAST = [None]


def path_conds(*its):
    out, seen = [], set()
    for it in its:
        for k, c, v, loc in it.taken:
            if (k, v) not in seen:
                seen.add((k, v))
                out.append((c, v))
        for g in it.guards:
            c = g[0] if isinstance(g, tuple) else g
            if isinstance(c, Cond):
                kk = (c.key, True)
                if kk not in seen:
                    seen.add(kk)
                    out.append((c, True))
        for a, p in it.eqs.items():
            c = Cond("eq", Poly.atom(a) - p)
            kk = (c.key, True)
            if kk not in seen:
                seen.add(kk)
                out.append((c, True))
    return out


def simp(p, its):
    eqs = {}
    for it in its:
        eqs.update(it.eqs)
    for _ in range(3):
        q = T.replace(p, eqs)
        if q == p:
            break
        p = q
    return p


def sizes_equal(a, b, its):
    """True / False (refuted) / None (unknown)"""
    a, b = simp(a, its), simp(b, its)
    if a == b:
        return True
    conds = path_conds(*its)
    try:
        d = distinguish(a, b, [], conds)
    except Unknown:
        return None
    return True if d is None else d


def values_equal(p, q, axes, its):
    """True / Differ / None"""
    p2, q2 = simp(p, its), simp(q, its)
    if p2 == q2:
        return True
    conds = path_conds(*its)
    try:
        d = distinguish(p2, q2, axes, conds)
    except Unknown as e:
        LAST[0] = str(e)
        return None
    return True if d is None else d


def as_split(s):
    if len(s.t) == 1:
        (m, c), = s.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "split":
            return m[0][0]
    return None


def shard_index(it, size, full, its):
    """index expression (as function of a local axis) of a shard of `full`; None if `size` is not a shard of full"""
    if sizes_equal(size, full, its) is True:
        return lambda a: Poly.atom(a)
    return None


def precondition(c, names):
    """size(group) <= S with S built from the named symbols only: every rank owns at least one element of S"""
    if c.kind != "not" or c.args[0].kind != "gt":
        return False
    p = c.args[0].args[0]
    at = set()
    base_atoms(p, at)
    sizes = [a for a in at if a[0] == "size"]
    if len(sizes) != 1 or any(a[0] == "rank" for a in at):
        return False
    if (p - Poly.atom(sizes[0])).t.get(((sizes[0], 1),)) is not None:
        return False
    return all(a[1] in names for a in at if a[0] == "sym")


def rejecting_guards(it, names, others=()):
    """guards of the path that can fail although every sharded dimension has an element per rank: [(guard, location, interpretation)], undecided"""
    bad, und = [], []
    gs = [g for g in it.guards if isinstance(g[0], Cond)]
    pre = [(c, True) for c, _, _ in gs if precondition(c, names)]
    conds = []
    seen = set()
    for k, c, v, loc in it.taken:
        conds.append((c, v))
    for o in others:
        conds += path_conds(o)
    for c, how, loc in gs:
        if precondition(c, names) or c.key in seen:
            continue
        seen.add(c.key)
        rng = random.Random(7)
        try:
            env = sample([], conds + pre + [(c, False)], rng, tries=600, strict=True)
        except Unknown as e:
            und.append((c, loc, str(e)))
            continue
        if env is not None:
            bad.append((c, loc, env))
    return bad, und


def show_env(env):
    return ", ".join("%s=%s" % (k[1] if k[0] == "sym" else "%s(%s)" % (k[0], k[1]), v) for k, v in sorted(env.items(), key=repr))
