"""Ranks of one group issue the same sequence of collectives (shared rule)."""
import random
from checks.dist import *  # noqa
from sa.randint import Eval, Unknown, Undef, holds, sample


def varying(c, groups):
    """an opaque condition on data that may differ between the ranks of a group"""
    at = set()

    def walk(x):
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    walk(a)
        elif isinstance(x, Cond):
            for y in x.args:
                walk(y)
        elif isinstance(x, tuple):
            if x and x[0] == "rank":
                at.add(x[1])
            for y in x:
                if isinstance(y, (tuple, Poly, Cond)):
                    walk(y)
    walk(c)
    return at


def data_cond(c):
    return c.kind == "opq" and isinstance(c.args[0], tuple) and c.args[0] and c.args[0][0] == "truth"


class RankPath:
    def __init__(self, p):
        self.p = p
        self.conds = path_conds(p.it)
        self.seq = []          # (op, group, payload, loc)
        for tr in p.it.trace:
            op, g, shapes, loc = tr[0], tr[1], tr[2], tr[3]
            self.seq.append((op, g, shapes, loc))

    def coll(self, g=None):
        return [(op, gr) for op, gr, _, _ in self.seq if not op.startswith("p2p:") and (g is None or gr == g)]


def feasible(rp, env, opq):
    """does the rank with this environment take the path? opq: assumed outcomes of opaque uniform conditions"""
    ev = Eval(env, 0)
    for c, v in rp.conds:
        if data_cond(c) and varying(c, None):
            continue                        # rank-local data: either outcome is possible on every rank
        try:
            if data_cond(c):
                raise Unknown("replicated data: either outcome, the same on every rank")
            if not holds(c, v, ev):
                return False
        except (Unknown, Undef):
            k = c.key
            if k in opq:
                if opq[k] != v:
                    return False
            continue
    return True


def opaque_assignments(rps):
    keys = {}
    for rp in rps:
        ev = Eval({}, 0)
        for c, v in rp.conds:
            if c.kind == "opq" and not (data_cond(c) and varying(c, None)):
                keys[c.key] = 1
    return list(keys)[:6]


def check(out, subj, paths, grid, where, trials=40, rule="uniform-collectives"):
    rps = []
    for p in paths:
        if isinstance(p.exc, GiveUp):
            out.und("analysis", subj, "gave up: %s at %s" % (p.exc, getattr(p.exc, "stackloc", "")))
            continue
        rps.append(RankPath(p))
    if not rps:
        return
    if paths[0].truncated:
        out.und("paths", subj, "path limit")
    keys = opaque_assignments(rps)
    many = [g for g, k in (("polar", grid.polar), ("azimuth", grid.azimuth)) if k == "many"]
    rng = random.Random(11)
    tested, seen = 0, set()
    ok_groups = {}
    for t in range(trials):
        base = rps[t % len(rps)]
        opq = {k: rng.random() < 0.5 for k in keys}
        for c, v in base.conds:
            if c.key in opq:
                opq[c.key] = v
        polys = [Poly.atom(("size", g)) for g in many] + [Poly.atom(("rank", g)) for g in many]
        allc = [c for rp in rps for c, _ in rp.conds]
        env = sample(polys + [a for c in allc for a in c.args if isinstance(a, Poly)], [(c, v) for c, v in base.conds if not data_cond(c)], rng, tries=300)
        if env is None:
            continue
        ranks = [()]
        for g in many:
            ranks = [r + (i,) for r in ranks for i in range(env[("size", g)])]
        took = {}
        for r in ranks:
            e2 = dict(env)
            for g, i in zip(many, r):
                e2[("rank", g)] = i
            took[r] = ([rp for rp in rps if feasible(rp, e2, opq)], e2)
        if any(not v[0] for v in took.values()):
            continue
        tested += 1
        done = False
        ref = ranks[0]
        for r in ranks:
            for rp in took[r][0]:
                for rq in took[ref][0]:
                    a, b = rp.coll(), rq.coll()
                    # ranks that share no group may differ; compare per shared group, full order for ranks of one group
                    shared = [g for k, g in enumerate(many) if all(r[j] == ref[j] for j in range(len(many)) if j != k)]
                    if r == ref:
                        shared = many
                    if a != b and not (r != ref and not shared):
                        if r == ref and not any(data_cond(c) and varying(c, None) for c, _ in rp.conds + rq.conds):
                            continue        # two paths of one rank that the sampled sizes do not tell apart
                        for g in shared or many:
                            if rp.coll(g) != rq.coll(g) or a != b:
                                key = (tuple(a), tuple(b))
                                if key in seen:
                                    continue
                                seen.add(key)
                                out.bad(rule, where, "; ".join(sorted({s[3] for s in rp.seq + rq.seq}))[:400],
                                        "%s: rank %s issues %s while rank %s of the same process grid issues %s (sizes %s; paths: [%s] / [%s])" % (
                                            subj, dict(zip(many, r)), show(a), dict(zip(many, ref)), show(b), show_env({k: v for k, v in env.items() if k[0] != "rank"}), describe(rp.p)[:300], describe(rq.p)[:300]))
                                done = True
                                break
                    elif a == b:
                        for g in shared:
                            ok_groups[g] = ok_groups.get(g, 0) + 1
            if done:
                break
        # raise on some ranks only
        exc = {r: all(isinstance(rp.p.exc, RaiseEx) for rp in v[0]) for r, v in took.items()}
        if any(exc.values()) and not all(exc.values()) and ("exc",) not in seen:
            bad = next(r for r in ranks if exc[r])
            good = next(r for r in ranks if not exc[r])
            if any(took[good][0][0].coll()):
                seen.add(("exc",))
                out.bad("uniform-rejection", where, subj, "rank %s raises while rank %s goes on to a collective (sizes %s; path: %s)" % (dict(zip(many, bad)), dict(zip(many, good)), show_env(env), describe(took[bad][0][0].p)[:300]))
        if not done:
            p2p(out, subj, took, many, seen, where)
    if tested and not seen:
        out.ok(rule, subj, "%d sampled grids, %d paths" % (tested, len(rps)))
    elif not tested:
        out.und(rule, subj, "no grid sampled")
    out.note("collective_call_sites", sorted({"%s(%s) %s" % (s[0], s[1], s[3]) for rp in rps for s in rp.seq}))
    fns = set()
    for p in paths:
        fns |= p.it.visited
    out.note("functions_analysed", sorted(fns))


def show(a):
    return "[%s]" % ", ".join("%s(%s)" % x for x in a)


def p2p(out, subj, took, many, seen, where):
    """every point-to-point send has its receive on the peer, with the same shape"""
    msgs = {}
    for r, (rps, env) in took.items():
        if len(rps) != 1:
            return
        ev = Eval(env, 0)
        n = {}
        for op, g, ops, loc in rps[0].seq:
            if not op.startswith("p2p:"):
                continue
            o = ops[0]
            peer, t = o.attrs.get("peer"), o.attrs.get("tensor")
            if not isinstance(peer, GRank) or not isinstance(peer.idx, Poly) or g not in many:
                return
            try:
                pi = ev.int(peer.idx, {})
                shp = tuple(ev.int(T.axsize(a), {}) for a in t.axes)
            except (Unknown, Undef, AttributeError):
                return
            k = many.index(g)
            if not 0 <= pi < env[("size", g)]:
                if ("range", loc) not in seen:
                    seen.add(("range", loc))
                    out.bad("p2p-peer", where, loc, "%s: rank %s addresses member %d of group %s of size %d" % (subj, dict(zip(many, r)), pi, g, env[("size", g)]))
                return
            other = r[:k] + (pi,) + r[k + 1:]
            key = (g, r, other) if op == "p2p:isend" else (g, other, r)
            msgs.setdefault(key, {"p2p:isend": [], "p2p:irecv": []}).setdefault(op, []).append((shp, loc))
    for (g, a, b), d in msgs.items():
        s, v = d["p2p:isend"], d["p2p:irecv"]
        if [x[0] for x in s] != [x[0] for x in v]:
            key = ("p2p", tuple(x[1] for x in s + v))
            if key in seen:
                continue
            seen.add(key)
            out.bad("p2p-matched", where, "; ".join(sorted({x[1] for x in s + v})), "%s: rank %s sends shapes %s to rank %s, which receives %s" % (
                subj, dict(zip(many, a)), [x[0] for x in s], dict(zip(many, b)), [x[0] for x in v]))
