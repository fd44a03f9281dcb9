"""P03: communication primitives implement their documented forward map and its adjoint as backward."""
from checks.dist import *  # noqa
from sa.randint import distinguish, Unknown

META = {
    "level": "other",
    "explanation": "Each public communication primitive is abstractly interpreted on a symbolic process group: its forward result and, through the autograd "
                   "function it applies, its backward result are value numbers over per-rank symbolic inputs; both must equal the primitive's defining map "
                   "(replicated/partial/sharded layouts) for every rank, size and dimension analysed. Point-to-point receives are matched with the sends of the peer's path.",
    "assumptions": ["torch.distributed collectives behave as their transfer functions", "exact arithmetic", "halo width between 1 and the smallest local row count"],
}

N = [SZ("n0", 4), SZ("n1", 4), SZ("n2", 4), SZ("n3", 4)]
PKG = "torch_harmonics.distributed."


def rank_of(g):
    return Poly.atom(("rank", g))


def size_of(g):
    return Poly.atom(("size", g))


def ten(name, sizes, idx):
    """tensor with the given local sizes whose element is name[idx(axes)]"""
    ax = [T.new_axis(s) for s in sizes]
    return Ten(ax, Poly.atom(("T", name, tuple(idx(ax)))), F32, frozenset([("input", name)]))


def replicated(name, sizes):
    return ten(name, sizes, lambda ax: [Poly.atom(a) for a in ax])


def partial(name, sizes, g):
    return ten(name, sizes, lambda ax: [rank_of(g)] + [Poly.atom(a) for a in ax])


def shard(name, sizes, dim, g):
    S = sizes[dim]
    loc = list(sizes)
    loc[dim] = T.split(S, size_of(g), rank_of(g))
    return ten(name, loc, lambda ax: [Poly.atom(a) + (T.off(S, size_of(g), rank_of(g)) if k == dim % len(sizes) else T.ZERO) for k, a in enumerate(ax)])


def total(name, sizes, g):
    """sum over the group of a partial tensor"""
    r = T.new_axis(size_of(g))
    ax = [T.new_axis(s) for s in sizes]
    return Ten(ax, T.sum_over(Poly.atom(("T", name, tuple([Poly.atom(r)] + [Poly.atom(a) for a in ax]))), [r]), F32)


def total_shard(name, sizes, dim, g):
    S = sizes[dim]
    r = T.new_axis(size_of(g))
    loc = list(sizes)
    loc[dim] = T.split(S, size_of(g), rank_of(g))
    ax = [T.new_axis(s) for s in loc]
    idx = [Poly.atom(a) + (T.off(S, size_of(g), rank_of(g)) if k == dim % len(sizes) else T.ZERO) for k, a in enumerate(ax)]
    return Ten(ax, T.sum_over(Poly.atom(("T", name, tuple([Poly.atom(r)] + idx))), [r]), F32)


def split_list(S, g):
    i = new_fi(size_of(g))
    l = L([])
    l.fam = Fam(size_of(g), i, T.split(S, size_of(g), Poly.atom(i)))
    return l


def specs():
    """(public name, group, label, arguments, expected forward, gradient argument, expected gradient)"""
    out = []
    for g in ("polar", "azimuth"):
        for d0, d1 in [(1, -1), (1, -2), (0, 2), (-1, 1), (2, 3)]:
            k0, k1 = d0 % 4, d1 % 4

            def args(g=g, k0=k0, k1=k1, d0=d0, d1=d1):
                return [shard("x", N, k1, g), (P(d0), P(d1)), split_list(N[k1], g)]
            out.append(("distributed_transpose_" + g, g, "dims=(%d,%d)" % (d0, d1), args, lambda g=g, k0=k0: shard("x", N, k0, g),
                        lambda g=g, k0=k0: shard("go", N, k0, g), lambda g=g, k1=k1: shard("go", N, k1, g)))
        out.append(("copy_to_%s_region" % g, g, "", lambda: [replicated("x", N)], lambda: replicated("x", N), lambda g=g: partial("go", N, g), lambda g=g: total("go", N, g)))
        out.append(("reduce_from_%s_region" % g, g, "", lambda g=g: [partial("x", N, g)], lambda g=g: total("x", N, g), lambda: replicated("go", N), lambda: replicated("go", N)))
        for d in (-2, -1, 1):
            out.append(("reduce_from_scatter_to_%s_region" % g, g, "dim=%d" % d, lambda g=g, d=d: [partial("x", N, g), P(d)], lambda g=g, d=d: total_shard("x", N, d, g),
                        lambda g=g, d=d: shard("go", N, d, g), lambda: replicated("go", N)))
            if g == "polar":
                out.append(("scatter_to_polar_region", g, "dim=%d" % d, lambda d=d: [replicated("x", N), P(d)], lambda d=d: shard("x", N, d, "polar"), lambda d=d: shard("go", N, d, "polar"), lambda: replicated("go", N)))
                out.append(("gather_from_polar_region", g, "dim=%d" % d, lambda d=d: [shard("x", N, d, "polar"), P(d), split_list(N[d], "polar")], lambda: replicated("x", N),
                            lambda: replicated("go", N), lambda d=d: shard("go", N, d, "polar")))
                out.append(("gather_from_copy_to_polar_region", g, "dim=%d" % d, lambda d=d: [shard("x", N, d, "polar"), P(d), split_list(N[d], "polar")], lambda: replicated("x", N),
                            lambda: partial("go", N, "polar"), lambda d=d: total_shard("go", N, d, "polar")))
    return out


SYNONYMS = {"reduce_from_scatter_to_polar_region": [], }


def cmp_ten(out, rule, subj, where, got, exp, it, tag):
    if not isinstance(got, Ten):
        out.und(rule, subj, "%s result not modelled: %r" % (tag, str(got)[:120]))
        return
    if len(got.axes) != len(exp.axes):
        out.bad(rule, where, subj, "%s has %d dimensions, expected %d" % (tag, len(got.axes), len(exp.axes)))
        return
    for k, (a, b) in enumerate(zip(got.axes, exp.axes)):
        r = sizes_equal(T.axsize(a), T.axsize(b), (it,))
        if r is None:
            out.und(rule, subj, "%s size of dimension %d" % (tag, k))
            return
        if r is not True:
            out.bad(rule, where, subj, "%s: dimension %d has size %s, expected %s (%s)" % (tag, k, T.show(T.axsize(a), 120), T.show(T.axsize(b), 120), r))
            return
    if got.expr is None:
        out.und(rule, subj, "%s value not modelled" % tag, str(it.opaque_log[:2])[:200])
        return
    if got.dtype.name and got.dtype != exp.dtype:
        out.bad(rule, where, subj, "%s has dtype %s, expected %s" % (tag, got.dtype, exp.dtype))
        return
    v = values_equal(got.expr, T.subst(exp.expr, {b: Poly.atom(a) for a, b in zip(got.axes, exp.axes)}), got.axes, (it,))
    if v is True:
        out.ok(rule, subj, tag)
    elif v is None:
        if not (LAST[0] or "").startswith("no sizes"):
            out.und(rule, subj, "%s not comparable: %s" % (tag, LAST[0]))
    else:
        out.bad(rule, where, subj, "%s differs from its definition: %s (path: %s)" % (tag, v, " and ".join("%s is %s" % (c, vv) for _, c, vv, _ in it.taken)))


def grid_for(g, kind):
    return Grid(kind if g == "polar" else 1, kind if g == "azimuth" else 1)


def job(i, kind):
    name, g, label, args, fwd, gin, bwd = specs()[i]
    out = report.Obl()
    grid = grid_for(g, kind)
    subj = "%s %s on %s" % (name, label, grid)

    def setup(it):
        init_grid(it, grid)
    one = kind != "many"

    def drive(it):
        setup(it)
        sub = None
        a = args()
        if one:
            a = [collapse(x, g) for x in a]
        y = it.call(cls(it, PKG + name), a, {})
        gr = None
        if it.tape:
            go = gin()
            if one:
                go = collapse(go, g)
            gr = O.autograd_backward(it, it.tape[-1], [go])
        return (y, gr, bool(it.tape))
    run_paths(out, subj, name, drive, fwd, bwd, one, g)
    return out


def collapse(v, g):
    """the same value on a group of one rank"""
    env = {("size", g): T.ONE, ("rank", g): T.ZERO}
    if isinstance(v, Ten):
        ax = [T.new_axis(T.replace(T.axsize(a), env)) for a in v.axes]
        e = T.replace(T.subst(v.expr, {a: Poly.atom(b) for a, b in zip(v.axes, ax)}), env)
        return Ten(ax, e, v.dtype, v.org)
    if isinstance(v, L):
        f = v.fam
        return L([T.replace(T.subst(f.elem, {f.idx: T.ZERO}), env)])
    return v


def run_paths(out, subj, name, drive, fwd, bwd, one=False, g=None, cfg=None):
    ps = explore(lambda: Interp(repo(), base_config(**(cfg or {}))), drive, 40)
    fns = set()
    for p in ps:
        fns |= p.it.visited
        if isinstance(p.exc, GiveUp):
            out.und("analysis", subj, "gave up: %s" % p.exc)
            continue
        if p.exc is not None:
            out.bad("primitive:raises", name, subj, "raises %s for a valid input (path: %s)" % (p.exc.exc, describe(p)))
            continue
        n0 = len(out)
        for kind, msg, loc, fn in p.it.events:
            if kind in SHAPE_EVENTS + ("dtype", "p2p"):
                out.bad("primitive:" + kind, fn, loc, "%s: %s (path: %s)" % (subj, msg, describe(p)))
        y, gr, taped = p.result
        ef, eb = fwd(), bwd()
        if one:
            ef, eb = collapse(ef, g), collapse(eb, g)
        cmp_ten(out, "primitive:forward", subj, name, y, ef, p.it, "forward")
        if not taped:
            out.und("primitive:backward", subj, "no autograd function applied")
            continue
        if isinstance(gr, tuple):
            gr = gr[0]
        cmp_ten(out, "primitive:backward", subj, name, gr, eb, p.it, "backward")
    out.note("functions_analysed", sorted(fns))


# ------------------------------------------------------------------ balanced split
def job_split():
    out = report.Obl()
    subj = "compute_split_shapes"
    S_, n_ = SZ("extent", 1), SZ("chunks", 1)
    cfg = base_config()
    cfg["summaries"] = {k: v for k, v in cfg["summaries"].items() if "split_shapes" not in k}

    def drive(it):
        return it.call(cls(it, PKG + "compute_split_shapes"), [S_, n_], {})
    for p in explore(lambda: Interp(repo(), cfg), drive, 10):
        if p.exc is not None:
            if isinstance(p.exc, GiveUp):
                out.und("split", subj, str(p.exc))
            continue
        r = p.it.iterate(p.result) if p.result is not None else None
        if not isinstance(r, Fam) or not isinstance(r.elem, Poly):
            out.und("split", subj, "result not modelled: %r" % (str(r)[:120],))
            continue
        e = sizes_equal(r.n, n_, (p.it,))
        if e is not True:
            (out.und if e is None else lambda a, b, c: out.bad(a, b, "", c))("split", subj, "number of chunks is %s" % T.show(r.n))
            continue
        a = T.new_axis(n_)
        v = values_equal(T.subst(r.elem, {r.idx: Poly.atom(a)}), T.split(S_, n_, Poly.atom(a)), [a], (p.it,))
        if v is True:
            out.ok("split", subj)
        elif v is None:
            out.und("split", subj, str(LAST[0]))
        else:
            out.bad("split", subj, subj, "chunk sizes are not the balanced split with larger chunks first: %s" % v)
    return out


# ------------------------------------------------------------------ halo exchange
def p2p_config(table):
    """two-pass matching of point-to-point messages: table collects the sends of every path by (group, peer, batch)"""
    def match(it, r, sends):
        if not table:
            return None
        g = r.attrs["group"]
        me = rank_of(g.name)
        src = r.attrs["peer"].idx
        t = r.attrs["tensor"]
        cands = []
        unknown = False
        for (gname, peer, batch, k), (ten_, loc, conds) in table.items():
            if gname != g.name or batch != r.attrs["batch"]:
                continue
            env = {("rank", gname): src}
            dst = T.subst(peer, env)
            extra = [(Cond(c.kind, *[T.subst(x, env) if isinstance(x, Poly) else x for x in c.args]), v) for c, v in conds]
            try:
                d = distinguish(dst, me, [], path_conds(it) + extra)
            except Unknown as e:
                if not str(e).startswith("no sizes"):
                    unknown = True
                continue
            if d is None:
                cands.append(T_at(ten_, gname, src))
        uniq = []
        for c in cands:
            if not any(len(c.axes) == len(u.axes) and all(same_poly(x, y, it) for x, y in zip(c.shape, u.shape)) and same_poly(T.subst(c.expr, {a: Poly.atom(b) for a, b in zip(c.axes, u.axes)}), u.expr, it, u.axes) for u in uniq):
                uniq.append(c)
        if not uniq:
            if unknown:
                it.undecided.append(("peer of a receive not understood", r.attrs["loc"]))
            else:
                it.event("p2p", "rank %s receives from member %s, which sends nothing to it" % (T.show(me), T.show(src)), None)
            return None
        if len(uniq) > 1:
            it.undecided.append(("several sends match one receive", r.attrs["loc"]))
            return None
        O.check_same_shape(it, t, uniq[0], "receive over %s" % g.name, None)
        return T.subst(uniq[0].expr, {a: Poly.atom(b) for a, b in zip(uniq[0].axes, t.axes)})
    return {"p2p_match": match}


def same_poly(a, b, it, axes=()):
    return a == b or values_equal(a, b, list(axes), (it,)) is True


def T_at(t, g, src):
    """tensor t as seen on the member with rank src"""
    return O.subst_value(t, {("rank", g): src})


def conds_key(conds):
    return tuple((c.key, v) for c, v in conds)


def collect(paths, table):
    for p in paths:
        k = 0
        for tr in p.it.trace:
            if tr[0] == "p2p:isend":
                o = tr[2][0]
                g, peer, t = o.attrs["group"], o.attrs["peer"], o.attrs["tensor"]
                if isinstance(g, Group) and isinstance(peer, GRank) and isinstance(peer.idx, Poly) and isinstance(t, Ten) and t.expr is not None:
                    conds = tuple((c, v) for c, v in path_conds(p.it) if any(isinstance(x, Poly) and ("rank", g.name) in T.freevars(x) for x in c.args))
                    table.setdefault((g.name, peer.idx, o.attrs["batch"], conds_key(conds)), (t, o.attrs["loc"], conds))


def job_halo():
    out = report.Obl()
    subj = "polar_halo_exchange"
    R = SZ("halo", 1)
    grid = Grid("many", 1)
    n, r = size_of("polar"), rank_of("polar")
    H = T.split(N[2], n, r)
    sizes = [N[0], N[1], H, N[3]]

    def xin():
        return shard("x", N, 2, "polar")

    def gin():
        return partial("go", [N[0], N[1], H + 2 * R, N[3]], "polar")

    def fwd():
        ax = [T.new_axis(s) for s in [N[0], N[1], H + 2 * R, N[3]]]
        gl = T.off(N[2], n, r) + Poly.atom(ax[2]) - R
        return Ten(ax, T.ind(gl, T.ZERO, N[2]) * Poly.atom(("T", "x", (Poly.atom(ax[0]), Poly.atom(ax[1]), gl, Poly.atom(ax[3])))), F32)

    def bwd():
        ax = [T.new_axis(s) for s in sizes]
        b, c, h, w = [Poly.atom(a) for a in ax]

        def go(rk, hh):
            return Poly.atom(("T", "go", (rk, b, c, hh, w)))
        Hp = T.split(N[2], n, r - 1)
        e = go(r, h + R) + T.ind(r, T.ONE, n) * T.ind(h, T.ZERO, R) * go(r - 1, Hp + R + h) + T.ind(r, T.ZERO, n - 1) * T.ind(h, H - R, H) * go(r + 1, h - (H - R))
        return Ten(ax, e, F32)

    pre = [Cond("gt", T.fdiv(N[2], n) - R + 1)]        # halo no wider than the smallest chunk

    def drive(it):
        init_grid(it, grid)
        for c in pre:
            it.assume(c, True)
            it.guards.append((c, None, "precondition"))
        y = it.call(cls(it, PKG + "polar_halo_exchange"), [xin(), R], {})
        gr = O.autograd_backward(it, it.tape[-1], [gin()]) if it.tape else None
        return (y, gr, bool(it.tape))
    table = {}
    cfg = p2p_config(table)
    ps = explore(lambda: Interp(repo(), base_config(**cfg)), drive, 40)
    first = {}
    collect(ps, first)
    # forward and backward exchange separately: sends are distinguished by the tensor they carry
    table.update(first)
    run_paths(out, subj, "polar_halo_exchange", drive, fwd, bwd, cfg=cfg)
    return out


def run(tier):
    n = len(specs())
    tasks = [(job, (i, "many")) for i in range(n)] + [(job, (i, 1)) for i in range(n)] + [(job_split, ()), (job_halo, ())]
    return report.run_tasks(tasks)
