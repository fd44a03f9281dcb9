"""P04: every rank of a group issues the same collectives in the same order."""
from checks.dist import *  # noqa
from checks import spmd, p03

META = {
    "level": "other",
    "explanation": "Every path of the distributed layers' forward passes and of the communication primitives' forward and backward passes is enumerated on a symbolic process grid; "
                   "paths that ranks of one grid can take together (same sizes, different coordinates; rank-local data may decide either way) must issue the same collective sequence, "
                   "raise together before communicating, and point-to-point messages must pair up with equal shapes.",
    "assumptions": ["configuration and tensor sizes are the same on all ranks", "loops over a symbolic number of pieces issue the same calls in each iteration"],
}


def attn_case(name):
    def dist(it, g):
        o = it.call(cls(it, "torch_harmonics.distributed." + name), [C, (NLAT, NLON), (NLATO, NLONO)], {})
        return it.call(o, [O.mk_input("x", [B, C, g.lat(NLAT), g.lon(NLON)], F32)], {})
    return Case(name, None, dist)


def cases(tier):
    return all_cases(tier)


def job(i, gi, tier):
    case = cases(tier)[i]
    g = GRIDS[gi]
    out = report.Obl()

    def run_d(it):
        init_grid(it, g)
        return case.dist(it, g)
    ps = explore(mk(case), run_d, case.limit)
    spmd.check(out, "%s on %s" % (case.name, g), ps, g, case.name.split("[")[0])
    return out


def job_prim(i):
    name, g, label, args, fwd, gin, bwd = p03.specs()[i]
    out = report.Obl()
    grid = p03.grid_for(g, "many")

    def drive(it):
        init_grid(it, grid)
        y = it.call(cls(it, p03.PKG + name), args(), {})
        if it.tape:
            O.autograd_backward(it, it.tape[-1], [gin()])
        return y
    ps = explore(lambda: Interp(repo(), base_config()), drive, 40)
    spmd.check(out, "%s %s on %s" % (name, label, grid), ps, grid, name)
    return out


def job_halo():
    out = report.Obl()
    R = SZ("halo", 1)
    grid = Grid("many", 1)
    n, r = p03.size_of("polar"), p03.rank_of("polar")
    N = p03.N
    pre = Cond("gt", T.fdiv(N[2], n) - R + 1)

    def drive(it):
        init_grid(it, grid)
        it.assume(pre, True)
        it.guards.append((pre, None, "precondition"))
        y = it.call(cls(it, p03.PKG + "polar_halo_exchange"), [p03.shard("x", N, 2, "polar"), R], {})
        if it.tape:
            O.autograd_backward(it, it.tape[-1], [p03.partial("go", [N[0], N[1], T.split(N[2], n, r) + 2 * R, N[3]], "polar")])
        return y
    ps = explore(lambda: Interp(repo(), base_config()), drive, 40)
    spmd.check(out, "polar_halo_exchange on %s" % grid, ps, grid, "polar_halo_exchange")
    return out


def run(tier):
    n = len(cases(tier))
    tasks = [(job, (i, gi, tier)) for i in range(n) for gi in range(3)] + [(job_prim, (i,)) for i in range(len(p03.specs()))] + [(job_halo, ())]
    return report.run_tasks(tasks)
