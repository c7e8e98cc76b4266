"""C25: the outcome of a time evolution does not depend on how the problem is put."""
import numpy as np
import astropy.units as u
from lib import gen, ref
from lib.tevol import Problem, Recorder, Term, gen_time, MEC2

PID = "C25"
RULE = "distinct (problem, pair of formulations) with particles at the end"
ASSUMPTIONS = ["formulations that take the same time steps agree to 1e-8; legs with automatic steps to the order of their thresholds",
               "a group with its own energy changes is compared with its own run away from the edges of the grid (the bins follow the first group)"]
MONITORS = ["form", "order", "units", "split_rate", "repeat", "callback", "legs_fixed", "legs_auto", "subset", "linear", "additive", "time_scale", "single_group",
            "equal_groups", "group_fractions", "separate_groups", "first_group", "second_group", "transfer", "legs_groups", "one_step", "one_step_groups", "default_grid", "default_split", "heun_groups"]
CASE_TIMEOUT = 300
CM3 = "cm-3"


def evolve(P, T=None, ne=None, fns=None, grid=None, **kw):
    """a run on a blob of its own; returns (gamma, density, subgroups, blob)"""
    from agnpy.time_evolution import TimeEvolution
    b = P.blob
    b.n_e = ne if ne is not None else gen.build(P.spec)
    kw.setdefault("merge_bins_closer_than", None)
    if kw.get("step_duration", "auto") == "auto":
        kw.setdefault("optimize_recalculating_slow_rates", False)
    if grid is not None:
        kw["initial_gamma_array"] = grid
    r = TimeEvolution(b, P.T * u.s if T is None else T, **(fns or P.functions("dict")), **kw).evaluate()
    return np.asarray(r.gamma), r.density.to_value(CM3), np.asarray(r.density_subgroups), r


def same(mon, name, a, b, rtol=1e-8, fac=1.0):
    if mon.ok(name, a[0].shape == b[0].shape, got=a[0].shape, want=b[0].shape):
        mon.close(name, a[0], b[0], rtol)
        mon.close(name, a[1], b[1] * fac, max(rtol, 1e-8), 1e-13 * float(np.max(np.abs(b[1]), initial=0)))


def settings(rng, P, auto=None):
    """time steps"""
    g = P.grid()
    if auto if auto is not None else rng.random() < 0.5:
        return dict(max_energy_change_per_interval=0.05, max_density_change_per_interval=0.4, max_injection_per_interval=float(np.max(P.Q(g)) * P.T / 20) if P.Q else 1.0)
    fm = P.T * max(float(np.max(np.abs(P.f(g) / g))), float(np.max(np.abs(P.df(g)))), float(np.max(np.abs(P.r(g)))) if P.r else 0)
    return dict(step_duration=P.T / max(float(rng.uniform(5, 20)), 4 * fm) * u.s)


def formulations(rng, mon, tier):
    P = Problem(rng, x=(0.1, 1.0))
    kw = settings(rng, P)
    kw["method"] = str(rng.choice(["euler", "heun"]))
    bounds = None
    if rng.random() < 0.3:
        kw["gamma_bounds"] = (P.spec["gamma_min"] * 0.99, P.spec["gamma_max"] * 1.01)
    mon.case(kw={k: str(v) for k, v in kw.items()}, **P.show())
    mon.feature(kw["method"], "auto" if "step_duration" not in kw else "fixed")
    base = evolve(P, **kw)
    mon.nontrivial = np.any(base[1] > 0)
    same(mon, "repeat", evolve(P, **kw), base, 1e-12)
    seen = []
    same(mon, "callback", evolve(P, distribution_change_callback=seen.append, **kw), base, 1e-12)
    same(mon, "form", evolve(P, fns=P.functions(str(rng.choice(["list", "single"]))), **kw), base, 1e-9)
    F = P.functions("dict")
    F["energy_change_functions"] = dict(reversed(list(F["energy_change_functions"].items())))
    same(mon, "order", evolve(P, fns=F, **kw), base)
    kw2 = dict(kw)
    if "step_duration" in kw2:
        kw2["step_duration"] = kw2["step_duration"].to(str(rng.choice(["h", "d", "min", "ms"])))
    same(mon, "units", evolve(P, T=(P.T * u.s).to(str(rng.choice(["h", "d", "yr"]))), **kw2), base)
    # a rate given as two partial ones, in other units
    w = float(rng.uniform(0.1, 0.9))
    F = {"energy_change_functions": {}, "rel_injection_functions": {}, "abs_injection_functions": {}}
    src = P.functions("dict")
    other = {"energy_change_functions": "eV / h", "rel_injection_functions": "1 / d", "abs_injection_functions": "1 / (m3 s)"}
    if P.terms:
        for grp in F:
            for k, fn in (src[grp] or {}).items():
                F[grp][k + "1"] = lambda p, fn=fn: fn(p) * w
                F[grp][k + "2"] = lambda p, fn=fn, un=other[grp]: (fn(p) * (1 - w)).to(un)
    else:
        F["energy_change_functions"] = {"none": lambda p: np.zeros(len(p.gamma)) * u.Unit("erg / s")}
        F.update({k: src[k] for k in other if k != "energy_change_functions"})
    if rng.random() < 0.5:  # in lists: functions that share a name
        F = {k: v and list(v.values()) for k, v in F.items()}
        mon.feature("split in lists")
    same(mon, "split_rate", evolve(P, fns=F, **kw), base, 1e-7)
    # the grid used by default: that of the blob
    if not kw.get("gamma_bounds"):
        g = np.logspace(np.log10(P.spec["gamma_min"]), np.log10(P.spec["gamma_max"]), P.size)
        same(mon, "default_grid", evolve(P, grid=g, **kw), base, 1e-9)
    # one group with everything is no group
    names = [k for g_ in src.values() for k in (g_ or {})]
    same(mon, "single_group", evolve(P, subgroups=[names], **kw), base)
    # faster rates in a shorter time
    f = gen.logu(rng, 0.01, 100)
    F = {grp: {k: (lambda p, fn=fn: fn(p) * f) for k, fn in (src[grp] or {}).items()} for grp in src}
    kw3 = dict(kw)
    if "step_duration" in kw3:
        kw3["step_duration"] = kw3["step_duration"] / f
    same(mon, "time_scale", evolve(P, T=P.T / f * u.s, fns=F, **kw3), base, 1e-7)
    # proportional to the particles (those injected included)
    F = dict(src)
    if P.Q:
        F["abs_injection_functions"] = {"abs": lambda p: src["abs_injection_functions"]["abs"](p) * f}
    kw4 = dict(kw)
    if "max_injection_per_interval" in kw4:
        kw4["max_injection_per_interval"] *= f
    same(mon, "linear", evolve(P, fns=F, ne=gen.build(dict(P.spec, k=P.spec["k"] * f)), **kw4), base, 1e-7, f)
    if "step_duration" in kw and not bounds and "gamma_bounds" not in kw:
        # the bins do not know of each other
        g = P.grid()
        k = np.sort(rng.choice(g.size, int(rng.integers(3, g.size)), replace=False))
        sub = evolve(P, grid=np.clip(g[k], P.spec["gamma_min"], P.spec["gamma_max"]), **kw)
        mon.close("subset", sub[0], base[0][k], 1e-9)
        mon.close("subset", sub[1], base[1][k], 1e-8)
        if P.Q:
            F = dict(src, abs_injection_functions=None)
            a = evolve(P, fns=F, **kw)
            from agnpy.spectra import EmptyDistribution
            e = evolve(P, ne=EmptyDistribution(gamma_min=P.spec["gamma_min"], gamma_max=P.spec["gamma_max"]), grid=np.clip(g, P.spec["gamma_min"], P.spec["gamma_max"]), **kw)
            mon.close("additive", a[1] + e[1], base[1], 1e-8, 1e-13 * float(np.max(base[1])))
        long = {k_: v for k_, v in kw.items() if k_ != "step_duration"}
        fm = max(np.max(np.abs(P.f(g) / g)), np.max(np.abs(P.df(g))), np.max(np.abs(P.r(g))) if P.r else 0)
        t = 0.2 / fm if fm > 0 else P.T
        same(mon, "one_step", evolve(P, T=t * u.s, step_duration=t * 7 * u.s, **long), evolve(P, T=t * u.s, step_duration=t * u.s, **long), 1e-11)


def legs(rng, mon, tier):
    """in several goes, each from the final bins of the previous one"""
    P = Problem(rng, x=(0.1, 0.8))
    auto = bool(rng.random() < 0.5)
    kw = settings(rng, P, auto)
    kw["method"] = str(rng.choice(["euler", "heun"]))
    groups = int(rng.integers(1, 3))
    names = [t.name for t in P.terms]
    g0 = np.clip(P.grid(), P.spec["gamma_min"], P.spec["gamma_max"])
    if groups == 2:
        s = [list(names), list(names)]
        if P.r:
            s[int(rng.integers(2))].append("rel")
        if P.Q:
            s[int(rng.integers(2))].append("abs")
        kw["subgroups"] = s
    mon.case(auto=auto, groups=groups, kw={k: str(v) for k, v in kw.items()}, **P.show())
    if auto:
        kw["max_energy_change_per_interval"], kw["max_density_change_per_interval"] = 0.01, 0.05
        T, cuts = P.T, np.sort(rng.uniform(0.1, 0.9, int(rng.integers(1, 3)))) * P.T
    else:
        dt = kw["step_duration"].to_value("s")
        n = int(rng.integers(4, 15))
        T, cuts = n * dt, np.array([int(rng.integers(1, n)) * dt])
    d0 = rng.dirichlet(np.ones(groups), g0.size).T
    one = evolve(P, T=T * u.s, grid=g0, **(dict(kw, subgroups_initial_density=d0) if groups > 1 else kw))
    from agnpy.time_evolution import TimeEvolution
    b = P.blob
    b.n_e = gen.build(P.spec)
    g, d, t0 = g0, d0, 0.0
    for t in [*cuts, T]:
        ex = dict(kw, merge_bins_closer_than=None, initial_gamma_array=g)
        if groups > 1:
            ex["subgroups_initial_density"] = d
        if auto:
            ex["optimize_recalculating_slow_rates"] = False
        r = TimeEvolution(b, gen_time(rng, t - t0), **P.functions("dict"), **ex).evaluate()
        g, d, t0 = np.asarray(r.gamma), np.asarray(r.density_subgroups), t
    got = (g, r.density.to_value(CM3))
    fm = float(np.max(np.abs(P.f(g0) / g0)) * T) if P.terms else 0
    big = one[1] > 1e-9 * np.max(one[1])
    if auto:
        mon.close("legs_auto", got[0], one[0], 0.03 * (0.2 + fm))
        mon.close("legs_auto", got[1][big], one[1][big], 0.12 * (0.3 + fm + (float(np.max(np.abs(P.r(g0))) * T) if P.r else 0)))
    else:
        mon.close("legs_fixed", got[0], one[0], 1e-8)
        mon.close("legs_fixed", got[1][big], one[1][big], 1e-6)
        if groups > 1:
            mon.close("legs_groups", d[:, big], one[2][:, big], 0, 1e-6)


def groups(rng, mon, tier):
    P = Problem(rng, energy=list(rng.choice(["synch", "fermi", "adiabatic", "power"], int(rng.integers(1, 3)), replace=False)), rel=True, absl=True, x=(0.1, 0.7))
    kw = settings(rng, P, False)
    g0 = np.clip(P.grid(), P.spec["gamma_min"], P.spec["gamma_max"])
    names = [t.name for t in P.terms]
    src = P.functions("dict")
    M = int(rng.integers(2, 4))
    method = kw["method"] = str(rng.choice(["euler", "heun"]))
    d0 = rng.dirichlet(np.ones(M), g0.size).T
    mon.case(M=M, kw={k: str(v) for k, v in kw.items()}, **P.show())
    mon.feature("groups_" + method)
    base = evolve(P, grid=g0, **kw)
    # the same processes in every group: the split is only a label
    eq = evolve(P, grid=g0, fns=dict(src, abs_injection_functions=None), **kw)
    e2 = evolve(P, grid=g0, fns=dict(src, abs_injection_functions=None), subgroups=[names + ["rel"]] * M, subgroups_initial_density=d0, **kw)
    same(mon, "equal_groups", e2, eq)
    k = e2[1] > 1e-250  # denormal densities have no digits to share
    mon.close("group_fractions", e2[2][:, k], d0[:, k], 0, 1e-9)
    # injection and escape of a group concern that group only
    s = [list(names) for _ in range(M)]
    a, b = int(rng.integers(M)), int(rng.integers(M))
    s[a].append("rel")
    s[b].append("abs")
    r = evolve(P, grid=g0, subgroups=s, subgroups_initial_density=d0, **kw)
    for m in range(M):
        F = dict(src, rel_injection_functions=src["rel_injection_functions"] if m == a else None, abs_injection_functions=src["abs_injection_functions"] if m == b else None)
        alone = evolve_split(P, d0[m], F, g0, **kw)
        nm = "separate_groups" if method == "euler" else "heun_groups"
        mon.close(nm, r[0], alone[0], 1e-8)
        mon.close(nm, r[1] * r[2][m], alone[1], 1e-7, 1e-11 * float(np.max(r[1])), group=m)
    # by default everything is in the first group
    r1 = evolve(P, grid=g0, subgroups=s, **kw)
    d1 = np.zeros((M, g0.size))
    d1[0] = 1
    r2 = evolve(P, grid=g0, subgroups=s, subgroups_initial_density=d1, **kw)
    same(mon, "default_split", r1, r2, 1e-12)
    mon.close("default_split", r1[2], r2[2], 0, 1e-12)
    # particles passing from a group to another one are not lost
    tr = P.tau * gen.logu(rng, 1, 10)
    F = dict(energy_change_functions=src["energy_change_functions"], rel_injection_functions={"out": lambda p: -np.ones(len(p.gamma)) / tr * u.Unit("s-1")},
             abs_injection_functions={"in": lambda p: p.densities * p.density_subgroups[0] / tr * u.Unit("s-1")})
    if float(np.min(kw["step_duration"].to_value("s"))) / tr < 0.4:
        t = evolve(P, grid=g0, fns=F, subgroups=[names + ["out"], names + ["in"]], **kw)
        same(mon, "transfer", t, evolve(P, grid=g0, fns=dict(F, rel_injection_functions=None, abs_injection_functions=None), **kw))
        mon.ok("transfer", np.all(t[2][1][t[1] > 1e-250] > 0))


def evolve_split(P, frac, F, g0, **kw):
    """a group alone: two groups with the same processes, the other one without particles at any time"""
    from agnpy.spectra import InterpolatedDistribution
    from agnpy.time_evolution import TimeEvolution
    n = ref.n_of(P.spec, g0) * frac

    class Tab:  # tabulated density at the initial bins, nothing to interpolate
        gamma_min, gamma_max = g0[0], g0[-1]

        def __call__(self, g):
            return n * u.Unit(CM3)
    b = P.blob
    b.n_e = gen.build(P.spec)
    # only the first call of the evolution reads the initial density, at the bins
    from scipy.interpolate import PchipInterpolator
    b.n_e = InterpolatedDistribution(g0, n * u.Unit(CM3), interpolator=PchipInterpolator)
    kw = dict(kw, merge_bins_closer_than=None)
    r = TimeEvolution(b, P.T * u.s, initial_gamma_array=g0, **F, **kw).evaluate()
    return np.asarray(r.gamma), r.density.to_value(CM3)


def zones(rng, mon, tier):
    """groups with different energy changes"""
    P = Problem(rng, energy=["synch", "adiabatic"], rel=False, absl=False, x=(0.05, 0.25), size=(60, 90))
    P.spec = dict(gen.spectrum(rng, types=["BrokenPowerLaw", "PowerLaw", "LogParabola"], gmin=(20, 100), gmax=(1e4, 1e5), edge=False))
    P = reset(rng, P)
    g0 = np.clip(P.grid(), P.spec["gamma_min"], P.spec["gamma_max"])
    n0 = ref.n_of(P.spec, g0)
    f = float(rng.uniform(0.2, 0.8))
    d0 = np.array([np.full(g0.size, f), np.full(g0.size, 1 - f)])
    src = P.functions("dict")
    # the bins follow the first group: the second one must not leave them
    first, second = (["adiabatic"], ["synch", "adiabatic"]) if rng.random() < 0.5 else (["synch"], ["synch", "adiabatic"])
    # few steps: as many bins of the second group are lost (recorded finding)
    kw = dict(step_duration=P.T / int(rng.integers(12, 30)) * u.s, method=str(rng.choice(["euler", "heun"])))
    mon.case(first=first, second=second, f=f, kw={k: str(v) for k, v in kw.items()}, **P.show())
    seen = []
    r = evolve(P, grid=g0, subgroups=[first, second], subgroups_initial_density=d0, distribution_change_callback=lambda x: seen.append(len(x.gamma)), **kw)
    al, be = [t for t in P.terms if t.name in first], [t for t in P.terms if t.name in second]
    ok = np.arange(5, g0.size - 5)

    def solve(terms, g, n):
        Q = Problem.__new__(Problem)
        Q.terms, Q.r, Q.Q = terms, None, None
        return Q.exact(g, n, P.T)
    w1 = solve(al, g0, n0 * f)
    mon.close("first_group", r[0], w1[0], 0.01)
    mon.close("first_group", (r[1] * r[2][0])[ok], w1[1][ok], 0.04)
    # second group at the bins of the first: traced back to the initial law
    gb = np.exp(np.interp(np.log(r[0]), np.log(solve(be, g0, n0)[0]), np.log(g0)))
    inside = (gb > P.spec["gamma_min"] * 1.3) & (gb < P.spec["gamma_max"] * 0.6) & (r[0] < r[0][-1] * 0.6)
    brk = P.spec.get("gamma_b", 1e99)
    inside &= (np.abs(np.log(gb / brk)) > 0.4)
    w2 = solve(be, gb[inside], ref.n_of(P.spec, gb[inside]) * (1 - f))
    got = (r[1] * r[2][1])[inside] / w2[1]
    good = np.abs(got - 1) < 0.1
    # recorded finding: the last bin with particles of the group is lost at every step (and only that);
    # next to the lost bins the steep edge left is interpolated
    live = np.nonzero(r[2][1] > 0)[0]
    lost = got == 0
    eroded = live.size > 0 and np.all(np.diff(live) == 1) and live[0] == 0 and r[0].size - 1 - live[-1] <= len(seen) + 1
    near = np.arange(r[0].size)[inside] >= live[-1] - 4 if live.size else lost
    mon.known("subgroup-edge", "second_group", np.all(good), eroded and np.any(lost) and np.all(good | lost | near),
              got=list(got[~good][:8]), steps=len(seen), bins_lost=int(r[0].size - 1 - (live[-1] if live.size else -1)))
    k = good | ~lost & ~near
    mon.close("second_group", got[k], np.ones(k.sum()), 0, 0.1)


def step(rng, mon, tier):
    """one step: each group, at the bins of the first one, has the density of its own run"""
    from scipy.interpolate import PchipInterpolator
    P = Problem(rng, energy=["adiabatic"], rel=False, absl=False, size=(30, 90))
    P.spec = dict(gen.spectrum(rng, types=["PowerLaw", "BrokenPowerLaw", "LogParabola"], gmin=(20, 100), gmax=(1e4, 1e5), edge=False))
    P = reset(rng, P)
    g0 = np.clip(P.grid(), P.spec["gamma_min"], P.spec["gamma_max"])
    M = int(rng.integers(2, 5))
    d0 = rng.dirichlet(np.ones(M))[:, None] * np.ones(g0.size) * np.exp(0.3 * np.sin(rng.uniform(0.2, 1) * np.log(g0) + rng.uniform(0, 6, M)[:, None]))
    d0 = d0 / d0.sum(axis=0)
    # some of the groups populate only a part of the bins
    part = {}
    for m in range(1, M):
        if rng.random() < 0.35:
            k = int(rng.integers(12, g0.size - 12))
            part[m] = slice(k, None) if rng.random() < 0.5 else slice(0, k)
            keep = np.zeros(g0.size, bool)
            keep[part[m]] = True
            d0[0] += np.where(keep, 0, d0[m])
            d0[m] = np.where(keep, d0[m], 0)
    same_law = rng.random() < 0.5
    h = np.log(g0[1] / g0[0])
    x, m0 = gen.logu(rng, 1e-3, 0.4) * h * float(rng.choice([-1, 1])), float(rng.uniform(0.8, 1.4))
    fns, groups_, dx = {}, [], []
    for m in range(M):
        # energy changes from almost equal to quite different (well within a bin)
        e = gen.logu(rng, 1e-6, 1) * float(rng.choice([-1, 1]))
        mm = m0 if same_law else float(rng.uniform(0.8, 1.4))
        a = x * (1 + e) if m else x
        T = Term(f"e{m}", a / P.T * np.max(g0) ** (1 - mm), mm)
        fns[T.name] = T
        groups_.append([T.name])
        dx.append(a)
    rel = {f"r{m}": float(rng.uniform(-0.3, 0.3)) / P.T for m in range(M) if rng.random() < 0.5}
    for r in rel:
        groups_[int(r[1:])].append(r)
    src = {"energy_change_functions": {k: t.fn for k, t in fns.items()}, "rel_injection_functions": {k: (lambda p, v=v: np.full(len(p.gamma), v) * u.Unit("s-1")) for k, v in rel.items()} or None}
    method = str(rng.choice(["euler", "heun"]))
    kw = dict(step_duration=P.T * u.s, method=method)
    mon.case(M=M, dx=dx, rel=rel, method=method, n=int(g0.size), spec=gen.show(P.spec), m0=m0, same_law=bool(same_law))
    mon.feature("step_" + method, "same_law" if same_law else "other_law")
    r = evolve(P, grid=g0, fns=src, subgroups=groups_, subgroups_initial_density=d0, **kw)
    for m in range(M):
        F = {"energy_change_functions": {f"e{m}": fns[f"e{m}"].fn}, "rel_injection_functions": {f"r{m}": src["rel_injection_functions"][f"r{m}"]} if f"r{m}" in rel else None}
        g, n = evolve_split(P, d0[m], F, g0, **kw)
        if m == 0:
            mon.close("one_step_groups", r[0], g, 1e-10)
        if m == 0 and part:
            continue  # its density is not smooth where the other groups end
        pop = np.nonzero(n > 0)[0]
        ok = slice(pop[0] + 4, pop[-1] - 3)
        if m in part:
            mon.feature("partly populated group")
        lx, ly, q = np.log(g[pop]), np.log(n[pop]), np.log(r[0][ok])
        pch, lin = PchipInterpolator(lx, ly)(q), np.interp(q, lx, ly)
        tol = 1e-6 + 0.3 * np.abs(pch - lin)
        if method == "heun" and m:  # the second rates of all the groups are those at the bins of the first one
            s1, sm = fns["e0"].f(g0) * P.T / g0, fns[f"e{m}"].f(g0) * P.T / g0
            tol = tol + 3 * np.max(np.abs(s1 - sm)) * max(np.max(np.abs(s1)), np.max(np.abs(sm))) * (1 + near(ly, lx)[4:-4])
        got = np.log((r[1] * r[2][m])[ok])
        mon.ok("one_step_groups", np.all(np.abs(got - pch) < tol), group=m, err=float(np.max(np.abs(got - pch) / tol)))


def near(ly, lx):
    """largest slope and curvature around each bin"""
    d = np.abs(np.diff(ly) / np.diff(lx))
    d = np.concatenate([d, d[-1:]])
    out = d.copy()
    for k in range(1, 4):
        out[k:] = np.maximum(out[k:], d[:-k])
        out[:-k] = np.maximum(out[:-k], d[k:])
    return out


def reset(rng, P):
    from agnpy.emission_regions import Blob
    P.blob = Blob(n_e=gen.build(P.spec), B=P.B * u.G, gamma_e_size=P.size)
    hi = P.spec["gamma_max"]
    tau = gen.logu(rng, 0.5, 5) / (P.b * hi)
    P.tau = min(tau, 1 / (P.b * hi))
    P.terms = [P.term("synch", tau, hi), Term("adiabatic", -1 / tau, 1)]
    P.T = float(rng.uniform(0.05, 0.25)) * P.tau
    return P


KINDS = {"formulations": (formulations, 19, 300), "legs": (legs, 26, 400), "groups": (groups, 19, 300), "zones": (zones, 13, 120), "step": (step, 64, 2000)}
