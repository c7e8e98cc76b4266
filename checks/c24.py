"""C24: offline trace checker over the states reported during a time evolution."""
import numpy as np
import astropy.units as u
from lib import gen, ref
from lib.tevol import Problem, Recorder, gen_time, MEC2

PID = "C24"
RULE = "distinct (evolution, settings) with a recorded trace of at least one step"
ASSUMPTIONS = ["trace: the arguments of distribution_change_callback, copied when they are received, and blob.n_e at that time",
               "limits per step checked on runs with one group, without merging nor optimisation, to first order in the limits",
               "bins closer than the merging distance from the start are not explored"]
MONITORS = ["times", "total", "grid", "density", "subgroups", "keys", "energy_rates", "rel_rates", "abs_rates", "blob_state", "bounds", "bounds_kept", "bins_moved", "bins_added", "energy_limit", "density_limit",
            "injection_limit", "longest_step", "fixed_steps", "final", "history_kept", "arguments_kept", "stale_rates", "merge_distance", "merge_ends", "no_merge", "shapes", "called_with"]
CASE_TIMEOUT = 300


class Watched:
    """rate function that checks what it is given and remembers the calls"""

    def __init__(self, fn, kind, mon, groups):
        self.fn, self.kind, self.mon, self.groups, self.bad, self.n = fn, kind, mon, groups, [], 0

    def __call__(self, p):
        self.n += 1
        g, d, s = np.asarray(p.gamma), p.densities, p.density_subgroups
        k = 2 if self.kind == "en" else 1
        if not (g.ndim == 1 and d.shape == (g.size // k,) and s.shape == (self.groups, g.size // k) and np.all(g > 0) and np.all(np.isfinite(d.to_value("cm-3")))):
            self.bad.append((g.shape, d.shape, s.shape))
        return self.fn(p)


def trace(rng, mon, tier):
    from agnpy.time_evolution import TimeEvolution, FnParams
    from checks.c07 import digest
    mode = str(rng.choice(["auto", "auto", "opt", "opt", "fixed", "merge"]))
    ex = {}
    if mode == "merge":
        ex = dict(energy=[str(rng.choice(["synch", "steep"]))], gmin=(10, 50), gmax=(1e4, 1e5), size=(60, 120), x=(3, 10), absl=False)
    elif mode == "fixed":
        ex = dict(x=(0.05, 0.6))
    P = Problem(rng, **ex)
    if mode == "merge":
        P.T = float(rng.uniform(2, 6)) * P.spec["gamma_max"] / abs(float(P.f(np.array([P.spec["gamma_max"]]))[0]))
    g0 = np.clip(P.grid(), P.spec["gamma_min"], P.spec["gamma_max"])
    n0 = ref.n_of(P.spec, g0)
    method = str(rng.choice(["euler", "heun"])) if mode in ("auto", "fixed") else "euler"
    thr = float(rng.choice([0.05, 0.02, 0.01]))
    thr_n = float(rng.choice([0.1, 0.3, 0.05]))
    inj = float(np.max(P.Q(g0)) * P.T / rng.uniform(10, 60)) if P.Q else 1.0
    kw = dict(max_energy_change_per_interval=thr, max_density_change_per_interval=thr_n, max_injection_per_interval=inj, method=method)
    merge = None
    if mode == "merge":  # closer than the initial bins
        merge = gen.logu(rng, 5e-4, 2e-3) if rng.random() < 0.5 else float(rng.uniform(0.1, 0.7)) * np.log10(g0[1] / g0[0])
    kw["merge_bins_closer_than"] = merge
    if mode in ("auto", "merge"):
        kw["optimize_recalculating_slow_rates"] = bool(mode == "merge" and rng.random() < 0.7)
    elif mode == "opt" and rng.random() < 0.5:
        kw["optimize_recalculating_slow_rates"] = True
    step = None
    if mode == "fixed":
        fm = P.T * max(float(np.max(np.abs(P.f(g0) / g0))), float(np.max(np.abs(P.df(g0)))), float(np.max(np.abs(P.r(g0)))) if P.r else 0)
        n_steps = max(float(rng.uniform(1, 30)), 4 * fm)
        if rng.random() < 0.6:  # close to a whole number of steps
            n_steps = max(np.round(n_steps), np.ceil(4 * fm), 1) + gen.logu(rng, 1e-5, 0.1) * float(rng.choice([-1, 1]))
        step = P.T / n_steps
        kw["step_duration"] = gen_time(rng, step)
    bounds = None
    if rng.random() < (0.7 if mode == "opt" else 0.3) and mode != "merge" and method == "euler":
        bounds = (P.spec["gamma_min"] * float(rng.choice([1, 0.7])), P.spec["gamma_max"] * float(rng.choice([1, 2])))
        kw["gamma_bounds"] = bounds
        kw["max_bin_creep_from_bounds"] = float(rng.choice([0.1, 0.05]))
    init = bounds is not None or rng.random() < 0.5
    arr = np.array(g0)
    if init:
        kw["initial_gamma_array"] = arr
    # groups sharing all the energy changes
    groups = int(rng.integers(1, 4))
    fns = P.functions("dict")
    names = [t.name for t in P.terms]
    if groups > 1:
        sub = [list(names) for _ in range(groups)]
        for nm in (["rel"] if P.r else []) + (["abs"] if P.Q else []):
            sub[int(rng.integers(groups))].append(nm)
        kw["subgroups"] = sub
        if init and rng.random() < 0.7:
            d = rng.dirichlet(np.ones(groups), g0.size).T
            kw["subgroups_initial_density"] = d
    mon.case(mode=mode, thr=thr, thr_n=thr_n, method=method, merge=merge, bounds=bounds, groups=groups, init=init, **P.show())
    mon.feature(mode, method, f"groups{groups}", "bounds" if bounds else "free", *names)
    W = {}
    for grp, kd in (("energy_change_functions", "en"), ("rel_injection_functions", "rel"), ("abs_injection_functions", "abs")):
        if fns[grp] is not None:
            fns[grp] = {k: Watched(v, kd, mon, groups) for k, v in fns[grp].items()}
            W.update(fns[grp])
    keep = {k: digest(v) for k, v in kw.items() if k not in ("method",)}
    ne0 = P.blob.n_e
    ne_state = digest(ne0)
    blob_state = (P.blob.B, P.blob.R_b, P.blob.z, P.blob.gamma_e_size)
    rec = Recorder(P.blob)
    res = TimeEvolution(P.blob, gen_time(rng, P.T), distribution_change_callback=rec, **fns, **kw).evaluate()
    tr = rec.copy
    mon.counts["steps"] += len(tr)
    mon.nontrivial = len(tr) > 0
    if not mon.ok("times", len(tr) > 0):
        return
    # ---- clock ----------------------------------------------------------------
    t = np.array([0.0] + [c["t"] for c in tr])
    dt = np.diff(t)
    mon.ok("times", np.all(dt > 0) and np.all(t <= P.T * (1 + 1e-12)), dt_min=float(dt.min()))
    mon.ok("total", abs(t[-1] / P.T - 1) < 1e-12 and abs(float(res.total_time.to_value("s")) / P.T - 1) < 1e-12, got=t[-1], want=P.T)
    if step is not None:
        n = P.T / step
        mon.ok("fixed_steps", np.allclose(dt[:-1], step, rtol=1e-9) and dt[-1] <= step * (1 + 1e-9) and abs(len(dt) - np.ceil(n)) <= (0 if abs(n - round(n)) > 1e-6 else 1), steps=len(dt), want=n)
    # ---- states ---------------------------------------------------------------
    for i, c in enumerate(tr):
        g, nn, N = c["g"], c["n"], c["g"].size
        d = dict(step=i, of=len(tr))
        mon.ok("shapes", nn.shape == (N,) and c["sub"].shape == (groups, N) and all(v.shape == (N,) for k in ("en", "rel", "ab") for v in c[k].values()), **d)
        mon.ok("grid", N > 0 and np.all(np.isfinite(g)) and np.all(g > 0) and np.all(np.diff(g) > 0), **d)
        mon.ok("density", np.all(np.isfinite(nn)) and np.all(nn >= 0), **d)
        mon.ok("subgroups", np.all(c["sub"] >= 0) and np.all(np.abs(c["sub"].sum(axis=0) - 1) < 1e-6), worst=float(np.max(np.abs(c["sub"].sum(axis=0) - 1))), **d)
        mon.ok("keys", sorted(c["en"]) == sorted(names) and sorted(c["rel"]) == (["rel"] if P.r else []) and sorted(c["ab"]) == (["abs"] if P.Q else []), **d)
        stale = kw.get("optimize_recalculating_slow_rates", mode == "opt")
        # the rates of a bin are at most one interval (a change of its energy of thr) old
        nm = "stale_rates" if stale else None
        old = lambda m: 1.02 * ((1 - thr) ** -abs(m) - 1) + 1e-6 if stale else 1e-9
        for T_ in P.terms:
            if T_.name in c["en"]:
                mon.close(nm or "energy_rates", c["en"][T_.name] / (T_.f(g) * MEC2), np.ones(N), 0, max(old(T_.m), 1e-6 if T_.name == "synch" else 0), process=T_.name, **d)
        if P.r and "rel" in c["rel"]:
            mon.close(nm or "rel_rates", c["rel"]["rel"], P.r(g), old(P.r_show[1]), **d)
        if P.Q and "abs" in c["ab"]:
            mon.close(nm or "abs_rates", c["ab"]["abs"], P.Q(g), old(P.Q_show[1]), **d)
        if bounds:
            mon.ok("bounds", np.all(g >= bounds[0] * (1 - 1e-11)) and np.all(g <= bounds[1] * (1 + 1e-11)), got=[g[0], g[-1]], want=bounds, **d)
        # the blob shows the state reported to the callback
        live = nn > 0
        if live.any() and i % 4 == 0 or i == len(tr) - 1:
            new = np.zeros(N, bool)
            if bounds:  # empty bins may have been added or removed at the bounds
                new[:1] = new[-1:] = True
            k = live & ~new
            mon.close("blob_state", rec.nev[i][k], nn[k], 1e-6, **d)
        if merge:
            gap = np.diff(np.log10(g))
            # the ends of the distribution are never merged with their neighbours
            if groups == 1 and not bounds and method == "euler":
                gp, en = (g0, P.f(g0) * MEC2) if i == 0 else (tr[i - 1]["g"], sum(tr[i - 1]["en"].values()))
                moved = gp + en / MEC2 * dt[i]
                if np.all(np.diff(np.log10(moved)) > 1e-9):
                    mon.close("merge_ends", g[[0, -1]], moved[[0, -1]], 1e-7 if i else 1e-6, **d)
            mon.ok("merge_distance", np.all(gap[1:-1] > merge * (1 - thr_n) * 0.4), gap=float(gap[1:-1].min()), merge=merge, **d)
        elif not bounds:
            mon.ok("no_merge", N == g0.size, N=N, **d)
    # ---- limits per step --------------------------------------------------------
    if mode == "auto" and not bounds:
        G = [g0] + [c["g"] for c in tr]
        for i in range(len(dt)):
            a, b = G[i], G[i + 1]
            if a.shape != b.shape:
                break
            nb = n0 if i == 0 else tr[i - 1]["n"]
            sb = None if i == 0 else tr[i - 1]["sub"]
            h = 0.1 if method == "heun" else 1e-3
            mon.ok("energy_limit", np.max(np.abs(b / a - 1)) <= thr * (1 + 0.01 + h), step=i, got=float(np.max(np.abs(b / a - 1))), thr=thr)
            f, df = P.f(a), P.df(a)
            lim = [thr * a / np.abs(f)] if P.terms else []
            # the widths of the bins, compressed (dilated) by the energy changes
            if P.terms:
                with np.errstate(all="ignore"):
                    lim.append(np.where(df > 0, thr_n / df, np.where(df < 0, -thr_n / (1 + thr_n) / df, np.inf)))
            if P.r:
                r = P.r(a)
                lim.append(np.where(r > 0, thr_n / r, -min(0.5, thr_n / (1 + thr_n)) / r))
            if P.Q:
                q = P.Q(a)
                lim.append(inj / q)
                mon.ok("injection_limit", np.max(q) * dt[i] <= inj * (1 + 1e-6), step=i)
            w = float(np.min([np.min(x) for x in lim])) if lim else np.inf
            if i < len(dt) - 1:
                mon.ok("longest_step", 0.97 < dt[i] / w < 1.03, step=i, dt=dt[i], want=w)
            else:
                mon.ok("longest_step", dt[i] / w < 1.03, step=i, dt=dt[i], want=w)
            if not P.Q and method == "euler":
                x = np.log(tr[i]["n"] / np.where(nb > 0, nb, 1))[(nb > 1e-280) & (tr[i]["n"] > 1e-280)]
                both = np.log1p(thr_n) * (2 if P.r and P.terms else 1)
                mon.ok("density_limit", x.size == 0 or np.max(np.abs(x)) <= both * 1.02 + 1e-9 or (P.r and thr_n > 0.9), step=i, got=float(np.max(np.abs(x))) if x.size else 0, want=both)
    # ---- after the run ----------------------------------------------------------
    z = tr[-1]
    mon.close("final", res.gamma, z["g"], 1e-14)
    mon.close("final", res.density.to_value("cm-3"), z["n"], 1e-14)
    mon.close("final", res.density_subgroups, z["sub"], 1e-14)
    for A, B in ((res.en_chg_rates, z["en"]), (res.rel_inj_rates, z["rel"]), (res.abs_inj_rates, z["ab"])):
        mon.ok("final", sorted(A) == sorted(B))
        for k in A:
            mon.close("final", A[k].cgs.value, B[k], 1e-12)
    for r, c in zip(rec.raw, tr):
        mon.ok("history_kept", abs(float(r.total_time.to_value("s")) - c["t"]) < 1e-12 * P.T and np.array_equal(r.gamma, c["g"]) and np.array_equal(r.density.to_value("cm-3"), c["n"])
               and np.array_equal(r.density_subgroups, c["sub"]) and all(np.array_equal(r.en_chg_rates[k].to_value("erg s-1"), c["en"][k]) for k in c["en"]))
    mon.ok("arguments_kept", all(digest(kw[k]) == v for k, v in keep.items()) and digest(ne0) == ne_state and np.array_equal(arr, g0))
    mon.ok("arguments_kept", blob_state == (P.blob.B, P.blob.R_b, P.blob.z, P.blob.gamma_e_size))
    for k, w in W.items():
        mon.ok("called_with", not w.bad and w.n > 0, fn=k, bad=w.bad[:2], n=w.n)


def empty(rng, mon, tier):
    """starting without particles: injection fills the blob, nothing comes from nothing"""
    from agnpy.time_evolution import TimeEvolution, fermi_acceleration, synchrotron_loss
    from agnpy.spectra import EmptyDistribution
    from agnpy.synchrotron import Synchrotron
    P = Problem(rng, absl=bool(rng.random() < 0.7))
    lo, hi = P.spec["gamma_min"], P.spec["gamma_max"]
    P.blob.n_e = EmptyDistribution(gamma_min=lo, gamma_max=hi)
    mon.case(**P.show())
    g0 = np.clip(P.grid(), lo, hi)
    rec = Recorder(P.blob)
    inj = float(np.max(P.Q(g0)) * P.T / 30) if P.Q else 1.0
    res = TimeEvolution(P.blob, gen_time(rng, P.T), **P.functions("dict"), initial_gamma_array=g0, merge_bins_closer_than=None, optimize_recalculating_slow_rates=False,
                        max_injection_per_interval=inj, distribution_change_callback=rec).evaluate()
    n = mon.val("density", res.density, "cm-3")
    mon.feature("empty")
    mon.nontrivial = True
    mon.ok("density", np.all(n > 0) if P.Q else np.all(n == 0), n=list(n))
    for c, ne in zip(rec.copy, rec.nev):
        mon.close("blob_state", ne, c["n"], 1e-6)


def absolute(rng, mon, tier):
    """absolute injection and escape, of both signs along the distribution: the limit per step holds for both"""
    from agnpy.time_evolution import TimeEvolution
    P = Problem(rng, energy=[str(rng.choice(["fermi", "adiabatic"]))] if rng.random() < 0.6 else [], rel=False, absl=False)
    g0, lo, hi = P.grid(), P.spec["gamma_min"], P.spec["gamma_max"]
    n0 = ref.n_of(P.spec, np.clip(g0, lo, hi))
    ok = n0 > 1e-200
    s, g1 = float(rng.uniform(-2, 2)), gen.logu(rng, lo, hi)
    sign = str(rng.choice(["escape", "escape", "injection", "both"]))
    sg = {"escape": lambda g: -1.0 + 0 * g, "injection": lambda g: 1.0 + 0 * g, "both": lambda g: np.where(g < g1, -1.0, 1.0)}[sign]
    shape = lambda g: (g / lo) ** s
    if P.terms:
        P.T = min(P.T, 0.3 / abs(P.terms[0].a))
    q0 = float(rng.uniform(0.1, 0.5)) * float(np.min(n0 / shape(g0))) / P.T
    mon.case(sign=sign, s=s, g1=g1, q0=q0, **P.show())
    if not (np.all(ok) and q0 > 0):
        return
    Q = lambda g: sg(g) * q0 * shape(g)
    thr, inj = float(rng.choice([0.3, 0.05])), float(np.max(np.abs(Q(g0)))) * P.T / float(rng.uniform(5, 40))
    fn = lambda p: Q(np.asarray(p.gamma, float)) * u.Unit("cm-3 s-1")
    groups = int(rng.integers(1, 3))
    kw = {}
    names = [t.name for t in P.terms]
    if groups > 1:
        kw["subgroups"] = [list(names) + ["q"], list(names)]
    rec = Recorder(P.blob)
    mon.feature(sign, f"groups{groups}")
    res = TimeEvolution(P.blob, gen_time(rng, P.T), P.functions("dict")["energy_change_functions"], abs_injection_functions={"q": fn}, distribution_change_callback=rec,
                        max_energy_change_per_interval=thr, max_density_change_per_interval=0.9, max_injection_per_interval=inj,
                        optimize_recalculating_slow_rates=bool(rng.random() < 0.3), merge_bins_closer_than=None, **kw).evaluate()
    tr = rec.copy
    G = [g0] + [c["g"] for c in tr]
    dt = np.diff([0.0] + [c["t"] for c in tr])
    mon.counts["steps"] += len(tr)
    mon.nontrivial = True
    for i in range(len(dt)):
        big = float(np.max(np.abs(Q(G[i]))))
        mon.ok("injection_limit", big * dt[i] <= inj * (1.15 if P.terms else 1 + 1e-6), step=i, got=big * dt[i], want=inj)
        if not P.terms and i < len(dt) - 1:
            mon.ok("longest_step", big * dt[i] >= inj * (1 - 1e-6), step=i, got=big * dt[i], want=inj)
    n = mon.val("density", res.density, "cm-3")
    if not P.terms:
        mon.close("density", n, n0 + Q(g0) * P.T, 1e-6, 1e-300)
    mon.ok("density", np.all(n > 0), n=list(n))


def relative(rng, mon, tier):
    """relative injection and escape, of both signs along the distribution: the limit per step holds for both; never more than a half of a bin escapes in a step"""
    from agnpy.time_evolution import TimeEvolution
    P = Problem(rng, energy=[], rel=False, absl=False)
    g0, lo, hi = P.grid(), P.spec["gamma_min"], P.spec["gamma_max"]
    n0 = ref.n_of(P.spec, np.clip(g0, lo, hi))
    s, g1 = float(rng.uniform(-1, 1)), gen.logu(rng, lo, hi)
    sign = str(rng.choice(["escape", "injection", "both"]))
    sg = {"escape": lambda g: -1.0 + 0 * g, "injection": lambda g: 1.0 + 0 * g, "both": lambda g: np.where(g < g1, -1.0, 1.0)}[sign]
    T = gen.logu(rng, 1e2, 1e8)
    big = max(1.0, (lo / hi) ** s)
    R = lambda g: sg(g) * (g / hi) ** s / big * x / T
    x = float(rng.uniform(0.5, 3))
    thr = float(rng.choice([0.02, 0.1, 0.3, 1.0, 3.0]))
    opt, method = bool(rng.random() < 0.3), str(rng.choice(["euler", "heun"]))
    groups = int(rng.integers(1, 3))
    mon.case(sign=sign, s=s, g1=g1, x=x, T2=T, thr=thr, opt=opt, groups=groups, **P.show())
    mon.feature(sign, f"groups{groups}", f"thr{thr:g}", "opt" if opt else method)
    # both groups have a half of the particles and the same rates
    names = ["a", "b"]
    # an energy change that is too slow to matter
    en = {"en": lambda p: 1e-12 / T * np.asarray(p.gamma, float) * MEC2 * u.Unit("erg s-1")} if rng.random() < 0.5 else {}
    kw = dict(subgroups=[list(en) + ["a"], list(en) + ["b"]], subgroups_initial_density=np.full((2, g0.size), 0.5), initial_gamma_array=g0) if groups > 1 else {}
    fn = lambda p: R(np.asarray(p.gamma, float)) * u.Unit("s-1")
    rel = {"a": fn, "b": lambda p: fn(p)} if groups > 1 else {"a": fn}
    rec = Recorder(P.blob)
    res = TimeEvolution(P.blob, gen_time(rng, T), en, rel, distribution_change_callback=rec, max_energy_change_per_interval=0.5, max_density_change_per_interval=thr,
                        optimize_recalculating_slow_rates=opt, method="euler" if opt else method, merge_bins_closer_than=None, **kw).evaluate()
    tr = rec.copy
    dt = np.diff([0.0] + [c["t"] for c in tr])
    mon.counts["steps"] += len(tr)
    mon.nontrivial = True
    r = R(g0)
    up, down = float(np.max(r)), float(np.max(-r))
    want = min(thr / up if up > 0 else np.inf, min(0.5, thr / (1 + thr)) / down if down > 0 else np.inf)
    n, ok = n0, n0 > 1e-200
    for i in range(len(dt)):
        if i < len(dt) - 1 and not opt:
            mon.ok("longest_step", 0.999 < dt[i] / want < 1.001, step=i, dt=dt[i], want=want)
        else:
            mon.ok("longest_step", dt[i] < want * 1.001, step=i, dt=dt[i], want=want)
        q = (tr[i]["n"] / np.where(ok, n, 1))[ok]
        mon.ok("density_limit", q.size == 0 or np.all(q <= 1 + thr * 1.001) and np.all(q >= max(0.5, 1 / (1 + thr)) * 0.999), step=i, got=list(q), thr=thr)
        n = tr[i]["n"]
    mon.ok("density", np.all(n[ok] > 0), n=list(n))
    # one step after the other, each with its factor
    if not opt:
        f = np.prod([1 + r * d for d in dt], axis=0)
        mon.close("density", mon.val("density", res.density, "cm-3"), n0 * f, 1e-6, 1e-300)


def static(rng, mon, tier):
    """bins which lie exactly on the bounds are within them: without energy changes they stay, and nothing is added"""
    from agnpy.time_evolution import TimeEvolution
    P = Problem(rng, energy=[], rel=bool(rng.random() < 0.5), absl=bool(rng.random() < 0.5))
    lo, hi = P.spec["gamma_min"], P.spec["gamma_max"]
    g0 = np.geomspace(lo, hi, P.size)
    g0[0], g0[-1] = lo, hi * (1 - gen.logu(rng, 2e-4, 0.05))  # the width of the last bin lies within the bounds too
    mid = float(np.sqrt(lo * hi))
    # energies change in the middle only, not at the ends
    a = float(rng.choice([-1, 1])) * float(rng.uniform(0, 0.02)) / P.T
    move = bool(rng.random() < 0.5)
    f = lambda g: a * g * np.exp(-0.5 * (np.log(g / mid) / 0.1 / np.log(hi / lo) * 2) ** 2) * ((g > lo * 1.01) & (g < hi * 0.99)) * move
    en = {"en": lambda p: f(np.asarray(p.gamma, float)) * MEC2 * u.Unit("erg s-1")}
    fns = P.functions("dict")
    fns["energy_change_functions"] = en
    opt = bool(rng.random() < 0.5)
    mon.case(a=a, move=move, opt=opt, **P.show())
    mon.feature("static", "opt" if opt else "all")
    rec = Recorder(P.blob)
    inj = float(np.max(P.Q(g0)) * P.T / 30) if P.Q else 1.0
    res = TimeEvolution(P.blob, gen_time(rng, P.T), initial_gamma_array=g0, gamma_bounds=(lo, hi), merge_bins_closer_than=None, max_injection_per_interval=inj,
                        optimize_recalculating_slow_rates=opt, max_energy_change_per_interval=0.05, max_density_change_per_interval=0.3, distribution_change_callback=rec, **fns).evaluate()
    mon.nontrivial = True
    n0 = ref.n_of(P.spec, np.clip(g0, lo, hi))
    for i, c in enumerate(rec.copy):
        g = c["g"]
        if not mon.ok("bounds_kept", g.size == g0.size and abs(g[0] / lo - 1) < 1e-9 and abs(g[-1] / g0[-1] - 1) < 1e-9, step=i, got=[g.size, g[0], g[-1]], want=[g0.size, lo, g0[-1]]):
            return
    if not (P.r or P.Q):
        n = mon.val("density", res.density, "cm-3")
        mon.close("density", n[[0, -1]], n0[[0, -1]], 1e-6, 1e-300)


def boundary(rng, mon, tier):
    """bins that shift beyond the bounds are removed; once the first (last) bin has crept further than documented
    towards the centre, an empty bin is added at the bound, and never otherwise"""
    from agnpy.time_evolution import TimeEvolution
    P = Problem(rng, energy=[], rel=False, absl=False, size=(8, 40))
    lo, hi = P.spec["gamma_min"], P.spec["gamma_max"]
    creep = gen.logu(rng, 5e-3, 0.3)
    inset = [10 ** (float(rng.uniform(0.0, 2.0)) * creep) if rng.random() < 0.5 else 1.0 for _ in range(2)]
    g0 = np.geomspace(lo * inset[0], hi / inset[1] * (1 - 2e-3), P.size)
    if not np.all(np.diff(g0) > 0) or g0[0] < lo:
        g0[0] = max(g0[0], lo)
    x = 0.0 if rng.random() < 0.2 else gen.logu(rng, 0.05, 2.0) * float(rng.choice([-1, 1]))
    mode = str(rng.choice(["auto", "fixed"]))
    N = int(rng.integers(5, 30))
    thr = float(rng.uniform(0.01, 0.08))
    rate = x / P.T
    en = {"en": lambda p: rate * np.asarray(p.gamma, float) * MEC2 * u.Unit("erg s-1")}
    kw = dict(step_duration=P.T / max(N, 10 * abs(x)) * u.s) if mode == "fixed" else dict(max_energy_change_per_interval=thr, max_density_change_per_interval=2 * thr)
    mon.case(x=x, mode=mode, creep=creep, inset=inset, N=N, thr=thr, **P.show())
    mon.feature("boundary_" + mode, "gain" if x > 0 else "loss" if x < 0 else "still")
    rec = Recorder(P.blob)
    TimeEvolution(P.blob, gen_time(rng, P.T), en, initial_gamma_array=g0, gamma_bounds=(lo, hi), max_bin_creep_from_bounds=creep, merge_bins_closer_than=None, distribution_change_callback=rec, **kw).evaluate()
    mon.nontrivial = True
    g, t = g0, 0.0
    for i, c in enumerate(rec.copy):
        s = 1 + rate * (c["t"] - t)
        m = g * s
        t = c["t"]
        inside = m[(m > lo * (1 - 1e-12)) & (m < hi * (1 - 1e-3))]
        unsure = m[(m >= hi * (1 - 1e-3)) & (m <= hi * (1 + 1e-12))]
        new = c["g"]
        # what was there before
        k = np.searchsorted(new, inside * (1 - 1e-9))
        mon.ok("bins_moved", np.all(k < new.size) and np.allclose(new[np.minimum(k, new.size - 1)], inside, rtol=1e-9), step=i, n=[int(inside.size), int(new.size)])
        rest = np.array([y for y in new if not np.any(np.abs(y / m - 1) < 1e-9)]) if new.size else new
        low, high = rest[rest < m[0]], rest[rest > m[-1]]
        if not mon.ok("bins_added", low.size <= 1 and high.size <= 1 and low.size + high.size == rest.size, step=i, rest=rest):
            return
        if low.size:
            mon.ok("bins_added", abs(low[0] / lo - 1) < 1e-9 and x > 0 and c["n"][0] == 0, step=i, got=low[0], want=lo, n=c["n"][0])
        if high.size:
            mon.ok("bins_added", abs(high[0] / hi - 1) < 2e-3 and high[0] <= hi * (1 + 1e-12) and x < 0 and c["n"][-1] == 0, step=i, got=high[0], want=hi, n=c["n"][-1])
        if inside.size:
            d = np.log10(inside[0] / lo) - creep
            if x > 0 and abs(d) > 1e-6:
                mon.ok("bins_added", bool(low.size) == (d > 0), step=i, distance=d, creep=creep)
            d = np.log10(hi / inside[-1]) - creep
            if x < 0 and abs(d) > 2e-3 and not unsure.size:
                mon.ok("bins_added", bool(high.size) == (d > 0), step=i, distance=d, creep=creep)
        g = new
        if g.size == 0:
            return


KINDS = {"boundary": (boundary, 40, 600), "trace": (trace, 130, 1500), "empty": (empty, 6, 100), "absolute": (absolute, 40, 600), "relative": (relative, 40, 600), "static": (static, 20, 300)}
