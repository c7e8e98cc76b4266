"""C23: the time evolution converges to the solution of the kinetic equation."""
import numpy as np
import astropy.units as u
from lib import gen, ref
from lib.tevol import Problem, Recorder, Term, gen_time, MEC2

PID = "C23"
RULE = "distinct (initial distribution, processes, duration, method) with particles at the end"
ASSUMPTIONS = ["reference: the kinetic equation solved along its characteristics to 1e-8",
               "tolerance: twice the difference between the exact solution and the documented scheme for the same time steps, plus 2e-3, never above 6 thresholds per e-fold",
               "runs of at most ~2.5 e-folds of the fastest energy change, on 12-40 bins"]
MONITORS = ["feedback", "gamma", "density", "gamma_fixed", "density_fixed", "gamma_auto", "density_auto", "conserved", "bounds_density", "ssc_gamma", "ssc_density", "ssc_kn", "merged", "elapsed", "closed_form"]
CASE_TIMEOUT = 300


def steps(rec):
    return np.diff([0.0] + [c["t"] for c in rec.copy])


def compare(mon, tag, P, res, est, g0, n0, thr, efold):
    g, n = np.asarray(res.gamma), mon.val("density", res.density, "cm-3")
    ex = P.exact(g0, n0, P.T)
    if not mon.ok("elapsed", abs(mon.val("t", res.total_time, "s") / P.T - 1) < 1e-9 and g.shape == ex[0].shape, n=len(g), want=len(ex[0]), t=str(res.total_time)):
        return
    cap = 6 * thr * (1 + efold) + 2e-3
    tg = np.minimum(2 * np.abs(est[0] - ex[0]) / ex[0] + 2e-3, cap)
    mon.close("gamma" + tag, g / ex[0], np.ones_like(g), 0, tg, scheme=list(est[0] / ex[0]))
    sc = np.maximum(np.abs(ex[1]), 1e-12 * np.max(np.abs(ex[1])))
    tn = np.minimum(2 * np.abs(est[1] - ex[1]) / sc + 4e-3, 4 * cap if not P.r and not P.Q else np.inf)
    mon.close("density" + tag, n / sc, ex[1] / sc, 0, tn, scheme=list(est[1] / sc))


def run(rng, P, mon, method="euler", form=None, **kw):
    from agnpy.time_evolution import TimeEvolution
    rec = Recorder(P.blob)
    res = TimeEvolution(P.blob, gen_time(rng, P.T), **P.functions(form or str(rng.choice(["dict", "list", "single"]))), method=method,
                        distribution_change_callback=rec, **kw).evaluate()
    return res, rec


def efolds(P):
    g = P.grid()
    return float(np.max(np.abs(P.f(g) / g)) * P.T)


def auto(rng, mon, tier):
    """automatic steps, all the bins together"""
    P = Problem(rng)
    method = str(rng.choice(["euler", "heun"]))
    thr = float(rng.choice([0.03, 0.01]))
    mon.case(method=method, thr=thr, **P.show())
    g0, n0 = P.grid(), ref.n_of(P.spec, P.grid())
    # a limit on the injection that keeps its error below that of the energy changes
    kw = dict(max_energy_change_per_interval=thr, max_density_change_per_interval=10 * thr, optimize_recalculating_slow_rates=False, merge_bins_closer_than=None)
    kw["max_injection_per_interval"] = float(np.max(P.Q(g0)) * P.T / 40) if P.Q else 1.0
    res, rec = run(rng, P, mon, method, **kw)
    mon.feature(method, *[t.name for t in P.terms], "rel" if P.r else "norel", "abs" if P.Q else "noabs")
    mon.counts["steps"] += len(rec.copy)
    compare(mon, "", P, res, P.scheme(g0, n0, steps(rec), method), g0, n0, thr, efolds(P))


def fixed(rng, mon, tier):
    """steps of equal length, the last one shorter"""
    P = Problem(rng, x=(0.05, 0.8))
    method = str(rng.choice(["euler", "heun"]))
    g0, n0 = P.grid(), ref.n_of(P.spec, P.grid())
    ns = float(rng.uniform(15, 60)) if rng.random() < 0.7 else float(rng.integers(15, 60))
    fm = max(efolds(P), float(np.max(np.abs(P.df(g0))) * P.T), float(np.max(np.abs(P.r(g0))) * P.T) if P.r else 0)
    ns = max(ns, 8 * fm)
    mon.case(method=method, ns=ns, **P.show())
    dt = P.T / ns
    res, rec = run(rng, P, mon, method, step_duration=gen_time(rng, dt), merge_bins_closer_than=None)
    s = steps(rec)
    mon.counts["steps"] += len(s)
    compare(mon, "_fixed", P, res, P.scheme(g0, n0, s, method), g0, n0, fm / ns, fm)


def default(rng, mon, tier):
    """default settings: slow bins are recalculated less often"""
    P = Problem(rng, absl=False)
    thr = float(rng.choice([0.03, 0.01]))
    mon.case(thr=thr, **P.show())
    g0, n0 = P.grid(), ref.n_of(P.spec, P.grid())
    kw = {} if thr == 0.01 else dict(max_energy_change_per_interval=thr)
    res, rec = run(rng, P, mon, merge_bins_closer_than=None, **kw)
    mon.counts["steps"] += len(rec.copy)
    mon.feature("optimised")
    est, ex = P.per_bin(g0, n0, P.T, thr, 0.1), P.exact(g0, n0, P.T)
    # the error of a bin depends on the steps actually taken: the largest one over the bins
    big = ex[1] > 1e-12 * np.max(ex[1])
    est = [e * (1 + np.max(np.abs(s[m] / e[m] - 1))) for e, s, m in zip(ex, est, (big | True, big))]
    compare(mon, "_auto", P, res, est, g0, n0, thr, efolds(P))


def closed(rng, mon, tier):
    """processes with a solution in closed form; particles are conserved when there is no injection"""
    kind = str(rng.choice(["synch", "fermi", "adiabatic", "none"]))
    P = Problem(rng, energy=[] if kind == "none" else [kind], rel=kind == "none" and bool(rng.random() < 0.5), absl=False)
    mon.case(kind=kind, **P.show())
    g0, n0 = P.grid(), ref.n_of(P.spec, P.grid())
    mon.feature("closed_" + kind)
    res, rec = run(rng, P, mon, "heun", optimize_recalculating_slow_rates=False, merge_bins_closer_than=None, max_energy_change_per_interval=0.02)
    a = P.terms[0].a if P.terms else 0
    if kind == "synch":
        x = 1 + P.b * g0 * P.T
        g, n = g0 / x, n0 * x**2
    else:
        g, n = g0 * np.exp(a * P.T), n0 * np.exp(-a * P.T)
        if P.r:
            n = P.scheme(g0, n0, steps(rec))[1] if P.r else n
            mon.close("closed_form", n, n0 * np.exp(P.r(g0) * P.T), 0.6)
    got = mon.val("density", res.density, "cm-3")
    if got.shape != n.shape:
        mon.ok("elapsed", False, got=got.shape)
        return
    mon.close("closed_form", res.gamma, g, 1e-3)
    mon.close("closed_form", got, n, 6e-3)
    if not P.r:
        # number of particles between bins, exactly conserved by the continuity equation
        before = ref.loglog(n0, g0)
        after = ref.loglog(got, np.asarray(res.gamma))
        ga, na = P.exact(g0, n0, P.T) if kind != "none" else (g0, n0)
        mon.close("conserved", after, ref.loglog(na, ga), 1e-2)
        mon.close("conserved", after, before, 0.05 if g0[1] / g0[0] < 1.5 else 0.5)


def bounds(rng, mon, tier):
    """bins leaving the bounds disappear, new ones enter empty from the bound the particles come from"""
    sgn = str(rng.choice(["synch", "fermi", "adiabatic", "gain"]))
    P = Problem(rng, energy=[sgn], rel=bool(rng.random() < 0.3), absl=True, x=(0.3, 2.0))
    lo, hi = P.spec["gamma_min"], P.spec["gamma_max"]
    B = (lo * float(rng.choice([1.0, 0.5])), hi * float(rng.choice([1.0, 3.0])))
    g0 = np.clip(P.grid(), lo, hi)
    n0 = ref.n_of(P.spec, g0)
    if rng.random() < 0.5:
        B = (B[0], B[1] * (1 + 1e-3))
    creep = float(rng.choice([0.1, 0.05, 0.2]))
    mon.case(bounds=B, creep=creep, **P.show())
    thr = 0.02
    if P.terms[0].a < 0 and efolds(P) * B[1] / hi > 3:
        P.T *= 3 / (efolds(P) * B[1] / hi)
    res, rec = run(rng, P, mon, "heun", optimize_recalculating_slow_rates=False, merge_bins_closer_than=None, gamma_bounds=B, max_bin_creep_from_bounds=creep,
                   initial_gamma_array=g0, max_energy_change_per_interval=thr, max_injection_per_interval=float(np.max(P.Q(g0)) * P.T / 100))
    mon.counts["steps"] += len(rec.copy)
    g, n = np.asarray(res.gamma), mon.val("density", res.density, "cm-3")
    # birth of every bin: the steps at which a bin was there first
    mon.ok("bounds_density", np.all((g >= B[0] * (1 - 1e-12)) & (g <= B[1])), g=[g[0], g[-1]], B=B)
    last = np.diff(np.log10(g))
    inner = creep + thr * 2
    start = np.log10(g[0] / B[0]) if P.terms[0].a > 0 else np.log10(B[1] / g[-1])
    born = 0
    # characteristics: those of the initial bins still inside, and those entering from the bound
    ex = P.exact(g0, n0, P.T)
    inside = (ex[0] >= B[0]) & (ex[0] <= B[1] / (1 + 1e-4))
    safe = (ex[0] >= B[0] * 1.05) & (ex[0] <= B[1] / 1.05)
    for i in np.nonzero(safe)[0]:
        j = int(np.argmin(np.abs(np.log(g / ex[0, i]))))
        ok = abs(g[j] / ex[0, i] - 1) < 0.01
        mon.ok("bounds_density", ok, missing=float(ex[0, i]), nearest=float(g[j]))
        if ok:
            mon.close("bounds_density", n[j] / ex[1, i], 1.0, 0, 0.1, gamma=float(g[j]))
    # bins that entered from the bound: at time t* (backwards along the characteristic) they were empty
    from scipy.integrate import quad
    up = P.terms[0].a > 0
    e = B[0] if up else B[1] / (1 + 1e-4)
    first = np.argmin(ex[0]) if up else np.argmax(ex[0])
    for j in range(g.size):
        if (up and g[j] < ex[0, first] * 0.99) or (not up and g[j] > ex[0, first] * 1.01):
            t_in = quad(lambda y: np.exp(y) / float(P.f(np.array([np.exp(y)]))[0]), np.log(e), np.log(g[j]), epsrel=1e-8)[0]
            born += 1
            if not (0 <= t_in <= P.T * 1.01):
                mon.ok("bounds_density", False, gamma=float(g[j]), t_in=t_in, T=P.T)
                continue
            if t_in < P.T * 0.03:
                continue  # too short a life for its error to be small
            w = P.exact([e], [0.0], t_in)[1, 0]
            mon.close("bounds_density", n[j] / w, 1.0, 0, 0.15, gamma=float(g[j]), entered=True)
    mon.counts["bins_entered"] += born
    front = abs(np.log10(ex[0, first] / e))
    if front > 2.2 * creep and up | (B[1] > hi * 0):
        mon.ok("bounds_density", born >= 1 and start < creep * 1.6 + 0.05, front=front, born=born, start=start)


def ssc(rng, mon, tier):
    """self-Compton losses (Thomson limit, full) with the photons of the evolving blob"""
    from agnpy.time_evolution import ssc_thomson_limit_loss, ssc_loss, synchrotron_loss, TimeEvolution
    from agnpy.compton import SynchrotronSelfCompton
    from agnpy.synchrotron import Synchrotron
    P = Problem(rng, energy=[], rel=False, absl=False, size=(12, 20))
    b = P.blob
    th = bool(rng.random() < 0.5)
    both = bool(rng.random() < 0.5)
    c = SynchrotronSelfCompton(b)
    fns = {"c": ssc_thomson_limit_loss(c) if th else ssc_loss(c)}
    if both:
        fns["s"] = synchrotron_loss(Synchrotron(b))
    g0, n0 = P.grid(), ref.n_of(P.spec, P.grid())
    rate = (c.electron_energy_loss_rate_thomson if th else c.electron_energy_loss_rate)(g0).to_value("erg s-1") / MEC2
    rate = rate + (P.b * g0**2 if both else 0)
    T = float(rng.uniform(0.05, 0.6)) * float(np.min(g0 / rate))
    P.T = T
    mon.case(th=th, both=both, **P.show())
    rec = Recorder(b)
    thr = 0.03
    res = TimeEvolution(b, gen_time(rng, T), fns, distribution_change_callback=rec, optimize_recalculating_slow_rates=False,
                        max_energy_change_per_interval=thr, merge_bins_closer_than=None).evaluate()
    g, n = np.asarray(res.gamma), mon.val("density", res.density, "cm-3")
    if not mon.ok("elapsed", g.size == g0.size and abs(float(res.total_time.to_value("s")) / T - 1) < 1e-9):
        return
    t = np.array([0] + [x["t"] for x in rec.copy])
    # losses observed on fresh blobs with the recorded distributions
    from agnpy.emission_regions import Blob
    fresh = lambda ne: SynchrotronSelfCompton(Blob(R_b=b.R_b, n_e=ne, B=b.B, gamma_e_size=P.size))
    if th:
        U = [fresh(ne).electron_energy_loss_rate_thomson(np.array([1.0])).to_value("erg s-1")[0] / MEC2 for ne in [gen.build(P.spec)] + rec.ne]
        X = np.sum((np.array(U[1:]) + np.array(U[:-1])) / 2 * np.diff(t)) + (P.b * T if both else 0)
        x = 1 + X * g0
        ef = float(np.log(np.max(x)))
        mon.close("ssc_gamma", g, g0 / x, 2.5 * thr * (0.1 + ef) + 2e-3)
        mon.close("ssc_density", n, n0 * x**2, 8 * thr * (0.1 + ef) + 4e-3)
    else:
        f = lambda ne, y: fresh(ne).electron_energy_loss_rate(y).to_value("erg s-1") / MEC2 + (P.b * y**2 if both else 0)
        y = np.array(g0)
        ne = [gen.build(P.spec)] + rec.ne
        for i in range(len(t) - 1):
            dt = t[i + 1] - t[i]
            k1 = f(ne[i], y)
            k2 = f(ne[i + 1], y - k1 * dt)
            y = y - (k1 + k2) / 2 * dt
        ef = float(np.max(np.log(g0 / y)))
        mon.close("ssc_kn", g, y, 2.5 * thr * (0.1 + ef) + 2e-3)
        # number of particles between adjacent bins
        i0 = ref.loglog(n0, g0)
        mon.close("ssc_kn", ref.loglog(n, g), i0, 0.15 if g0[1] / g0[0] < 1.6 else 0.5)


def merged(rng, mon, tier):
    """default merging of close bins: the density is still the solution at the bins left"""
    P = Problem(rng, energy=["synch"], rel=False, absl=False, gmin=(10, 50), gmax=(1e4, 1e5), size=(150, 220))
    P.T = float(rng.uniform(3, 15)) / (P.b * P.spec["gamma_max"])
    mon.case(**P.show())
    res, rec = run(rng, P, mon, max_energy_change_per_interval=0.03, max_density_change_per_interval=0.3)
    g, n = np.asarray(res.gamma), mon.val("density", res.density, "cm-3")
    mon.counts["bins_merged"] += P.size - g.size
    mon.ok("merged", np.all(np.diff(g) > 0) and g.size <= P.size and abs(float(res.total_time.to_value("s")) / P.T - 1) < 1e-9, n=g.size)
    x = 1 - P.b * g * P.T
    ok = (x > 0.02) & (g / x > P.spec["gamma_min"] * 1.05) & (g / x < P.spec["gamma_max"] * 0.6)
    if P.spec["type"].startswith("Exp"):
        ok &= g / x < P.spec["gamma_c"] * 3
    w = ref.n_of(P.spec, g[ok] / x[ok]) / x[ok] ** 2
    # first-order errors of the Lorentz factors, amplified by the slope of the initial distribution
    x = x[ok]
    y = g[ok] / x
    with np.errstate(all="ignore"):
        slope = np.abs(np.log(ref.n_of(P.spec, y * 1.02) / ref.n_of(P.spec, y * 0.98)) / np.log(1.02 / 0.98))
    mon.close("merged", n[ok] / w, np.ones(ok.sum()), 0, 0.08 + (2 + slope) * 0.03 * (0.5 - np.log(x)) / x)


def feedback(rng, mon, tier):
    """energy changes that depend on the density of the particles at that moment: all bins are
    dilated by s, with ds/dt = A s (n(t) / n(0))^q = A s^(1 - q), i.e. s^q = 1 + q A t"""
    from agnpy.time_evolution import TimeEvolution
    P = Problem(rng, energy=[], rel=False, absl=False, size=(8, 40))
    g0, n0 = P.grid(), ref.n_of(P.spec, P.grid())
    q = float(rng.choice([-2, -1, 1, 2, 3])) if rng.random() < 0.6 else float(rng.uniform(0.3, 3) * rng.choice([-1, 1]))
    X = gen.logu(rng, 2e-3, 3e-2) * float(rng.choice([-1, 1]))
    N = int(rng.integers(1, 6))
    method = "heun" if rng.random() < 0.75 else "euler"
    T = gen.logu(rng, 1, 1e6)
    some = n0 > 1e-150 * np.max(n0)
    mid = int(rng.choice(np.nonzero(some)[0]))
    sub = rng.random() < 0.4
    nmid = float(n0[mid])

    def rate(p):
        d = p.densities.to_value("cm-3")[mid]
        if sub:
            d = d * np.sum(p.density_subgroups[:, mid])
        return X / T * (d / nmid) ** q * np.asarray(p.gamma) * MEC2 * u.Unit("erg s-1")

    mon.case(q=q, X=X, N=N, method=method, mid=mid, sub=bool(sub), **P.show())
    mon.feature("feedback_" + method)
    kw = dict(subgroups=[["a"]], subgroups_initial_density=np.ones((1, g0.size))) if sub and rng.random() < 0.5 else {}
    r = TimeEvolution(P.blob, T * u.s, {"a": rate}, initial_gamma_array=g0, step_duration=T / N * (1 + 1e-9) * u.s, method=method, merge_bins_closer_than=None, **kw).evaluate()
    g, n = np.asarray(r.gamma), mon.val("density", r.density, "cm-3")
    if not mon.ok("feedback", g.size == g0.size, got=g.size):
        return
    s = (1 + q * X) ** (1 / q)
    tol = (1 + q * q) * abs(X) ** 3 / N**2 if method == "heun" else (1 + abs(q)) * X**2 / N
    tol = tol + 1e-9
    mon.close("feedback", g / g0, np.full(g.size, s), tol)
    mon.close("feedback", (n[some] / n0[some]), np.full(np.sum(some), 1 / s), 1.2 * tol + 1e-7)


KINDS = {"feedback": (feedback, 60, 1500), "auto": (auto, 18, 300), "fixed": (fixed, 36, 500), "default": (default, 12, 250), "closed": (closed, 18, 200), "bounds": (bounds, 15, 250), "ssc": (ssc, 12, 120), "merged": (merged, 6, 60)}
