"""C31: every evaluation of a valid configuration is finite and physical."""
import warnings
import numpy as np
import astropy.units as u
from lib import gen, ref, catalog

PID = "C31"
RULE = "distinct (extreme configuration, evaluations) with non-null results"
ASSUMPTIONS = ["positions different from the radius of the shell of the broad line region (where the density of photons diverges)",
               "opacities may be negative by rounding (1e-12); the distance from the disk is below 1e6 times its inner radius",
               "EBL: redshifts and energies within the tables"]
MONITORS = ["finite", "non_negative", "absorption_range", "scalars_finite", "opacity", "cosines", "shape", "extreme_seen"]
CASE_TIMEOUT = 300
HEAVY = {"ec_disk", "ec_blr", "tau_disk", "tau_blr", "abs_disk", "abs_blr"}


def extreme(rng, w):
    """one or several parameters far from the usual values"""
    p, s, feats = w.p, w.spec, []
    k = "k" if w.tab is None else "norm"
    opts = ["dense", "thin", "B_low", "B_high", "big", "small", "slow", "beamed", "debeamed", "far", "near", "narrow", "wide", "flat", "steep", "aligned", "misaligned", "hot_blr", "r_far", "r_near", "cold", "tiny_grid", "extreme_disk"]
    for f in rng.permutation(opts)[: int(rng.integers(0, 5))]:
        f = str(f)
        if w.tab is not None and f in ("narrow", "wide"):  # the table sets the bounds
            continue
        feats.append(f)
        if f == "dense":
            s[k] *= gen.logu(rng, 1e2, 1e10)
        elif f == "thin":
            s[k] *= gen.logu(rng, 1e-20, 1e-3)
        elif f == "B_low":
            p["B"] = gen.logu(rng, 1e-9, 1e-4)
        elif f == "B_high":
            p["B"] = gen.logu(rng, 1e2, 1e6)
        elif f == "big":
            p["R_b"] = gen.logu(rng, 1e18, 1e22)
        elif f == "small":
            p["R_b"] = gen.logu(rng, 1e9, 1e14)
        elif f == "slow":
            p["Gamma"], p["delta"] = 1.0 + gen.logu(rng, 1e-6, 1e-1), 1.0
        elif f == "beamed":
            p["Gamma"] = gen.logu(rng, 50, 1e3)
            p["delta"] = p["Gamma"] * (1 + np.sqrt(1 - p["Gamma"] ** -2))
        elif f == "debeamed":
            p["delta"] = gen.logu(rng, 1e-3, 1) / p["Gamma"] + 1 / (2 * p["Gamma"])
        elif f == "far":
            p["z"] = float(rng.uniform(2, 10))
        elif f == "near":
            p["z"] = gen.logu(rng, 1e-6, 1e-2)
        elif f == "narrow":
            r = s["gamma_max"] / s["gamma_min"]
            s["gamma_max"] = s["gamma_min"] * gen.logu(rng, 1.01, 3)
        elif f == "wide":
            s["gamma_min"], s["gamma_max"] = 1.0, gen.logu(rng, 1e8, 1e12)
        elif f == "flat":
            for q in ("p", "p1", "p2"):
                if q in s:
                    s[q] = float(rng.uniform(-1, 1))
        elif f == "steep":
            for q in ("p", "p2"):
                if q in s:
                    s[q] = float(rng.uniform(4, 8))
        elif f == "aligned":
            w.mu_s = 1.0
        elif f == "misaligned":
            w.mu_s = float(np.cos(rng.choice([1e-7, 1e-4, 0.7, 1.2, 1.5])))
        elif f == "hot_blr":
            w.blr["R"] = gen.logu(rng, 1e15, 1e19)
            w.r["blr"] = w.blr["R"] * float(rng.choice([1e-3, 0.5, 0.99, 0.9999, 1.0001, 1.01, 2, 1e3]))
        elif f == "r_far":
            w.r = {q: v * gen.logu(rng, 10, 1e4) for q, v in w.r.items()}
            # its inner edge is seen from there under an angle whose cosine is not one
            w.r["disk"] = min(w.r["disk"], 1e6 * w.disk["Rin"])
        elif f == "r_near":
            w.r = {q: v * gen.logu(rng, 1e-3, 0.1) for q, v in w.r.items()}
        elif f == "cold":
            w.dt["T"] = gen.logu(rng, 1, 100)
        elif f == "tiny_grid":
            w.size, w.sizes = int(rng.integers(3, 12)), (3, 3)
        elif f == "extreme_disk":
            w.disk["eta"] = gen.logu(rng, 1e-3, 1)
            w.disk["L"] = gen.logu(rng, 1e38, 1e49)
    # Doppler factors that a direction of motion can give
    top = p["Gamma"] * (1 + np.sqrt(1 - p["Gamma"] ** -2))
    p["delta"] = float(np.clip(p["delta"], 1 / top * (1 + 1e-9), top * (1 - (0 if "beamed" in feats else 1e-9))))
    if rng.random() < 0.05:
        p["delta"] = top
    return feats


def wide_arg(rng, w, kind, n):
    """half within the usual range, half anywhere"""
    v = w.arg(rng, kind, n)
    if kind == "nuebl":  # within the tables of all the models
        return np.clip(v, 2e25, 1e27)
    if kind == "gamma":
        x = 10 ** rng.uniform(0, 14, n)
    elif kind.startswith("nu") and kind != "nuebl":
        x = 10 ** rng.uniform(*((0, 36) if rng.random() < 0.3 else (8, 31)), n)
    else:
        return v
    return np.where(rng.random(n) < 0.5, v, x)


def case(rng, mon, tier):
    w = catalog.World(rng)
    feats = extreme(rng, w)
    mon.feature("usual" if not feats else "extreme", *feats)
    mon.counts["extreme_seen"] += bool(feats)
    mon.case(**w.show())
    o = w.build()
    c = w.calls(o)
    for lab in [str(x) for x in rng.permutation(sorted(c))[:14]]:
        f, kind, un = c[lab]
        if lab == "ebl" and not 0.05 < w.p["z"] < 2:
            continue
        n = int(rng.integers(1, 5 if lab.split("_")[0] in ("ec", "tau", "abs") else 12))
        v = wide_arg(rng, w, kind, n)
        y = mon.val(lab, f(w.quantity(kind, v)), un)
        mon.feature(lab)
        mon.ok("shape", y.shape == (n,), label=lab, got=y.shape, want=n)
        bad = ~np.isfinite(y)
        if not mon.ok("finite", not bad.any(), label=lab, at=list(v[bad][:4]) if y.shape == v.shape else list(v), values=[str(t) for t in y[bad][:4]], features=feats):
            continue
        if np.any(y != 0):
            mon.nontrivial = True
        if lab.startswith("abs_") or lab == "ebl":
            mon.ok("absorption_range", np.all((y >= -1e-12) & (y <= 1 + 1e-9)), label=lab, values=list(y))
        elif lab.startswith("tau"):
            mon.ok("opacity", np.all(y >= -1e-12 * max(1.0, float(np.max(np.abs(y))))), label=lab, values=list(y), at=list(v))
        elif lab == "n_e_ssa":
            continue  # of either sign
        else:
            mon.ok("non_negative", np.all(y >= 0), label=lab, values=list(y[y < 0]), at=list(v[y < 0]), features=feats)
    sc = w.scalars(o)
    for lab in sorted(sc):
        fn, un = sc[lab]
        x = float(mon.val(lab, fn(), un))
        mon.ok("scalars_finite", np.isfinite(x), label=lab, got=str(x), features=feats)
        if lab in ("blob.mu_s",):
            mon.ok("cosines", -1 <= x <= 1, label=lab, got=x)
        elif lab not in ("disk.l_Edd",):
            mon.ok("non_negative", x >= 0, label=lab, got=x, features=feats)


KINDS = {"case": (case, 500, 3000)}
