"""C04: self-absorption integrand gamma^2 d/dgamma (n/gamma^2)."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C04"
RULE = "distinct (distribution parameters) with a non-zero integrand observed"
ASSUMPTIONS = ["points closer than 1e-9 (relative) to a bound, but not on it, are not judged"]
MONITORS = ["law", "outside_zero", "finite_difference", "static=method", "shape", "linear"]


def case(rng, mon, tier):
    if rng.random() < 0.3:
        s, g0, n0 = gen.interp_spec(rng)
        d = gen.build_interp(s, g0, n0)
    else:
        s = gen.spectrum(rng)
        d = gen.build(s, unit=str(rng.choice(["cm-3", "m-3"])))
    mon.case(spec=gen.show(s))
    mon.feature(s["type"])
    lo, hi = s["gamma_min"], s["gamma_max"]
    g = 10 ** rng.uniform(np.log10(lo), np.log10(hi), int(rng.integers(4, 40)))
    out = np.array([lo / 3, lo * 0.999, hi * 1.001, hi * 5])
    edges = np.array([lo, hi])
    allg = np.concatenate([g, out, edges])
    if rng.random() < 0.5:
        allg = rng.permutation(allg)
    want = ref.ssa_of(s, allg)
    got = mon.val("ssa", d.SSA_integrand(allg), "cm-3")
    scale = ref.n_of(s, allg) / allg
    mon.close("law", got, want, 1e-7, 1e-9 * scale)
    z = mon.val("ssa", d.SSA_integrand(out), "cm-3")
    mon.ok("outside_zero", np.all(z == 0), got=list(z))
    # against the distribution's own values: gamma^2 d(n/gamma^2)/dgamma
    far = (g > lo * 1.001) & (g < hi / 1.001)
    if "gamma_b" in s:
        far &= np.abs(np.log(g / s["gamma_b"])) > 1e-3
    gi = g[far]
    if gi.size:
        h = 3e-5
        up, dn = gi * (1 + h), gi * (1 - h)
        n = lambda x: mon.val("n", d(x), "cm-3")
        fd = gi**2 * (n(up) / up**2 - n(dn) / dn**2) / (2 * h * gi)
        tolscale = n(gi) / gi * (1 + np.abs(ref.dlnn_dlng(s, gi))) ** 3
        mon.close("finite_difference", mon.val("ssa", d.SSA_integrand(gi), "cm-3"), fd, 1e-6, 1e-6 * tolscale)
    else:
        mon.counts["finite_difference"] += 0
    st = mon.val("ssa", d.evaluate_SSA_integrand(allg, *d.parameters), "cm-3")
    mon.close("static=method", st, got, 1e-12)
    mon.close("shape", mon.val("ssa", d.SSA_integrand(allg.reshape(-1, 1, 1)), "cm-3"), got.reshape(-1, 1, 1), 1e-12)
    x = float(g[0])
    mon.close("shape", np.ravel(mon.val("ssa", d.SSA_integrand(np.asarray([x])), "cm-3")), np.ravel(ref.ssa_of(s, np.asarray([x]))), 1e-7, 1e-9 * float(ref.n_of(s, x)) / x)
    if s["type"] == "Interpolated":
        d.norm = d.norm * 5
    else:
        d.k = d.k * 5
    mon.close("linear", mon.val("ssa", d.SSA_integrand(allg), "cm-3"), 5 * got, 1e-10)


KINDS = {"ssa_integrand": (case, 1250, 12000)}
