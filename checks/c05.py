"""C05: interpolated distributions reproduce their table."""
import numpy as np
import astropy.units as u
from scipy.interpolate import CubicSpline, PchipInterpolator, Akima1DInterpolator
from lib import gen, ref

PID = "C05"
RULE = "distinct (table, interpolator, norm)"
ASSUMPTIONS = ["tables have increasing Lorentz factors, densities in cm-3, at least 3 non-null values, null densities only at the ends"]
MONITORS = ["nodes", "between", "monotone_bounds", "outside_zero", "bounds", "norm_linear", "input_untouched", "unit_refused", "roundtrip", "scalar_nd"]
ITP = {"cubic": CubicSpline, "pchip": PchipInterpolator, "akima": Akima1DInterpolator}


def case(rng, mon, tier):
    from agnpy.spectra import InterpolatedDistribution
    base = gen.spectrum(rng, gmin=(1.5, 1e3), gmax=(1e4, 1e7), edge=False, types=["PowerLaw", "BrokenPowerLaw", "LogParabola", "ExpCutoffPowerLaw"])
    npt = int(rng.integers(8, 60))
    g = np.logspace(np.log10(base["gamma_min"]), np.log10(base["gamma_max"]), npt)
    if rng.random() < 0.3:  # irregular table
        g = np.unique(10 ** np.sort(rng.uniform(np.log10(base["gamma_min"]), np.log10(base["gamma_max"]), npt)))
    if rng.random() < 0.2:
        g = np.unique(np.round(g)).astype(int)
    n = ref.n_of(dict(base, gamma_min=0.1, gamma_max=1e9), g.astype(float))
    n = np.maximum(n, 1e-200) * 10 ** rng.normal(0, 0.05, n.size)
    pad_lo, pad_hi = (int(rng.integers(0, 3)), int(rng.integers(0, 3))) if rng.random() < 0.5 else (0, 0)
    if g.size - pad_lo - pad_hi < 5:
        pad_lo = pad_hi = 0
    n[:pad_lo] = 0
    if pad_hi:
        n[-pad_hi:] = 0
    which = str(rng.choice(list(ITP) + ["default"]))
    norm = float(rng.choice([1.0, 1.0, 2.5, 0.01]))
    kw = {} if which == "default" else {"interpolator": ITP[which]}
    mon.case(n_points=int(g.size), first=float(g[0]), last=float(g[-1]), which=which, norm=norm, pads=[pad_lo, pad_hi], dtype=str(g.dtype), n0=float(n[pad_lo]))
    mon.feature(which, f"pads={pad_lo > 0}{pad_hi > 0}", str(g.dtype))
    gq, nq = g.copy(), n.copy() * u.Unit("cm-3")
    d = InterpolatedDistribution(gq, nq, norm=norm, **kw)
    live = n > 0
    gl, nl = g[live].astype(float), n[live]
    mon.ok("input_untouched", np.array_equal(gq, g) and np.array_equal(nq.value, n))
    mon.ok("bounds", d.gamma_min == gl[0] and d.gamma_max == gl[-1], got=[d.gamma_min, d.gamma_max], want=[gl[0], gl[-1]])
    val = lambda x: mon.val("n", d(x), "cm-3")
    mon.close("nodes", val(gl), norm * nl, 1e-8)
    itp = ITP.get(which, CubicSpline)(np.log10(gl), np.log10(nl))
    x = 10 ** rng.uniform(np.log10(gl[0]), np.log10(gl[-1]), 40)
    got = val(x)
    mon.close("between", got, norm * 10 ** itp(np.log10(x)), 1e-7)
    if which == "pchip":
        i = np.clip(np.searchsorted(gl, x) - 1, 0, gl.size - 2)
        lo, hi = np.minimum(nl[i], nl[i + 1]) * norm, np.maximum(nl[i], nl[i + 1]) * norm
        mon.ok("monotone_bounds", np.all((got >= lo * (1 - 1e-9)) & (got <= hi * (1 + 1e-9))))
    else:
        mon.counts["monotone_bounds"] += 0
    out = np.array([gl[0] / 2, gl[0] * 0.999, gl[-1] * 1.001, gl[-1] * 30] + ([float(g[0])] if pad_lo else []) + ([float(g[-1])] if pad_hi else []))
    z = val(out)
    mon.ok("outside_zero", np.all(z == 0), got=list(z), at=list(out))
    mixed = rng.permutation(np.concatenate([x, out]))
    want = np.where((mixed >= gl[0]) & (mixed <= gl[-1]), norm * 10 ** itp(np.log10(np.clip(mixed, gl[0], gl[-1]))), 0)
    mon.close("scalar_nd", val(mixed.reshape(-1, 1)), want.reshape(-1, 1), 1e-7)
    d.norm = norm * 7
    mon.close("norm_linear", val(x), 7 * got, 1e-10)
    mon.close("norm_linear", mon.val("n", d.evaluate(x, 3.0, d.gamma_min, d.gamma_max), "cm-3"), 3 / norm * got, 1e-9)
    mon.raises("unit_refused", ValueError, lambda: InterpolatedDistribution(g.copy(), n * u.Unit(str(rng.choice(["m-3", "erg cm-3", "cm-2"])))))
    # tabulating an interpolated distribution and interpolating it again
    d2 = InterpolatedDistribution(gl.copy(), nl * u.Unit("cm-3"), **kw)
    d3 = InterpolatedDistribution(gl.copy(), d2(gl), **kw)
    mon.close("roundtrip", mon.val("n", d3(x), "cm-3"), mon.val("n", d2(x), "cm-3"), 1e-6)


KINDS = {"interpolated": (case, 1200, 10000)}
