"""C03: integrals and moments of the distributions."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C03"
RULE = "distinct (distribution, limits, power, integrator)"
ASSUMPTIONS = [
    "accuracy: error at most 3 times that of the same quadrature rule on 200 logarithmic points, plus 1e-6, plus one bin for limits beyond the bounds",
]
MONITORS = ["accuracy", "accuracy:beyond_bounds", "additivity", "default_limits", "static", "power_shift", "empty"]


def _f(s, power, integ, lo, hi, n):
    g = np.logspace(np.log10(lo), np.log10(hi), n)
    if n > 1000:
        g[0], g[-1] = lo, hi
    return float(integ(ref.n_of(s, g) * g**power, g))


def truth(s, power, lo, hi):
    lo, hi = max(lo, s["gamma_min"]), min(hi, s["gamma_max"])
    if hi <= lo:
        return 0.0
    brk = s.get("gamma_b")
    if brk and lo < brk < hi:
        return truth(s, power, lo, brk) + truth(s, power, brk * (1 + 1e-13), hi)
    return _f(s, power, ref.loglog, lo, hi, 20001)


def case(rng, mon, tier):
    import agnpy.utils.math as m
    prod, name = gen.integrator(rng)
    integ = ref.INTEGRATORS[name]
    if rng.random() < 0.15:
        s, g, n = gen.interp_spec(rng)
        d = gen.build_interp(s, g, n, prod)
    else:
        s = gen.spectrum(rng)
        d = gen.build(s, integrator=prod, unit=str(rng.choice(["cm-3", "m-3"])))
    power = int(rng.choice([0, 0, 1, 1, 2, 3, -1]))
    if rng.random() < 0.15:
        power = float(rng.uniform(-1, 3))
    lo0, hi0 = s["gamma_min"], s["gamma_max"]
    a, b, c = np.sort(10 ** rng.uniform(np.log10(lo0), np.log10(hi0), 3)).tolist()
    mon.case(spec=gen.show(s), power=power, integ=name, a=a, b=b, c=c)
    mon.feature(s["type"], name, f"power={power if isinstance(power, int) else 'frac'}")
    val = lambda q: float(np.ravel(mon.val("integral", q, "cm-3"))[0])

    def tol(lo, hi):
        t = truth(s, power, lo, hi)
        e = abs(_f(s, power, integ, lo, hi, 200) - t)
        return t, 3 * e + 1e-6 * abs(t)

    t, e = tol(a, c)
    mon.close("accuracy", val(d.integrate(a, c, power)), t, 0, e)
    t, e = tol(lo0, hi0)
    full = val(d.integrate(gamma_power=power))
    mon.close("accuracy", full, t, 0, e)
    mon.close("default_limits", val(d.integrate(lo0, hi0, gamma_power=power)), full, 1e-9)
    mon.close("default_limits", val(d.integrate(gamma_low=b, gamma_power=power)), val(d.integrate(b, hi0, power)), 1e-9)
    mon.close("default_limits", val(d.integrate(gamma_up=b, gamma_power=power)), val(d.integrate(lo0, b, power)), 1e-9)
    t1, e1 = tol(a, b)
    t2, e2 = tol(b, c)
    t3, e3 = tol(a, c)
    mon.close("additivity", val(d.integrate(a, b, power)) + val(d.integrate(b, c, power)), val(d.integrate(a, c, power)), 0, e1 + e2 + e3)
    # limits beyond the bounds: nothing out there, one bin of slack at each edge
    lo, hi = lo0 / gen.logu(rng, 1.5, 30), hi0 * gen.logu(rng, 1.5, 30)
    t = truth(s, power, lo, hi)
    h = np.log(hi / lo) / 199
    slack = sum(ref.n_of(s, x) * x ** (power + 1) for x in (lo0, hi0)) * h * 1.2
    e = abs(_f(s, power, integ, lo, hi, 200) - t)
    mon.close("accuracy:beyond_bounds", val(d.integrate(lo, hi, power)), t, 0, 3 * e + slack + 1e-6 * abs(t))
    mon.ok("empty", val(d.integrate(hi0 * 2, hi0 * 20, power)) == 0)
    if s["type"] != "Interpolated":
        kw = {k: s[k] for k in gen.PAR_ORDER[s["type"]]}
        kw["k"] = kw["k"] * u.Unit("cm-3")
        cls = type(d)
        st = val(cls.integral(cls, gamma_low=a, gamma_up=c, gamma_power=power, integrator=prod, **kw))
        mon.close("static", st, val(d.integrate(a, c, power)), 1e-9)
    # moments: gamma ranges order the moments
    lo_m, hi_m = val(d.integrate(a, c, power)), val(d.integrate(a, c, power + 1))
    mon.ok("power_shift", a * lo_m * (1 - 1e-3) <= hi_m <= c * lo_m * (1 + 1e-3), lower=a * lo_m, got=hi_m, upper=c * lo_m)


KINDS = {"integrate": (case, 1050, 8000)}
