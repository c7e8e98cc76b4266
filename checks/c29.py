"""C29: log-log integration, power-law integrals, axes for multi-dimensional integrals."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C29"
RULE = "distinct integrands with a non-null integral"
ASSUMPTIONS = ["tolerance 1e-5 (slopes within 1e-10 of -1 are integrated as exactly -1)"]
MONITORS = ["power_law", "pieces", "axis", "units", "zeros", "sign", "sign_change", "additive", "input_kept", "power_law_integral", "reshaper", "homogeneous", "2d_x", "near_minus_one"]


def grid(rng, n=None):
    n = n or int(rng.integers(2, 60))
    a = rng.uniform(-12, 12)
    return np.sort(10 ** rng.uniform(a, a + rng.uniform(0.5, 12), n))


def power(rng, mon, tier):
    from agnpy.utils.math import trapz_loglog, power_law_integral
    x = grid(rng)
    p = float(rng.uniform(-5, 5)) if rng.random() < 0.7 else float(rng.choice([-1.0, 0.0, 1.0, -2.0, -1 + 1e-7, -1 - 1e-12, -1 + 1e-9]))
    k = gen.logu(rng, 1e-20, 1e20) / x[0] ** p
    mon.case(x=[x[0], x[-1], x.size], p=p, k=k)
    y = k * x**p
    L = np.log(x[-1] / x[0])
    a = (p + 1) * L
    want = k * x[0] ** (p + 1) * L * (np.expm1(a) / a if a != 0 else 1.0)
    # a chain of power laws integrates a power law exactly, whatever the grid
    mon.close("power_law", np.asarray(trapz_loglog(y, x)), np.asarray(want), 1e-5, 0, x0=x[0], p=p)
    mon.close("power_law_integral", np.asarray(power_law_integral(k, -p, x[0], x[-1])), np.asarray(want), 1e-4 if abs(p + 1) < 1e-4 else 1e-8)


def near(rng, mon, tier):
    """slopes close to -1: there the integral changes from a power to a logarithm, continuously"""
    from agnpy.utils.math import trapz_loglog
    x = np.exp(rng.uniform(-3, 3) + np.cumsum(np.concatenate([[0.0], rng.uniform(1.0, 4.0, int(rng.integers(1, 5)))])))
    d = 10 ** rng.uniform(-7, -2) * float(rng.choice([-1, 1]))
    y = x ** (d - 1)
    mon.case(x=x, d=d)
    mon.feature("%d" % np.floor(np.log10(abs(d))))
    L = np.log(x)
    want = float(np.sum(np.exp(d * L[:-1]) * np.expm1(d * np.diff(L)) / d))
    # rounding: the slope is a ratio of differences of logarithms
    mon.close("near_minus_one", np.asarray(float(trapz_loglog(y, x))), np.asarray(want), 2e-15 * (4 + np.max(np.abs(L))) / abs(d) + 1e-13, 0, d=d)


def pieces(rng, mon, tier):
    from agnpy.utils.math import trapz_loglog
    x = grid(rng)
    n = x.size
    y = 10 ** rng.uniform(-8, 8, n)
    mode = str(rng.choice(["plain", "zeros", "sign", "mixed", "repeat"]))
    if mode == "zeros":
        y[rng.random(n) < 0.4] = 0
    if mode == "sign":
        y = -y
    if mode == "mixed":
        y[rng.random(n) < 0.5] *= -1
    if mode == "repeat" and n > 3:
        x[1] = x[2]
    mon.case(mode=mode, n=n, x0=x[0], y0=y[0])
    mon.feature(mode)
    kx, ky = x.copy(), y.copy()
    got = float(trapz_loglog(y, x))
    want = float(ref.loglog(y, x))
    scale = float(ref.loglog(np.abs(y), x))
    name = {"zeros": "zeros", "sign": "sign", "mixed": "sign_change"}.get(mode, "pieces")
    mon.close(name, np.asarray(got), np.asarray(want), 1e-6, 1e-7 * scale)
    mon.ok("input_kept", np.array_equal(x, kx) and np.array_equal(y, ky))
    # additivity at a grid point
    if n > 3:
        c = int(rng.integers(1, n - 1))
        mon.close("additive", np.asarray(float(trapz_loglog(y[:c + 1], x[:c + 1])) + float(trapz_loglog(y[c:], x[c:]))), np.asarray(got), 1e-9, 1e-10 * scale)
    f, g = gen.logu(rng, 1e-6, 1e6), gen.logu(rng, 1e-6, 1e6)
    mon.close("homogeneous", np.asarray(float(trapz_loglog(f * y, g * x))), np.asarray(f * g * got), 1e-6, 1e-7 * scale * f * g)
    # negative integrands mirror the positive ones
    mon.close("sign", np.asarray(float(trapz_loglog(-y, x))), np.asarray(-got), 1e-12, 1e-12 * scale)


def axes(rng, mon, tier):
    from agnpy.utils.math import trapz_loglog, axes_reshaper
    nd = int(rng.integers(1, 4))
    shape = tuple(int(rng.integers(2, 9)) for _ in range(nd))
    ax = int(rng.integers(nd))
    x = grid(rng, shape[ax])
    y = 10 ** rng.uniform(-5, 5, shape)
    if rng.random() < 0.3:
        y *= rng.choice([-1, 1, 0], size=shape)
    mon.case(shape=shape, ax=ax, x0=x[0])
    want = ref.loglog(y, x, ax)
    scale = ref.loglog(np.abs(y), x, ax)
    axx = ax if rng.random() < 0.7 else ax - nd
    mon.close("axis", np.asarray(trapz_loglog(y, x, axis=axx)), want, 1e-6, 1e-7 * np.max(scale))
    xq, yq = (x * u.cm).to("m"), (y * u.Unit("erg s-1")).to("W")
    mon.close("units", mon.val("integral", trapz_loglog(yq, xq, axis=ax), "erg cm s-1"), want, 1e-6, 1e-7 * np.max(scale))
    mon.close("units", mon.val("integral", trapz_loglog(y, xq, axis=ax), "cm"), want, 1e-6, 1e-7 * np.max(scale))
    # an x array of the shape of y
    sh = [1] * nd
    sh[ax] = -1
    xb = np.broadcast_to(x.reshape(sh), shape)
    mon.close("2d_x", np.asarray(trapz_loglog(y, xb.copy(), axis=ax)), want, 1e-6, 1e-7 * np.max(scale))
    # reshaper
    arrs = [rng.uniform(0, 1, int(rng.integers(1, 6))) for _ in range(int(rng.integers(1, 6)))]
    if rng.random() < 0.5:
        arrs[0] = arrs[0] * u.cm
    out = axes_reshaper(*arrs)
    ok = len(out) == len(arrs)
    for i, (a, o) in enumerate(zip(arrs, out)):
        s = [1] * len(arrs)
        s[i] = a.size
        ok &= o.shape == tuple(s) and bool(np.all(np.ravel(o) == a)) and getattr(o, "unit", None) == getattr(a, "unit", None)
    mon.ok("reshaper", ok, sizes=[a.size for a in arrs])


KINDS = {"power": (power, 750, 15000), "near": (near, 600, 10000), "pieces": (pieces, 900, 15000), "axes": (axes, 600, 10000)}
