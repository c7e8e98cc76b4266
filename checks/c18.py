"""C18: gamma-gamma opacity of the external photon targets."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C18"
RULE = "distinct (target, distance, redshift, direction, frequencies, grid sizes) with a non-null opacity"
ASSUMPTIONS = [
    "same integration grids as the product",
    "no point of the path within 2e-4 of the spherical shell in the comparisons (closer ones are moved away by the product); there the opacity is only required to be finite and not negative",
    "tolerance 2e-5 (plus 1e-7/sin(theta_s) for the point source) plus the effect of a relative change of 1e-9 of the frequency (thresholds)",
]
MONITORS = ["ps", "ps_aligned", "disk", "blr", "blr_mu_s", "dt", "dt_mu_s", "absorption", "near_shell", "static", "linear", "small_angle", "not_negative", "escape"]
CASE_TIMEOUT = 600
PHI = np.linspace(0, 2 * np.pi, 50)


def agree(mon, name, got, fn, nu, rtol=2e-5, **detail):
    want = fn(nu)
    d = np.abs(fn(nu * (1 + 1e-9)) - want) + np.abs(fn(nu * (1 - 1e-9)) - want)
    mon.counts[name] += 1
    if np.any(want > 0):
        mon.nontrivial = True
    if np.any(np.isnan(want)):
        raise RuntimeError("NaN reference " + name)
    got = np.asarray(got, float)
    good = got.shape == want.shape and np.all(np.abs(got - want) <= rtol * want + 3 * d + 1e-25)
    if not good:
        mon._fail(name, dict(detail, got=list(np.ravel(got)), want=list(want)))
    mon.ok("not_negative", np.all(got >= 0) and np.all(np.isfinite(got)), got=list(np.ravel(got)))
    return good


def nus(rng, eps0, n=None):
    """frequencies around the threshold with photons of dimensionless energy eps0"""
    n = n or int(rng.integers(1, 5))
    return (ref.MEC2 / ref.H) / eps0 * 10 ** rng.uniform(-0.5, 7, n)


def mu_of(rng):
    if rng.random() < 0.6:
        return float(np.cos(gen.logu(rng, 1e-4, 0.5)))
    return float(rng.uniform(-0.99, 0.99))


def common(rng, mon, name):
    z = float(rng.choice([0.0, gen.logu(rng, 1e-3, 3)]))
    t, target = gen.target(rng, name, z)
    r = gen.distance(rng, name, t)
    rq = (r * u.cm).to(str(rng.choice(["cm", "pc", "m"])))
    return z, t, target, r, rq


def absorb(rng, mon, a, nq, tau, r_known=True):
    v = mon.val("absorption", a.absorption(nq), None)
    mon.close("absorption", np.ravel(v), np.exp(-np.ravel(tau)), 1e-9)
    mon.ok("absorption", np.all((v >= 0) & (v <= 1)), got=list(np.ravel(v)))
    h = mon.val("absorption", a.absorption_homogeneous(nq), None)
    t = np.ravel(tau)
    with np.errstate(all="ignore"):
        w = np.where(t == 0, 1.0, -np.expm1(-t) / np.where(t == 0, 1, t))
    mon.close("absorption", np.ravel(h), w, 1e-9)


def ps(rng, mon, tier):
    from agnpy.absorption import Absorption
    z, t, target, r, rq = common(rng, mon, "ps")
    mu_s = mu_of(rng)
    n_l = int(rng.choice([50, 50, rng.integers(20, 90)]))
    a = Absorption(target, rq, z, mu_s)
    a.set_l(n_l)
    nu = nus(rng, t["eps0"]) / max(1 - mu_s, 1e-6) ** rng.uniform(0, 1)
    nq = gen.nu_q(rng, nu)
    mon.case(t=t, r=r, z=z, mu_s=mu_s, nu=list(nu))
    # rounding of the sine of the nearly aligned photons
    rt = 2e-5 + 1e-7 / np.sqrt(1 - mu_s**2)
    tau = mon.val("tau", a.tau(nq), None)
    agree(mon, "ps", tau, lambda f: ref.tau_ps(f, z, mu_s, t["eps0"], t["L0"], r, 100), nu, rt)
    absorb(rng, mon, a, nq, tau)
    us = int(rng.integers(30, 300))
    st = mon.val("tau", Absorption.evaluate_tau_ps_behind_blob_mu_s(nq, z, mu_s, t["eps0"], target.L_0, rq, us), None)
    agree(mon, "static", st, lambda f: ref.tau_ps(f, z, mu_s, t["eps0"], t["L0"], r, us), nu, rt)
    f = float(rng.uniform(0.1, 10))
    l2 = mon.val("tau", Absorption.evaluate_tau_ps_behind_blob_mu_s(nq, z, mu_s, t["eps0"], f * target.L_0, rq, us), None)
    mon.close("linear", l2, f * st, 1e-10)
    # gamma rays following the photons of the point source never meet them
    b = Absorption(target, rq, z)
    mon.ok("ps_aligned", np.all(mon.val("tau", b.tau(nq), None) == 0) and np.all(mon.val("absorption", b.absorption(nq), None) == 1))
    if rng.random() < 0.5:
        g = mon.val("tau", Absorption.evaluate_tau_ps_behind_blob(nq, z, mu_s, t["eps0"], target.L_0, rq), None)
        om = 1 - mu_s
        agree(mon, "ps_aligned", g, lambda f: t["L0"] / (4 * np.pi * t["eps0"] * ref.ME * ref.C**3 * r) * om * ref.sigma_gg(t["eps0"] * ref.eps_prime(f, z) * om / 2), nu)


def sizes(rng, a):
    m, p, l = 100, 50, 50
    if rng.random() < 0.7:
        m, p, l = int(rng.integers(20, 70)), int(rng.integers(10, 40)), int(rng.integers(20, 60))
        a.set_mu(m)
        a.set_phi(p)
        a.set_l(l)
    return np.linspace(-1, 1, m), np.linspace(0, 2 * np.pi, p), l


def disk(rng, mon, tier):
    from agnpy.absorption import Absorption
    z, t, target, r, rq = common(rng, mon, "disk")
    a = Absorption(target, rq, z)
    mu, phi, l = sizes(rng, a)
    e = ref.disk_eps(t["L"], t["M"], t["eta"], t["Rin_t"])
    nu = nus(rng, e, int(rng.integers(1, 3)))
    nq = gen.nu_q(rng, nu)
    mon.case(t=t, r=r, z=z, nu=list(nu), sizes=[phi.size, l])
    tau = mon.val("tau", a.tau(nq), None)
    f = lambda mu_s, rs, lsz, ph: (lambda x: ref.tau_disk(x, z, mu_s, t["M"], t["L"], t["eta"], t["Rin"], t["Rout"], r, rs, lsz, ph))
    agree(mon, "disk", tau, f(1, 100, l, phi), nu)
    absorb(rng, mon, a, nq, tau)
    if rng.random() < 0.5:
        rs, ls, mu_s = int(rng.integers(20, 60)), int(rng.integers(20, 60)), mu_of(rng)
        st = mon.val("tau", Absorption.evaluate_tau_ss_disk(nq, z, mu_s, target.M_BH, target.L_disk, t["eta"], target.R_in, target.R_out, rq, rs, ls, phi), None)
        agree(mon, "static", st, f(mu_s, rs, ls, phi), nu)


def _clear(path, R):
    return np.all(np.abs(path / R - 1) > 2e-4)


def blr(rng, mon, tier):
    from agnpy.absorption import Absorption
    z, t, target, r, rq = common(rng, mon, "blr")
    mu_s = 1 if rng.random() < 0.5 else mu_of(rng)
    a = Absorption(target, rq, z, mu_s)
    mu, phi, l = sizes(rng, a)
    path = (lambda r: np.logspace(0, 5, l) * r) if mu_s == 1 else (lambda r: np.sqrt(r**2 + (np.logspace(-5, 5, 2 * l) * r) ** 2 + 2 * r**2 * np.logspace(-5, 5, 2 * l) * mu_s))
    while not _clear(path(r), t["R"]):
        r *= 1.0013
    a.r = rq = r * u.cm
    nu = nus(rng, t["eps"], int(rng.integers(1, 3)))
    nq = gen.nu_q(rng, nu)
    mon.case(t=t, r=r, z=z, mu_s=mu_s, nu=list(nu), sizes=[mu.size, phi.size, l])
    tau = mon.val("tau", a.tau(nq), None)
    if mu_s == 1:
        agree(mon, "blr", tau, lambda x: ref.tau_blr(x, z, 1, t["L"], t["xi"], t["eps"], t["R"], r, l, mu, phi), nu)
    else:
        agree(mon, "blr_mu_s", tau, lambda x: ref.tau_blr_mu_s(x, z, mu_s, t["L"], t["xi"], t["eps"], t["R"], r, 2 * l, mu, phi), nu)
    absorb(rng, mon, a, nq, tau)
    if mu_s == 1 and rng.random() < 0.4:
        ls = int(rng.integers(20, 60))
        r2 = r
        while not _clear(np.logspace(0, 5, ls) * r2, t["R"]):
            r2 *= 1.0013
        st = mon.val("tau", Absorption.evaluate_tau_blr(nq, z, 1, target.L_disk, t["xi"], t["eps"], target.R_line, r2 * u.cm, ls, mu, phi), None)
        agree(mon, "static", st, lambda x: ref.tau_blr(x, z, 1, t["L"], t["xi"], t["eps"], t["R"], r2, ls, mu, phi), nu)


def near(rng, mon, tier):
    """paths that touch the shell (the integrand diverges there)"""
    from agnpy.absorption import Absorption
    z, t, target, r, rq = common(rng, mon, "blr")
    l = int(rng.integers(20, 60))
    mu_s = 1 if rng.random() < 0.5 else mu_of(rng)
    i = int(rng.integers(0, l))
    r = t["R"] / 10 ** (5 * i / (l - 1)) if rng.random() < 0.7 else t["R"] * (1 + float(rng.uniform(-1, 1)) * 2e-4)
    a = Absorption(target, (r * u.cm), z, mu_s)
    a.set_l(l)
    a.set_phi(15)
    a.set_mu(int(rng.choice([20, 21])))
    nu = nus(rng, t["eps"])
    mon.case(t=t, r=r, mu_s=mu_s, l=l, nu=list(nu))
    mon.nontrivial = True
    tau = mon.val("tau", a.tau(nu * u.Hz), None)
    mon.ok("near_shell", np.all(np.isfinite(tau)) and np.all(tau >= 0), tau=list(tau), r=r, R=t["R"])


def dt(rng, mon, tier):
    from agnpy.absorption import Absorption
    z, t, target, r, rq = common(rng, mon, "dt")
    mu_s = 1 if rng.random() < 0.5 else mu_of(rng)
    a = Absorption(target, rq, z, mu_s)
    mu, phi, l = sizes(rng, a)
    nu = nus(rng, t["eps"])
    nq = gen.nu_q(rng, nu)
    mon.case(t=t, r=r, z=z, mu_s=mu_s, nu=list(nu), sizes=[phi.size, l])
    tau = mon.val("tau", a.tau(nq), None)
    if mu_s == 1:
        agree(mon, "dt", tau, lambda x: ref.tau_dt(x, z, 1, t["L"], t["xi"], t["eps"], t["R"], r, l, phi), nu)
        m2 = mu_of(rng)
        st = mon.val("tau", Absorption.evaluate_tau_dt(nq, z, m2, target.L_disk, t["xi"], t["eps"], target.R_dt, rq, 33, phi), None)
        agree(mon, "static", st, lambda x: ref.tau_dt(x, z, m2, t["L"], t["xi"], t["eps"], t["R"], r, 33, phi), nu)
    else:
        agree(mon, "dt_mu_s", tau, lambda x: ref.tau_dt_mu_s(x, z, mu_s, t["L"], t["xi"], t["eps"], t["R"], r, 2 * l, phi), nu)
    absorb(rng, mon, a, nq, tau)
    # a gamma ray starting further out meets fewer photons
    if mu_s == 1:
        far = Absorption(target, r * 1e3 * u.cm + t["R"] * 1e3 * u.cm, z)
        tf = mon.val("tau", far.tau(nq), None)
        pk = (ref.MEC2 / ref.H) / t["eps"] * 10 ** np.linspace(0, 8, 30) * u.Hz
        mon.ok("escape", np.max(mon.val("tau", far.tau(pk), None)) < np.max(mon.val("tau", a.tau(pk), None)), far=list(tf))


def angle(rng, mon, tier):
    """a nearly aligned gamma ray is absorbed as an aligned one (dust torus and BLR: both geometries agree)"""
    from agnpy.absorption import Absorption
    name = str(rng.choice(["dt", "dt", "blr"]))
    z, t, target, r, rq = common(rng, mon, name)
    if name == "blr":
        r = t["R"] * gen.logu(rng, 3, 20)
    # (small also with respect to the angle under which the target is seen from there)
    th = gen.logu(rng, 1e-6, 3e-4) if r < 10 * t["R"] else gen.logu(rng, 1e-3, 3e-2) * t["R"] / r
    if th < 1e-7:
        th = 1e-7
    a, b = Absorption(target, r * u.cm, z), Absorption(target, r * u.cm, z, float(np.cos(th)))
    a.set_l(300)
    b.set_l(300)
    if name == "blr":
        for x in (a, b):
            x.set_mu(60)
            x.set_phi(20)
    nu = (ref.MEC2 / ref.H) / t["eps"] * 10 ** np.array([1.0, 2.0, 3.0]) * (1 + (r / t["R"]) ** 2) * u.Hz
    mon.case(name=name, t=t, r=r, mu_s=b.mu_s)
    x, y = mon.val("tau", a.tau(nu), None), mon.val("tau", b.tau(nu), None)
    mon.close("small_angle", y, x, 0.05)


KINDS = {"ps": (ps, 240, 2500), "disk": (disk, 48, 350), "blr": (blr, 72, 600), "near": (near, 72, 500), "dt": (dt, 180, 1500), "angle": (angle, 72, 300)}
