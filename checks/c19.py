"""C19: gamma-gamma opacity of the synchrotron photons of a blob."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C19"
RULE = "distinct (blob, frequencies) with a non-null opacity"
ASSUMPTIONS = ["same integration grid as the product: 200 synchrotron frequencies between 0.01 times the peak of gamma_min and 100 times the one of gamma_max",
               "Lorentz factor grid of the blob; tolerance 1e-4 (Bohr magneton relation of the peak) plus the effect of a change of 1e-9 of the frequency"]
MONITORS = ["synch", "margin", "target_blob", "absorption", "homogeneous", "no_distance_needed", "size"]


def agree(mon, name, got, fn, nu):
    want = fn(nu)
    d = np.abs(fn(nu * (1 + 1e-9)) - want) + np.abs(fn(nu * (1 - 1e-9)) - want)
    got = np.asarray(got, float)
    mon.counts[name] += 1
    if np.any(want > 0):
        mon.nontrivial = True
    if not (got.shape == want.shape and np.all(np.abs(got - want) <= 2e-4 * want + 3 * d + 1e-30)):
        mon._fail(name, dict(got=list(np.ravel(got)), want=list(want), nu=list(nu)))


def case(rng, mon, tier):
    from agnpy.absorption import Absorption
    par, b = gen.blob(rng)
    nu = 10 ** rng.uniform(22, 31, int(rng.integers(1, 6)))
    nq = gen.nu_q(rng, nu)
    mon.case(par=gen.pub(par), nu=list(nu))
    mon.feature(par["spec"]["type"])
    a = Absorption(b) if rng.random() < 0.7 else Absorption(b, r=1e18 * u.cm, z=b.z, mu_s=float(rng.choice([1, 0.9])))
    f = lambda x, n=200, m=1e-2: ref.tau_synch(x, par["z"], par["d_L"], par["delta"], par["B"], par["R_b"], par["spec"], gen.blob_gamma(par), n, m)
    gen.stir(rng, par["spec"], b, lambda: a.tau(nq))
    tau = mon.val("tau", a.tau(nq), None)
    agree(mon, "synch", tau, f, nu)
    mon.ok("no_distance_needed", a.r is None or a.r == 1e18 * u.cm)
    if rng.random() < 0.4:
        m = gen.logu(rng, 1e-4, 0.5)
        agree(mon, "margin", mon.val("tau", a.tau_on_synchrotron(b, nq, delta_margin_low=m), None), lambda x: f(x, 200, m), nu)
        n = int(rng.integers(40, 300))
        agree(mon, "size", mon.val("tau", a.tau_on_synchrotron(b, nq, nu_s_size=n), None), lambda x: f(x, n), nu)
    if rng.random() < 0.3:
        par2, b2 = gen.blob(rng)
        g = lambda x: ref.tau_synch(x, par2["z"], par2["d_L"], par2["delta"], par2["B"], par2["R_b"], par2["spec"], gen.blob_gamma(par2))
        agree(mon, "target_blob", mon.val("tau", a.tau_on_synchrotron(b2, nq), None), g, nu)
    t = tau
    mon.close("absorption", mon.val("absorption", a.absorption(nq), None), np.exp(-t), 1e-9)
    with np.errstate(all="ignore"):
        w = np.where(t == 0, 1.0, -np.expm1(-t) / np.where(t == 0, 1, t))
    h = mon.val("absorption", a.absorption_homogeneous(nq), None)
    mon.close("homogeneous", h, w, 1e-9)
    mon.ok("homogeneous", np.all((h >= np.exp(-t) * (1 - 1e-12)) & (h <= 1 + 1e-12)))


KINDS = {"synch": (case, 500, 5000)}
