"""C21: pair production cross section, Compton kernels and synchrotron function."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C21"
RULE = "distinct sets of arguments of the kernels with a non-null value"
ASSUMPTIONS = ["R(x) against the exact function (Bessel integrals) within 0.5%", "cross section against an evaluation free of cancellations; near threshold and for s > 1e8 with the accuracy of the published formula"]
MONITORS = ["sigma", "sigma_threshold", "sigma_bounds", "F_c", "isotropic", "isotropic_limits", "iso_thomson", "gamma_min", "compton", "compton_threshold", "kernel_symmetry",
            "R", "R_exact", "nu_peak", "units", "epsilon"]


def sigma(rng, mon, tier):
    from agnpy.absorption import sigma as f
    n = int(rng.integers(1, 30))
    s = 10 ** rng.uniform(-3, 6, n)
    if rng.random() < 0.3:
        s = 1 + 10 ** rng.uniform(-6, 1, n)
    shape = [(n,), (n, 1), (1, n, 1)][int(rng.integers(3))]
    x = s.reshape(shape)
    keep = x.copy()
    mon.case(s=list(s))
    got = mon.val("sigma", f(x), "cm2")
    want = ref.sigma_gg(x)
    mon.close("sigma", got, want, 1e-6, 1e-13 * ref.SIGMA_T)
    mon.ok("sigma_threshold", np.all(got[x < 1] == 0) and np.array_equal(x, keep))
    # the maximum of the cross section is 0.26 sigma_T at s = 2
    mon.ok("sigma_bounds", np.all(got >= 0) and np.all(got <= 0.256 * ref.SIGMA_T))


def compton(rng, mon, tier):
    from agnpy.compton import F_c, isotropic_kernel, get_gamma_min, compton_kernel
    q = 10 ** rng.uniform(-8, 0, 10)
    ge = 10 ** rng.uniform(-6, 6, 10)
    mon.case(q=list(q[:3]), ge=list(ge[:3]))
    mon.close("F_c", F_c(q, ge), ref.F_c(q, ge), 1e-9, 1e-13)
    mon.ok("F_c", np.all(np.asarray(F_c(q, ge)) >= -1e-12))
    # isotropic kernel
    g = 10 ** rng.uniform(0, 8, (12, 1, 1))
    eps = 10 ** rng.uniform(-13, 2, (1, 9, 1))
    es = 10 ** rng.uniform(-12, 8, (1, 1, 11))
    got, want = np.asarray(isotropic_kernel(g, eps, es)), ref.iso_kernel(g, eps, es)
    mon.ok("isotropic", np.all(np.isfinite(got)) and got.shape == (12, 9, 11))
    with np.errstate(all="ignore"):
        Ge = 4 * g * eps
        qq = es / g / (Ge * (1 - es / g))
        edge = (np.abs(qq - 1) < 1e-9) | (np.abs(qq * 4 * g**2 - 1) < 1e-9) | ~np.isfinite(qq)
    mon.close("isotropic", np.where(edge, 0, got), np.where(edge, 0, want), 1e-8, 1e-12)
    # kinematics: no photon beyond the maximum energy, none below the target's own
    emax = Ge / (1 + Ge) * g
    b = np.broadcast_to
    mon.ok("isotropic_limits", np.all(got[b(es, got.shape) > b(emax, got.shape) * (1 + 1e-6)] == 0))
    mon.ok("isotropic_limits", np.all(got[b(es, got.shape) > b(g, got.shape)] == 0))
    # Thomson limit: number and energy of the scattered photons
    gg, e0 = gen.logu(rng, 30, 1e4), None
    e0 = 1e-6 / gg
    x = np.logspace(-9, 0, 4000) * 4 * gg**2 * e0 / (1 + 4 * gg * e0)
    k = np.asarray(isotropic_kernel(gg, e0, x))
    N = ref.trapz(k / (gg**2 * e0), x) * 0.75
    W = ref.trapz(k * x / (gg**2 * e0), x) * 0.75
    mon.close("iso_thomson", [float(N), float(W / (4 / 3 * gg**2 * e0))], [1.0, 1.0], 2e-2)
    # head-on kernel
    mu_s, mu = float(rng.uniform(-0.99, 0.99999)), rng.uniform(-1, 1, 6)
    phi = rng.uniform(0, 2 * np.pi, 6)
    e_s, e_t = 10 ** rng.uniform(-6, 8), 10 ** rng.uniform(-12, -1)
    cp = ref.cospsi(mu_s, mu, phi)
    want = e_s / 2 * (1 + np.sqrt(1 + 2 / (e_t * e_s * (1 - cp))))
    gm = np.asarray(get_gamma_min(e_s, e_t, mu_s, mu, phi))
    mon.close("gamma_min", gm, want, 1e-7)
    # the minimum Lorentz factor is the one that can give all its energy to the photon
    y = 1 - e_s / want
    mon.ok("gamma_min", np.all(np.abs(e_s - 2 * want**2 * e_t * (1 - cp) / (1 + 2 * want * e_t * (1 - cp))) < 1e-6 * e_s))
    gs = np.logspace(0, 10, 40)[:, None]
    got = np.asarray(compton_kernel(gs, e_s, e_t, mu_s, mu[None], phi[None]))
    w = ref.xi_kernel(gs, e_s, e_t, cp[None])
    edge = np.abs(gs / want[None] - 1) < 1e-6
    mon.close("compton", np.where(edge, 0, got), np.where(edge, 0, w), 1e-6, 1e-9)
    mon.ok("compton_threshold", np.all(got[gs < want[None] * (1 - 1e-6)] == 0) and np.all(got >= 0), m=float(got.min()))
    mon.ok("kernel_symmetry", np.allclose(got, np.asarray(compton_kernel(gs, e_s, e_t, mu_s, mu[None], 2 * np.pi - phi[None])), rtol=1e-6, atol=1e-9))


def synch(rng, mon, tier):
    from agnpy.synchrotron import R, nu_synch_peak
    from lib.harness import optional
    power = optional("agnpy.synchrotron.synchrotron", "single_particle_synch_power")
    from agnpy.utils.conversion import nu_to_epsilon_prime, B_to_cgs
    from astropy.constants import m_e, m_p
    x = 10 ** rng.uniform(-8, 2.3, 12)
    mon.case(x=list(x))
    mon.floor = 1e-200
    mon.close("R", np.asarray(R(x)), ref.R(x), 1e-9)
    B, g = gen.logu(rng, 1e-5, 1e3), 10 ** rng.uniform(0, 8, 7)
    eps = 10 ** rng.uniform(-16, 0, 7)
    m, mn = (ref.ME, m_e) if rng.random() < 0.5 else (ref.MP, m_p)
    Bq = (B * u.G).to(str(rng.choice(["G", "mG", "T"])))
    mon.close("nu_peak", mon.val("nu", nu_synch_peak(Bq, g, mn), "Hz"), ref.E * B * g**2 / (2 * np.pi * m * ref.C), 1e-6)
    if power is not None:
        mon.close("single_power", mon.val("power", power(B_to_cgs(Bq), eps, g, mn), "erg s-1"), ref.synch_power(B, eps, g, m), 1e-6)
    z, d = float(rng.uniform(0, 3)), gen.logu(rng, 0.5, 60)
    nu = 10 ** rng.uniform(8, 28, 5)
    q = (nu * u.Hz).to(str(rng.choice(["Hz", "GHz"])))
    mon.close("epsilon", mon.val("epsilon", nu_to_epsilon_prime(q, z, d, mn), None), ref.eps_prime(nu, z, d, m), 1e-9)
    mon.close("units", mon.val("B", B_to_cgs(Bq), "cm(-1/2) g(1/2) s-1"), np.asarray(B), 1e-9)


def exact(rng, mon, tier):
    """Crusius & Schlickeiser function from its definition with Bessel functions"""
    from agnpy.synchrotron import R
    from scipy.special import kv
    x = 10 ** rng.uniform(-3, 1.2, 6)
    mon.case(x=list(x))
    # pitch-angle averaged emissivity: x/2 int_0^pi sin(t) F(x/sin t)/(x/sin t) ... = x^2/2 ...(closed form)
    k43, k13 = kv(4 / 3, x / 2), kv(1 / 3, x / 2)
    want = x**2 / 2 * k43 * k13 - 0.3 * x**3 / 2 * (k43**2 - k13**2)
    mon.close("R_exact", np.asarray(R(x)), want, 5e-3)


KINDS = {"sigma": (sigma, 600, 8000), "compton": (compton, 600, 8000), "synch": (synch, 600, 8000), "exact": (exact, 240, 2000)}
