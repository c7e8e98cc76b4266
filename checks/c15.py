"""C15: differential, integral fluxes and peaks derived from the SED of any process."""
import numpy as np
import astropy.units as u
from lib import gen, ref, proc

PID = "C15"
RULE = "distinct (process, energy range) with a non-null flux"
ASSUMPTIONS = ["integrals: linear trapezium on a logarithmic grid of nu_points frequencies (50 by default)",
               "power-law SEDs provided by a user-defined process: within the error of the trapezium of their true integral"]
MONITORS = ["differential", "energy_flux", "photon_flux", "units_of_range", "wavelengths", "scalar_differential", "peak", "truth", "additive", "default_points", "custom_process", "consistency"]
EV_HZ = 1.602176634e-12 / ref.H


def rng_q(rng, nu):
    """the same frequency as a photon energy, or in another unit"""
    un = str(rng.choice(["Hz", "GHz", "eV", "keV", "MeV", "GeV", "TeV", "erg", "J"]))
    return (nu * u.Hz).to(un, equivalencies=u.spectral())


def integrals(rng, mon, p, sed, n1, n2, npt, kw):
    """both integrals against trapezia of the SED observed on the same grid"""
    a, b = rng_q(rng, n1), rng_q(rng, n2)
    grid = np.logspace(np.log10(n1), np.log10(n2), npt)
    y = sed(grid)
    ok = np.isfinite(y)
    if not np.all(ok):
        return None
    e1 = mon.val("energy_flux", p.energy_flux_integral(a, b, **kw), "erg cm-2 s-1")
    f1 = mon.val("photon_flux", p.flux_integral(a, b, **kw), "cm-2 s-1")
    we = ref.trapz(y / grid, grid)
    wf = ref.trapz(y / (ref.H * grid**2), grid)
    # sensitivity to the rounding of the ends (conversion of the energies)
    s = np.abs(sed(grid * (1 + 1e-9)) - y) + np.abs(sed(grid * (1 - 1e-9)) - y)
    mon.close("energy_flux", e1, np.asarray(we), 1e-6, 3 * ref.trapz(s / grid, grid) + 1e-150)
    mon.close("photon_flux", f1, np.asarray(wf), 1e-6, 3 * ref.trapz(s / (ref.H * grid**2), grid) + 1e-150)
    return float(e1), float(f1)


def case(rng, mon, tier):
    P = proc.Proc(rng)
    p = P.process()
    nu = P.nus(rng, int(rng.integers(1, 6)))
    mon.case(nu=list(nu), **P.show())
    mon.feature(P.name)
    sed = lambda x: np.ravel(mon.val("sed", p.sed_flux(np.atleast_1d(x) * u.Hz), "erg cm-2 s-1"))
    y = sed(nu)
    # per unit of energy, whatever the unit of the argument
    q = rng_q(rng, nu)
    yq = sed(q.to_value("Hz", equivalencies=u.spectral()))
    hz = q.to("Hz", equivalencies=u.spectral())
    d = mon.val("diff", p.diff_energy_flux(hz), "eV-1 cm-2 s-1")
    ev = q.to_value("eV", equivalencies=u.spectral())
    mon.close("differential", np.ravel(d), yq / 1.602176634e-12 / ev**2, 1e-9)
    s = p.diff_energy_flux(hz[0])
    mon.close("scalar_differential", np.ravel(mon.val("diff", s, "eV-1 cm-2 s-1")), np.ravel(d)[:1], 1e-9)
    n1 = float(nu.min()) * 0.5
    n2 = n1 * gen.logu(rng, 1.5, 1e4)
    heavy = P.ec
    npt = int(rng.integers(5, 20 if heavy else 90))
    kw = {"nu_points": npt}
    if not heavy and rng.random() < 0.3:
        npt, kw = 50, {}
        mon.counts["default_points"] += 1
    integrals(rng, mon, p, sed, n1, n2, npt, kw)
    if hasattr(p, "sed_peak_flux"):
        g = np.sort(P.nus(rng, int(rng.integers(2, 25))))
        yg = sed(g)
        if np.all(np.isfinite(yg)):
            k = rng.permutation(g.size)
            pf = mon.val("peak", p.sed_peak_flux(g[k] * u.Hz), "erg cm-2 s-1")
            pn = mon.val("peak", p.sed_peak_nu(g[k] * u.Hz), "Hz")
            mon.close("peak", pf, np.asarray(yg.max()), 1e-9)
            mon.ok("peak", np.any((np.abs(g / pn - 1) < 1e-12) & (yg >= yg.max() * (1 - 1e-9))), pn=float(pn), nu=list(g[yg == yg.max()]))


def custom(rng, mon, tier):
    """a user-defined process with a known SED: integrals against the truth"""
    from agnpy.radiative_process import RadiativeProcess
    a, nu0 = float(rng.uniform(-2, 2)), gen.logu(rng, 1e9, 1e25)
    A = gen.logu(rng, 1e-15, 1e-8)
    un = str(rng.choice(["erg cm-2 s-1", "W m-2", "eV cm-2 s-1"]))
    calls = []

    class Mine(RadiativeProcess):
        def sed_flux(self, nu):
            calls.append(nu)
            x = nu.to_value("Hz", equivalencies=u.spectral())
            return (A * (x / nu0) ** a * u.Unit("erg cm-2 s-1")).to(un)

    p = Mine()
    n1 = nu0 * gen.logu(rng, 1e-3, 1e3)
    n2 = n1 * gen.logu(rng, 1.2, 1e3)
    npt = int(rng.integers(20, 400))
    mon.case(a=a, nu0=nu0, A=A, n1=n1, n2=n2, npt=npt)
    sed = lambda x: A * (x / nu0) ** a
    r = integrals(rng, mon, p, sed, n1, n2, npt, {"nu_points": npt})
    mon.counts["custom_process"] += 1
    pw = lambda b: np.log(n2 / n1) if abs(b) < 1e-12 else (n2**b - n1**b) / b
    te, tf = A * nu0**-a * pw(a), A * nu0**-a / ref.H * pw(a - 1)
    # error of the trapezium over a power law of slope s and step h: (s^2 - s) h^2 / 12 per interval
    h = np.log(n2 / n1) / (npt - 1)
    err = lambda s: (abs(s * (s - 1)) * h**2 / 12 * 1.5 + 1e-8) * (1 + h) ** 4
    mon.close("truth", r[0], te, err(a - 1))
    mon.close("truth", r[1], tf, err(a - 2))
    # any unit of the range gives the same; the integral is additive
    e = [mon.val("e", p.energy_flux_integral(rng_q(rng, n1), rng_q(rng, n2), nu_points=npt), "erg cm-2 s-1") for _ in range(3)]
    mon.close("units_of_range", np.array(e), np.full(3, r[0]), 1e-8)
    m = int(rng.integers(3, 30))
    k = int(rng.integers(1, m - 1))
    g = np.logspace(np.log10(n1), np.log10(n2), m)
    H = u.Hz
    for f, un2 in ((p.energy_flux_integral, "erg cm-2 s-1"), (p.flux_integral, "cm-2 s-1")):
        tot = mon.val("add", f(n1 * H, n2 * H, nu_points=m), un2)
        parts = mon.val("add", f(n1 * H, g[k] * H, nu_points=k + 1) + f(g[k] * H, n2 * H, nu_points=m - k), un2)
        mon.close("additive", parts, tot, 1e-8)
    # wavelengths: the same range (described in the opposite sense) up to the sign
    w1, w2 = (x.to(str(rng.choice(["cm", "nm", "AA"])), equivalencies=u.spectral()) for x in (n1 * H, n2 * H))
    mon.close("wavelengths", mon.val("e", p.energy_flux_integral(w1, w2, nu_points=npt), "erg cm-2 s-1"), np.asarray(r[0]), 1e-8)
    # mean photon energy lies within the range
    mean = r[0] / r[1] / ref.H
    mon.ok("consistency", n1 * (1 - 1e-9) <= mean <= n2 * (1 + 1e-9), mean=mean)
    d = mon.val("diff", p.diff_energy_flux(rng_q(rng, n1)), "eV-1 cm-2 s-1")
    mon.close("differential", d, np.asarray(sed(n1) / 1.602176634e-12 / (n1 / EV_HZ) ** 2), 1e-8)


KINDS = {"processes": (case, 210, 3000), "custom": (custom, 225, 6000)}
