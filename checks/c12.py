"""C12: synchrotron self-Compton SED."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C12"
RULE = "distinct (blob, distribution, frequencies, options) with a non-null SED"
ASSUMPTIONS = ["same integration grids as the product (200 synchrotron frequencies between 1e5 and 1e30 Hz, the blob's Lorentz factors); tolerance 1e-6 (5e-5 with the log-log rule)"]
MONITORS = ["sed", "static", "scalar", "photon_density", "quadratic_in_n", "thomson_limit"]


def case(rng, mon, tier):
    mon.floor = 1e-150
    from agnpy.compton import SynchrotronSelfCompton
    fn, iname = gen.integrator(rng)
    integ = ref.INTEGRATORS[iname]
    rt = 1e-6 if iname == "trapz" else 5e-5
    par, b = gen.blob(rng)
    ssa = bool(rng.random() < 0.4)
    nu = gen.freqs(rng, 14, 29, int(rng.integers(1, 6)))
    mon.case(par=gen.pub(par), nu=list(nu), ssa=ssa, integ=iname)
    mon.feature(par["spec"]["type"], iname, f"ssa={ssa}")
    g = gen.blob_gamma(par)
    args = (par["z"], par["d_L"], par["delta"], par["B"], par["R_b"], par["spec"])
    want = ref.ssc_sed(nu, *args, g, integ, ssa=ssa)
    c = SynchrotronSelfCompton(b, ssa=ssa, integrator=fn)
    gen.stir(rng, par["spec"], b, lambda: c.sed_flux(nu * u.Hz), more=[(c, "ssa", not ssa), (c, "integrator", gen.integrator(rng)[0])])
    got = mon.val("sed", c.sed_flux(gen.nu_q(rng, nu)), "erg cm-2 s-1")
    # the switch of the attenuation at tau = 1e-3 is worth at most 4e-4 of one seed photon bin
    at = 1e-6 * np.abs(want) + (1e-5 * np.abs(want) if ssa else 0)
    mon.close("sed", got, want, rt, at)
    x = float(nu[-1])
    mon.close("scalar", np.ravel(mon.val("sed", c.sed_flux(x * u.Hz), "erg cm-2 s-1")), got[-1:], 1e-7)
    g2 = np.logspace(np.log10(par["spec"]["gamma_min"]) - 0.2, np.log10(par["spec"]["gamma_max"]) + 0.2, int(rng.integers(60, 220)))
    zz = (par["z"], b.d_L, par["delta"], b.B, b.R_b, b.n_e, *b.n_e.parameters)
    st = mon.val("static", SynchrotronSelfCompton.evaluate_sed_flux(nu * u.Hz, *zz, ssa=ssa, integrator=fn, gamma=g2), "erg cm-2 s-1")
    w2 = ref.ssc_sed(nu, *args, g2, integ, ssa=ssa)
    mon.close("static", st, w2, rt, 1e-6 * w2 + (1e-5 * w2 if ssa else 0))
    st = mon.val("static", SynchrotronSelfCompton.evaluate_sed_flux(nu * u.Hz, *zz), "erg cm-2 s-1")
    mon.close("static", st, ref.ssc_sed(nu, *args, np.logspace(1, 9, 200)), 2e-6)
    # seed photons: 3/4 x 3 d_L^2 f / (c R_b^2 delta^4 eps')
    e = 10 ** rng.uniform(-12, -2, 4)
    f = 10 ** rng.uniform(-18, -8, 4)
    ud = mon.val("u", b.u_ph_synch_diff(e, f * u.Unit("erg cm-2 s-1")), "erg cm-3")
    mon.close("photon_density", ud, ref.u_synch_diff(par["R_b"], par["d_L"], par["delta"], e, f), 1e-8)
    if par["spec"]["type"] != "Interpolated" and not ssa:
        k = b.n_e.k
        b.n_e.k = k * 3
        mon.close("quadratic_in_n", mon.val("sed", c.sed_flux(nu * u.Hz), "erg cm-2 s-1"), 9 * got, 1e-9)
        b.n_e.k = k


def thomson(rng, mon, tier):
    """total SSC luminosity of soft photons: 4/3 sigma_T c u_synch <gamma^2> N, independent of the kernel's grid"""
    mon.floor = 1e-150
    from agnpy.compton import SynchrotronSelfCompton
    from agnpy.emission_regions import Blob
    s = gen.spectrum(rng, gmin=(10, 15), gmax=(3e2, 6e2), types=["PowerLaw", "BrokenPowerLaw"], edge=False)
    B = gen.logu(rng, 0.01, 1)
    size = 200
    b = Blob(R_b=gen.logu(rng, 1e15, 1e17) * u.cm, z=0.1, delta_D=10, Gamma=10, B=B * u.G, n_e=gen.build(s), gamma_e_size=size)
    mon.case(spec=s, B=B)
    nu = np.logspace(8, 24, 200)
    sed = mon.val("sed", SynchrotronSelfCompton(b).sed_flux(nu * u.Hz), "erg cm-2 s-1")
    L = ref.trapz(sed / nu, nu) * 4 * np.pi * ref.d_L_cm(0.1) ** 2 / 10**4
    from agnpy.synchrotron import Synchrotron
    syn = mon.val("sed", Synchrotron(b).sed_flux(nu * u.Hz), "erg cm-2 s-1")
    Ls = ref.trapz(syn / nu, nu) * 4 * np.pi * ref.d_L_cm(0.1) ** 2 / 10**4
    R = b.R_b.to_value("cm")
    u_syn = 0.75 * 3 * Ls / (4 * np.pi * R**2 * ref.C)
    g = np.logspace(np.log10(s["gamma_min"]), np.log10(s["gamma_max"]), 2000)
    n = ref.n_of(s, np.clip(g, s["gamma_min"], s["gamma_max"]))
    pred = 4 / 3 * ref.SIGMA_T * ref.C * u_syn * 4 / 3 * np.pi * R**3 * ref.trapz(n * g**2, g)
    mon.close("thomson_limit", L, pred, 0.7)


KINDS = {"blob": (case, 195, 2500), "thomson": (thomson, 60, 400)}
