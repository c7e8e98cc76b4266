"""C10: electron synchrotron SED and self-absorption."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C10"
RULE = "distinct (blob, distribution, frequencies, options) with a non-null SED"
ASSUMPTIONS = [
    "same integration grid as the product (the blob's own, or the one passed in); tolerance 1e-6 (2e-5 with the log-log rule)",
    "for optical depths within 5% of 1e-3 the attenuation may or may not be set to 1 (documented switch)",
]
MONITORS = ["sed", "sed:ssa", "tau", "static", "static:default_grid", "delta_approx", "scalar", "nu_peak", "thick", "ssa<=no_ssa"]


def _att(tau):
    return ref.attenuation(tau)


def case(rng, mon, tier):
    mon.floor = 1e-150
    from agnpy.synchrotron import Synchrotron, nu_synch_peak
    fn, iname = gen.integrator(rng)
    integ = ref.INTEGRATORS[iname]
    rt = 1e-6 if iname == "trapz" else 3e-5
    par, b = gen.blob(rng)
    ssa = bool(rng.random() < 0.5)
    nu = gen.freqs(rng, 8, 24)
    nq = gen.nu_q(rng, nu)
    mon.case(par=gen.pub(par), nu=list(nu), ssa=ssa, integ=iname)
    mon.feature(par["spec"]["type"], iname, f"ssa={ssa}", f"z<0.1={par['z'] < 0.1}")
    g = gen.blob_gamma(par)
    args = (par["z"], par["d_L"], par["delta"], par["B"], par["R_b"], par["spec"])
    tau = ref.tau_ssa(nu, par["z"], par["delta"], par["B"], par["R_b"], par["spec"], g, integ)
    plain = ref.synch_sed(nu, *args, g, integ)
    near = np.abs(tau / 1e-3 - 1) < 0.05
    s = Synchrotron(b, ssa=ssa, integrator=fn)
    gen.stir(rng, par["spec"], b, lambda: [s.sed_flux(nq), s.sed_flux_delta_approx(nq)], more=[(s, "ssa", not ssa), (s, "integrator", gen.integrator(rng)[0])])
    got = mon.val("sed", s.sed_flux(nq), "erg cm-2 s-1")
    if ssa:
        want = plain * _att(tau)
        mon.close("sed:ssa", got, want, rt, np.where(near, 5e-4, 0) * np.abs(want))
    else:
        mon.close("sed", got, plain, rt)
    zz = (par["z"], b.d_L, par["delta"], b.B, b.R_b, b.n_e, *b.n_e.parameters)
    t = mon.val("tau", Synchrotron.evaluate_tau_ssa(nq, *zz, integrator=fn, gamma=g), None)
    mon.close("tau", t, tau, 10 * rt)
    # static evaluation on another grid, other units
    g2 = np.logspace(np.log10(par["spec"]["gamma_min"]) - 0.3, np.log10(par["spec"]["gamma_max"]) + 0.2, int(rng.integers(60, 260)))
    zz2 = (par["z"], b.d_L.to(str(rng.choice(["Mpc", "cm", "m"]))), par["delta"], b.B, b.R_b, b.n_e, *b.n_e.parameters)
    st = mon.val("static", Synchrotron.evaluate_sed_flux(nq, *zz2, ssa=True, integrator=fn, gamma=g2), "erg cm-2 s-1")
    tau2 = ref.tau_ssa(nu, par["z"], par["delta"], par["B"], par["R_b"], par["spec"], g2, integ)
    want2 = ref.synch_sed(nu, *args, g2, integ) * _att(tau2)
    mon.close("static", st, want2, rt, np.where(np.abs(tau2 / 1e-3 - 1) < 0.05, 5e-4, 0) * np.abs(want2))
    st = mon.val("static", Synchrotron.evaluate_sed_flux(nq, *zz2), "erg cm-2 s-1")
    mon.close("static:default_grid", st, ref.synch_sed(nu, *args, np.logspace(1, 9, 200)), 1e-6)
    # self-absorption only removes
    other = Synchrotron(b, ssa=not ssa, integrator=fn)
    o = mon.val("sed", other.sed_flux(nq), "erg cm-2 s-1")
    lo, hi = (got, o) if ssa else (o, got)
    if np.all(tau >= 0):
        mon.ok("ssa<=no_ssa", np.all(lo <= hi * (1 + 1e-9) + 1e-290), lo=list(lo), hi=list(hi))
    x = float(nu[0])
    sc = np.ravel(mon.val("sed", s.sed_flux(x * u.Hz), "erg cm-2 s-1"))
    mon.close("scalar", sc, got[:1], 1e-6)
    d = mon.val("delta", s.sed_flux_delta_approx(nq), "erg cm-2 s-1")
    wd = ref.synch_delta_sed(nu, *args)
    gs = np.sqrt(ref.eps_prime(nu, par["z"], par["delta"]) / (par["B"] / 4.414e13))
    edge = (np.abs(gs / par["spec"]["gamma_min"] - 1) < 1e-8) | (np.abs(gs / par["spec"]["gamma_max"] - 1) < 1e-8)
    mon.close("delta_approx", np.where(edge, 0, d), np.where(edge, 0, wd), 1e-7)
    # frequencies that fall inside of the delta approximation range
    gin = 10 ** rng.uniform(np.log10(par["spec"]["gamma_min"]), np.log10(par["spec"]["gamma_max"]), 4)
    nin = gin**2 * (par["B"] / 4.414e13) * ref.MEC2 / ref.H * par["delta"] / (1 + par["z"])
    mon.close("delta_approx", mon.val("delta", s.sed_flux_delta_approx(nin * u.Hz), "erg cm-2 s-1"), ref.synch_delta_sed(nin, *args), 1e-6)
    pk = mon.val("nu_peak", nu_synch_peak(b.B, gin), "Hz")
    mon.close("nu_peak", pk, ref.E * par["B"] * gin**2 / (2 * np.pi * ref.ME * ref.C), 1e-8)


def thick(rng, mon, tier):
    """compact blobs: the radio emission is optically thick; slope and level of the source function"""
    mon.floor = 1e-150
    from agnpy.synchrotron import Synchrotron
    from lib.harness import optional
    tau_to_attenuation = optional("agnpy.synchrotron.synchrotron", "tau_to_attenuation")
    s = gen.spectrum(rng, k=(1e2, 1e8), gmin=(1, 50))
    par, b = gen.blob(rng, (s, gen.build(s)))
    nu = np.sort(10 ** rng.uniform(7, 13, 6))
    mon.case(par=gen.pub(par), nu=list(nu))
    g = gen.blob_gamma(par)
    args = (par["z"], par["delta"], par["B"], par["R_b"], par["spec"], g)
    tau = ref.tau_ssa(nu, *args)
    plain = ref.synch_sed(nu, par["z"], par["d_L"], *args[1:])
    got = mon.val("sed", Synchrotron(b, ssa=True).sed_flux(nu * u.Hz), "erg cm-2 s-1")
    near = np.abs(tau / 1e-3 - 1) < 0.05
    mon.close("thick", got, plain * _att(tau), 1e-6, np.where(near, 5e-4, 0) * plain)
    big = tau > 1e3
    if np.any(big):
        mon.feature("tau>1000")
        mon.close("thick", got[big], 1.5 * plain[big] / tau[big], 5e-3)
    t = np.concatenate([10 ** rng.uniform(-2.5, 6, 20), [0.0, 1e-9, 1e-5]])
    if tau_to_attenuation is None:
        return
    att = np.asarray(tau_to_attenuation(t), float)
    mon.close("attenuation", att, _att(t), 1e-6, 4e-4 * (t < 2e-3))
    mon.ok("attenuation", np.all((att > 0) & (att <= 1 + 1e-9)))


KINDS = {"blob": (case, 650, 5000), "thick": (thick, 300, 2500)}
