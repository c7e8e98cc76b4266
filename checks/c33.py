"""C33: energy loss rates of the electrons of a blob."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C33"
RULE = "distinct (blob, Lorentz factors) with non-null losses"
ASSUMPTIONS = ["SSC losses: seed photons from the same grids as the product (200 Lorentz factors between 10 and 1e9, 200 frequencies between 1e5 and 1e30 Hz)",
               "Thomson limit within 25% (residual Klein-Nishina corrections and grids)"]
MONITORS = ["synch", "thomson", "ssc", "suppression", "thomson_limit", "linear", "order", "follows_state", "cooling_sign"]
NU = np.logspace(5, 30, 200)
G = np.logspace(1, 9, 200)


def u_syn(par):
    eps = ref.eps_prime(NU, par["z"], par["delta"])
    sed = ref.synch_sed(NU, par["z"], par["d_L"], par["delta"], par["B"], par["R_b"], par["spec"], G)
    return eps, ref.u_synch_diff(par["R_b"], par["d_L"], par["delta"], eps, sed)


def ssc_rate(par, g):
    eps, us = u_syn(par)
    b = 4 * g[:, None] * eps[None]
    with np.errstate(all="ignore"):
        f = np.where(b < 1e4, (1 + b) ** -1.5, 9 / (2 * b**2) * (np.log(b) - 11 / 6))
    return 4 / 3 * ref.SIGMA_T * ref.C * g**2 * ref.trapz((f * us[None]).T, eps)


def case(rng, mon, tier):
    from agnpy.synchrotron import Synchrotron
    from agnpy.compton import SynchrotronSelfCompton
    par, b = gen.blob(rng)
    g = 10 ** rng.uniform(0, 9, int(rng.integers(1, 12)))
    mon.case(par=gen.pub(par), g=list(g))
    mon.floor = 1e-150
    UB = par["B"] ** 2 / (8 * np.pi)
    s, c = Synchrotron(b), SynchrotronSelfCompton(b, ssa=bool(rng.random() < 0.3))
    gen.stir(rng, par["spec"], b, lambda: [s.electron_energy_loss_rate(g), c.electron_energy_loss_rate(g), c.electron_energy_loss_rate_thomson(g)], more=[(c, "ssa", not c.ssa)])
    syn = mon.val("rate", s.electron_energy_loss_rate(g), "erg s-1")
    mon.close("synch", syn, 4 / 3 * ref.SIGMA_T * ref.C * UB * g**2, 1e-6)
    n2 = float(ref.trapz(ref.n_of(par["spec"], np.clip(gen.blob_gamma(par), par["spec"]["gamma_min"], par["spec"]["gamma_max"])) * gen.blob_gamma(par) ** 2, gen.blob_gamma(par)))
    uph = ref.SIGMA_T * UB * par["R_b"] * n2
    th = mon.val("rate", c.electron_energy_loss_rate_thomson(g), "erg s-1")
    mon.close("thomson", th, 4 / 3 * ref.SIGMA_T * ref.C * uph * g**2, 1e-6)
    kn = mon.val("rate", c.electron_energy_loss_rate(g), "erg s-1")
    want = ssc_rate(par, g)
    # the correction factor is not continuous where b = 1e4
    mon.close("ssc", kn, want, 1e-4, np.abs(ssc_rate(par, g * (1 + 1e-9)) - want) * 2)
    eps, us = u_syn(par)
    top = 4 / 3 * ref.SIGMA_T * ref.C * g**2 * ref.trapz(us, eps)
    mon.ok("suppression", np.all((kn >= 0) & (kn <= top * (1 + 1e-9))), kn=list(kn), top=list(top))
    k = rng.permutation(g.size)
    mon.close("order", mon.val("rate", c.electron_energy_loss_rate(g[k]), "erg s-1"), kn[k], 1e-10)
    f = float(rng.uniform(0.1, 10))
    if par["spec"]["type"] != "Interpolated":
        b.n_e.k = b.n_e.k * f
        mon.close("linear", mon.val("rate", c.electron_energy_loss_rate(g), "erg s-1"), f * kn, 1e-6)
        mon.close("linear", mon.val("rate", c.electron_energy_loss_rate_thomson(g), "erg s-1"), f * th, 1e-6)
        mon.close("linear", mon.val("rate", s.electron_energy_loss_rate(g), "erg s-1"), syn, 1e-10)
    b.B = 2 * b.B
    mon.close("follows_state", mon.val("rate", s.electron_energy_loss_rate(g), "erg s-1"), 4 * syn, 1e-9)


def limit(rng, mon, tier):
    """all the collisions in the Thomson regime: the loss is that on the total density of synchrotron photons"""
    from agnpy.compton import SynchrotronSelfCompton
    from agnpy.time_evolution import synchrotron_loss, ssc_loss, ssc_thomson_limit_loss, fermi_acceleration, FnParams
    from agnpy.synchrotron import Synchrotron
    s = gen.spectrum(rng, gmin=(20, 100), gmax=(1e3, 1e4), edge=False)
    par, b = gen.blob(rng, (s, gen.build(s)))
    b.B = float(np.clip(par["B"], 1e-3, 1.0)) * u.G
    b.delta_D = max(par["delta"], 1.0)  # the grid of (observed) frequencies begins at 1e5 Hz
    g = np.array([1.0, 3.0, 10.0])
    mon.case(par=gen.pub(par))
    c, y = SynchrotronSelfCompton(b), Synchrotron(b)
    kn = mon.val("rate", c.electron_energy_loss_rate(g), "erg s-1")
    th = mon.val("rate", c.electron_energy_loss_rate_thomson(g), "erg s-1")
    mon.close("thomson_limit", kn, th, 0.25)
    # the rates offered to the time evolution: losses negative, gains positive
    P = FnParams(gamma=g, densities=np.ones(3) * u.Unit("cm-3"), density_subgroups=np.ones((1, 3)))
    for fn, w in ((synchrotron_loss(y), -mon.val("rate", y.electron_energy_loss_rate(g), "erg s-1")), (ssc_loss(c), -kn), (ssc_thomson_limit_loss(c), -th)):
        mon.close("cooling_sign", mon.val("rate", fn(P), "erg s-1"), w, 1e-12)
    t = gen.logu(rng, 1, 1e9)
    mon.close("cooling_sign", mon.val("rate", fermi_acceleration((t * u.s).to(str(rng.choice(["s", "d", "yr"]))))(P), "erg s-1"), g * ref.MEC2 / t, 1e-9)


KINDS = {"rates": (case, 375, 4000), "limit": (limit, 100, 800)}
