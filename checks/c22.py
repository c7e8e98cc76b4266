"""C22: Lorentz factor limits and cooling breaks of SpectralConstraints."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C22"
RULE = "distinct (blob, torus, distance) and update histories"
ASSUMPTIONS = ["particle integrals on the blob's own grid"]
MONITORS = ["larmor", "ballistic", "max_synch", "max_SSC", "max_EC_DT", "break_synch", "break_SSC", "break_EC_DT", "balance", "follows_state"]


def check(rng, mon, b, m, c, dts):
    UB = m["B"] ** 2 / (8 * np.pi)
    g = np.logspace(np.log10(m["spec"]["gamma_min"]), np.log10(m["spec"]["gamma_max"]), m["size"])
    n2 = float(ref.trapz(ref.n_of(m["spec"], np.clip(g, m["spec"]["gamma_min"], m["spec"]["gamma_max"])) * g**2, g))
    us = ref.SIGMA_T * UB * m["R_b"] * n2
    lar = m["R_b"] * ref.E * m["B"] / ref.MEC2
    br = lambda U: 3 * ref.MEC2 / (4 * ref.SIGMA_T * U * m["R_b"])
    mx = lambda U: np.sqrt(3 * m["xi"] * ref.E * m["B"] / (4 * ref.SIGMA_T * U))
    A = lambda x: np.asarray(x, float)
    mon.close("larmor", mon.val("g", c.gamma_max_larmor, None), A(lar), 1e-7)
    mon.close("ballistic", mon.val("g", c.gamma_max_ballistic, None), A(lar * m["xi"]), 1e-7)
    mon.close("max_synch", mon.val("g", c.gamma_max_synch, None), A(mx(UB)), 1e-7)
    mon.close("max_SSC", mon.val("g", c.gamma_max_SSC, None), A(mx(us)), 1e-6)
    mon.close("break_synch", mon.val("g", c.gamma_break_synch, None), A(br(UB)), 1e-7)
    mon.close("break_SSC", mon.val("g", c.gamma_break_SSC, None), A(br(us)), 1e-6)
    for d, dt in dts:
        for r in (0.0, d["R"] * gen.logu(rng, 1e-2, 30)):
            x = np.hypot(d["R"], r)
            be = np.sqrt(1 - 1 / m["Gamma"] ** 2)
            U = d["xi"] * d["L"] / (4 * np.pi * ref.C * x**2) * (m["Gamma"] * (1 - be * r / x)) ** 2
            rq = (r * u.cm).to(str(rng.choice(["cm", "pc"])))
            a = (dt,) if r == 0 and rng.random() < 0.5 else (dt, rq)
            mon.close("max_EC_DT", mon.val("g", c.gamma_max_EC_DT(*a), None), A(mx(U)), 1e-7)
            mon.close("break_EC_DT", mon.val("g", c.gamma_break_EC_DT(*a), None), A(br(U)), 1e-7)
    # energy balance at the limits: acceleration xi c e B equals the losses of the product
    from agnpy.synchrotron import Synchrotron
    from agnpy.compton import SynchrotronSelfCompton
    acc = m["xi"] * ref.C * ref.E * m["B"]
    mon.close("balance", mon.val("rate", Synchrotron(b).electron_energy_loss_rate(c.gamma_max_synch), "erg s-1"), A(acc), 1e-6)
    mon.close("balance", mon.val("rate", SynchrotronSelfCompton(b).electron_energy_loss_rate_thomson(c.gamma_max_SSC), "erg s-1"), A(acc), 1e-6)
    mon.close("balance", mon.val("rate", Synchrotron(b).electron_energy_loss_rate(c.gamma_break_synch), "erg s-1") * m["R_b"] / ref.C, A(br(UB) * ref.MEC2), 1e-6)


def case(rng, mon, tier):
    from agnpy.constraints import SpectralConstraints
    par, b = gen.blob(rng, gmin=(1, 1e3))
    dts = []
    for _ in range(2):
        d = gen.dt_par(rng)
        dts.append((d, gen.build_dt(rng, d)))
    c = SpectralConstraints(b)
    mon.case(par=gen.pub(par), d=[x[0] for x in dts])
    gen.stir(rng, par["spec"], b, lambda: [c.gamma_max_larmor, c.gamma_max_ballistic, c.gamma_max_synch, c.gamma_max_SSC, c.gamma_break_synch, c.gamma_break_SSC,
                                           c.gamma_max_EC_DT(dts[0][1], 1e18 * u.cm), c.gamma_break_EC_DT(dts[0][1], 1e18 * u.cm)])
    check(rng, mon, b, par, c, dts)
    if rng.random() < 0.6:
        for _ in range(int(rng.integers(1, 4))):
            op = str(rng.choice(["B", "R_b", "Gamma", "n_e", "xi"]))
            mon.feature(op)
            if op == "B":
                par["B"] = gen.logu(rng, 1e-4, 1e2)
                b.B = par["B"] * u.G
            elif op == "R_b":
                par["R_b"] = gen.logu(rng, 1e14, 1e18)
                b.R_b = (par["R_b"] * u.cm).to("pc")
            elif op == "Gamma":
                par["Gamma"] = gen.logu(rng, 1.2, 60)
                b.Gamma = par["Gamma"]
            elif op == "xi":
                par["xi"] = gen.logu(rng, 1e-6, 20)
                b.xi = par["xi"]
            else:
                par["spec"], b.n_e = gen.any_electrons(rng)
        mon.counts["follows_state"] += 1
        check(rng, mon, b, par, c, dts[:1])


KINDS = {"constraints": (case, 450, 5000)}
