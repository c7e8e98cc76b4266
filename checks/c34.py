"""C34: derived parameters and profiles of the photon targets."""
import numpy as np
import astropy.units as u
from astropy.constants import M_sun
from lib import gen, ref

PID = "C34"
RULE = "distinct target parameter sets"
ASSUMPTIONS = ["Eddington luminosity 1.26e46 erg/s per 1e8 solar masses and the other rounded constants of the references"]
MONITORS = ["cmb", "disk_units", "disk_scales", "disk_T", "disk_eps", "disk_phi", "disk_mu", "lines", "dt", "static", "printable"]


def cmb(rng, mon, tier):
    from agnpy.targets import CMB
    z = float(rng.choice([0.0, gen.logu(rng, 1e-3, 10)]))
    mon.case(z=z)
    c = CMB(z)
    T = 2.72548
    mon.close("cmb", mon.val("u_0", c.u_0, "erg cm-3"), np.asarray(4 * ref.SIGMA_SB / ref.C * T**4 * (1 + z) ** 4), 1e-3)
    mon.close("cmb", mon.val("epsilon_0", c.epsilon_0, None), np.asarray(2.7 * ref.KB * T * (1 + z) / ref.MEC2), 1e-6)


def disk(rng, mon, tier):
    from agnpy.targets import SSDisk
    d = gen.disk_par(rng)
    rg = ref.R_g(d["M"])
    Mq = (d["M"] * u.g).to(str(rng.choice(["g", "kg", "solMass"])))
    Lq = (d["L"] * u.Unit("erg s-1")).to(str(rng.choice(["erg/s", "W", "solLum"])))
    a = SSDisk(Mq, Lq, d["eta"], d["Rin_t"], d["Rout_t"], R_g_units=True)
    un = [str(x) for x in rng.choice(["cm", "m", "AU", "pc"], 2)]
    b = SSDisk(Mq, Lq, d["eta"], (d["Rin_t"] * rg * u.cm).to(un[0]), (d["Rout_t"] * rg * u.cm).to(un[1]))
    mon.case(d=d, units=un)
    for x in (a, b):
        mon.close("disk_units", mon.val("R_in", x.R_in, "cm"), np.asarray(d["Rin_t"] * rg), 1e-9)
        mon.close("disk_units", mon.val("R_out", x.R_out, "cm"), np.asarray(d["Rout_t"] * rg), 1e-9)
        mon.close("disk_units", [float(x.R_in_tilde), float(x.R_out_tilde)], [d["Rin_t"], d["Rout_t"]], 1e-9)
        M8 = d["M"] / (1e8 * ref.MSUN)
        mon.close("disk_scales", mon.val("R_g", x.R_g, "cm"), np.asarray(rg), 1e-9)
        mon.close("disk_scales", mon.val("m_dot", x.m_dot, "g s-1"), np.asarray(d["L"] / d["eta"] / ref.C**2), 1e-9)
        mon.close("disk_scales", [float(x.M_8), float(x.l_Edd)], [M8, d["L"] / (1.26e46 * M8)], 1e-9)
        mon.close("disk_scales", mon.val("L_Edd", x.L_Edd, "erg s-1"), np.asarray(1.26e46 * M8), 1e-9)
    Rt = np.sort(10 ** rng.uniform(np.log10(d["Rin_t"] * 1.001), np.log10(d["Rout_t"]), 7))
    x = a if rng.random() < 0.5 else b
    T = mon.val("T", x.T((Rt * rg * u.cm).to(str(rng.choice(["cm", "AU"])))), "K")
    mon.close("disk_T", T, ref.disk_T(Rt * rg, d["M"], d["L"] / d["eta"] / ref.C**2, d["Rin_t"] * rg), 1e-6)
    eps = ref.disk_eps(d["L"], d["M"], d["eta"], Rt)
    mon.close("disk_eps", mon.val("epsilon", x.epsilon(Rt), None), eps, 1e-8)
    mon.close("disk_phi", mon.val("phi", x.phi_disk(Rt), None), 1 - np.sqrt(d["Rin_t"] / Rt), 1e-6, 1e-12)
    # the same profiles in terms of the angle seen at a height above the disk
    rt = gen.logu(rng, 10, 1e5)
    mu = 1 / np.sqrt(1 + (Rt / rt) ** 2)
    amp = 1e-15 * (1 + (rt / Rt) ** 2)  # rounding of mu when it is close to 1
    e2 = mon.val("epsilon", x.epsilon_mu(mu, rt), None)
    mon.ok("disk_eps", np.all(np.abs(e2 / eps - 1) < 1e-8 + 5 * amp), got=list(e2), want=list(eps))
    p2 = mon.val("phi", x.phi_disk_mu(mu, rt), None)
    mon.ok("disk_phi", np.all(np.abs(p2 - (1 - np.sqrt(d["Rin_t"] / Rt))) < 1e-9 + 5 * amp), got=list(p2))
    size = int(rng.integers(2, 150))
    m = SSDisk.evaluate_mu_from_r_tilde(d["Rin_t"], d["Rout_t"], rt, size)
    mon.close("disk_mu", m, ref.disk_mu(d["Rin_t"], d["Rout_t"], rt, size), 1e-12)
    mon.close("static", mon.val("epsilon", SSDisk.evaluate_epsilon(Lq, Mq, d["eta"], Rt), None), eps, 1e-8)
    mon.ok("printable", "accretion disk" in str(a))


def shells(rng, mon, tier):
    from agnpy.targets import lines_dictionary, SphericalShellBLR
    b = gen.blr_par(rng)
    blr = gen.build_blr(rng, b)
    d = gen.dt_par(rng)
    dt = gen.build_dt(rng, d)
    mon.case(b=b, d=d)
    mon.feature(b["line"])
    mon.close("lines", mon.val("epsilon", blr.epsilon_line, None), np.asarray(b["eps"]), 1e-9)
    mon.close("lines", mon.val("R", blr.R_line, "cm"), np.asarray(b["R"]), 1e-9)
    mon.close("lines", mon.val("L", blr.L_disk, "erg s-1") * blr.xi_line, np.asarray(b["L"] * b["xi"]), 1e-9)
    mon.close("dt", mon.val("epsilon", dt.epsilon_dt, None), np.asarray(d["eps"]), 1e-9)
    mon.close("dt", mon.val("Theta", dt.Theta, None), np.asarray(d["eps"] / 2.7), 1e-9)
    mon.close("dt", mon.val("R", dt.R_dt, "cm"), np.asarray(d["R"]), 1e-9)
    mon.ok("printable", b["line"] in str(blr) and "Torus" in str(dt))


KNOWN_LINES = {  # wavelengths in Angstrom, Table 5 of Finke 2016
    "Lyepsilon": 937.80, "Lydelta": 949.74, "CIII": 977.02, "NIII": 990.69, "Lybeta": 1025.72, "OVI": 1033.83, "ArI": 1066.66, "Lyalpha": 1215.67,
    "OI": 1304.35, "SiII": 1306.82, "SiIV": 1396.76, "OIV]": 1402.06, "CIV": 1549.06, "NIV": 1718.55, "AlII": 1721.89, "CIII]": 1908.73,
    "[NeIV]": 2423.83, "MgII": 2798.75, "Hdelta": 4102.89, "Hgamma": 4341.68, "HeII": 4687.02, "Hbeta": 4862.68, "[ClIII]": 5539.43, "HeI": 5877.29, "Halpha": 6564.61,
}


def table(rng, mon, tier):
    from agnpy.targets import SphericalShellBLR
    mon.case(table=True)
    for line, lam in KNOWN_LINES.items():
        b = SphericalShellBLR(1e45 * u.Unit("erg s-1"), 0.1, line, 1e17 * u.cm)
        mon.close("lines", mon.val("epsilon", b.epsilon_line, None), np.asarray(ref.H * ref.C / (lam * 1e-8) / ref.MEC2), 1e-7)


KINDS = {"cmb": (cmb, 120, 400), "disk": (disk, 450, 5000), "shells": (shells, 300, 3000), "table": (table, 1, 1)}
