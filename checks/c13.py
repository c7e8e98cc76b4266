"""C13: external Compton SED on the five photon targets."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C13"
RULE = "distinct (blob, target, distance, frequencies, grid sizes) with a non-null SED"
ASSUMPTIONS = [
    "same integration grids as the product (200 Lorentz factors between 10 and 1e9, the mu and phi sizes in use)",
    "viewing angle between 0.08 and 18 deg; distance different from the radius of the spherical shell",
    "tolerance 1e-5 (1e-4 with the log-log rule)",
]
MONITORS = ["cmb", "ps", "disk", "blr", "dt", "static", "dispatch", "far_is_point"]
CASE_TIMEOUT = 600


def case(rng, mon, tier, name=None):
    mon.floor = 1e-150
    from agnpy.compton import ExternalCompton
    x = gen.ec(rng, name)
    name = x["name"]
    nu = gen.freqs(rng, 14, 28, int(rng.integers(1, 4)))
    mon.case(x=gen.ec_show(x), nu=list(nu))
    mon.feature(name, x["integ"], x["par"]["spec"]["type"])
    rt = 1e-5 if x["integ"] == "trapz" else 1e-4
    nq = gen.nu_q(rng, nu)
    want = ref_val = gen.ref_ec(x, nu)
    gen.stir(rng, x["par"]["spec"], x["blob"], lambda: x["ec"].sed_flux(nq), more=gen.target_steps(rng, x), p=0.5)
    got = np.asarray(mon.val("sed", x["ec"].sed_flux(nq), "erg cm-2 s-1"))
    mon.close(name, np.ravel(got), want, rt, gen.ec_noise(x, nu))
    per = {"cmb": "sed_flux_cmb", "ps": "sed_flux_ps_behind_jet", "disk": "sed_flux_ss_disk", "blr": "sed_flux_blr", "dt": "sed_flux_dt"}[name]
    if rng.random() < 0.3 or name in ("ps", "dt"):
        mon.close("dispatch", np.ravel(mon.val("sed", getattr(x["ec"], per)(nq), "erg cm-2 s-1")), np.ravel(got), 1e-12)
        # another grid through the general evaluation
        b, t, p = x["blob"], x["target"], x["par"]
        g = np.logspace(np.log10(p["spec"]["gamma_min"] * p["delta"]) - 0.2, np.log10(p["spec"]["gamma_max"] * p["delta"]) + 0.2, int(rng.integers(50, 160)))
        y = dict(x, mu_size=40, phi_size=30)
        mu, phi = np.linspace(-1, 1, 40), np.linspace(0, 2 * np.pi, 30)
        a = (nq, p["z"], b.d_L, p["delta"], b.mu_s, b.R_b)
        fn = x["ec"].integrator
        rq = x["r"] * u.cm
        ne = (b.n_e, *b.n_e.parameters)
        if name == "cmb":
            st = ExternalCompton.evaluate_sed_flux_iso_mono(*a, t.epsilon_0, t.u_0, *ne, integrator=fn, gamma=g, mu=mu, phi=phi)
        elif name == "ps":
            st = ExternalCompton.evaluate_sed_flux_ps_behind_jet(*a, t.epsilon_0, t.L_0, rq, *ne, integrator=fn, gamma=g)
        elif name == "disk":
            st = ExternalCompton.evaluate_sed_flux_ss_disk(*a, t.M_BH, t.L_disk, t.eta, t.R_in, t.R_out, rq, *ne, integrator=fn, gamma=g, mu_size=40, phi=phi)
        elif name == "blr":
            st = ExternalCompton.evaluate_sed_flux_blr(*a, t.L_disk, t.xi_line, t.epsilon_line, t.R_line, rq, *ne, integrator=fn, gamma=g, mu=mu, phi=phi)
        else:
            st = ExternalCompton.evaluate_sed_flux_dt(*a, t.L_disk, t.xi_dt, t.epsilon_dt, t.R_dt, rq, *ne, integrator=fn, gamma=g, phi=phi)
        mon.close("static", np.ravel(mon.val("sed", st, "erg cm-2 s-1")), gen.ref_ec(y, nu, g), rt, gen.ec_noise(y, nu, g))


def _k(name):
    return lambda rng, mon, tier: case(rng, mon, tier, name)


def iso(rng, mon, tier):
    """far behind the blob every target looks like a point source: EC on a distant BLR/torus/disk-sized
    source tends to the one on a point source of the same luminosity and photon energy"""
    mon.floor = 1e-150
    from agnpy.compton import ExternalCompton
    from agnpy.targets import PointSourceBehindJet
    x = gen.ec(rng, str(rng.choice(["blr", "dt"])), small=True, p_interp=0)
    t = x["tpar"]
    x["par"]["delta"] = x["blob"].delta_D
    r = t["R"] * gen.logu(rng, 2e3, 1e4)
    mon.case(x=gen.ec_show(x), r=r)
    # at these distances the collision angle is set by the viewing angle alone
    if 1 - gen.beta_mu(x["par"]) < 1e-4:
        x["blob"].set_delta_D(10, 5 * u.deg)
    far = ExternalCompton(x["blob"], x["target"], r * u.cm)
    far.set_mu(60)
    far.set_phi(40)
    ps = ExternalCompton(x["blob"], PointSourceBehindJet(t["xi"] * t["L"] * u.Unit("erg s-1"), t["eps"]), r * u.cm)
    nu = np.logspace(15, 28, 27) * u.Hz
    a, b = mon.val("sed", far.sed_flux(nu), "erg cm-2 s-1"), mon.val("sed", ps.sed_flux(nu), "erg cm-2 s-1")
    # the threshold of the kernel steps over the grid: compare the energy fluxes, not the single points
    mon.close("far_is_point", a.sum(), b.sum(), 0.3)


KINDS = {"cmb": (_k("cmb"), 36, 350), "ps": (_k("ps"), 120, 1500), "disk": (_k("disk"), 36, 350), "blr": (_k("blr"), 36, 350),
         "dt": (_k("dt"), 80, 1000), "far": (iso, 48, 300)}
