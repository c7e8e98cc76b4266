"""C14: scaling laws of the SEDs (metamorphic monitors, no reference formula)."""
import numpy as np
import astropy.units as u
from lib import gen, ref, proc

PID = "C14"
RULE = "distinct (process, blob, target, frequencies, transformation) with a non-null SED"
ASSUMPTIONS = ["tolerance 1e-6, plus the effect of a relative change of 1e-9 of the frequency (kinematic thresholds on a grid)",
               "SSC: 1e-5, shifts by whole steps of the (observed) grid of seed frequencies, frequencies that no seed photon below 1e6 Hz can reach"]
MONITORS = ["luminosity", "beaming", "distance", "density", "volume", "target_luminosity", "bulk_motion", "empty", "electrons_additive", "frame"]


def sed(mon, p, nu):
    return mon.val("sed", p.sed_flux(nu * u.Hz), "erg cm-2 s-1")


STEP = 10 ** (25 / 199)


def eq(mon, name, f, nu, got, fac, rtol=1e-6, **d):
    """got = fac * f(nu), up to the sensitivity of f to rounding of the frequency"""
    w = f(nu)
    s = np.abs(f(nu * (1 + 1e-9)) - w) + np.abs(f(nu * (1 - 1e-9)) - w)
    mon.close(name, got, w * fac, rtol, 3 * s * abs(fac) + 1e-150, **d)


def case(rng, mon, tier):
    name = str(rng.choice(proc.ALL))
    ssc = name.startswith("ssc")
    P = proc.Proc(rng, name, **(dict(gmin=(10, 1e3), gmax=(1e4, 1e6)) if ssc else {}))
    nu = P.nus(rng)
    if ssc:
        nu = np.clip(nu, 2e6 * P.spec["gamma_max"] ** 2 * rng.uniform(1, 3, nu.size), None)
    mon.case(nu=list(nu), **P.show())
    mon.feature(P.name)
    # the seed photons of the SSC are sampled on a fixed grid of observed
    # frequencies: shift by whole steps of it
    whole = lambda x: STEP ** int(rng.choice([-3, -2, -1, 1, 2, 3])) if ssc else x
    rtol = 1e-5 if ssc else 1e-6
    p = P.process()
    par = P.par
    f = lambda x: np.ravel(sed(mon, p, x))
    base = f(nu)
    L = mon.val("luminosity", p.sed_luminosity(nu * u.Hz), "erg s-1")
    dL = P.d_L()
    mon.close("luminosity", np.ravel(L), base * 4 * np.pi * dL**2, 1e-9)
    what = str(rng.choice(["delta", "z", "n", "R", "L", "Gamma", "pass"]))
    mon.case(what=what)
    mon.feature(what)
    if what == "delta" and not P.ec:
        d2 = par["delta"] * whole(gen.logu(rng, 0.1, 10))
        q = P.process(P.blob(delta=d2))
        nu2 = nu * d2 / par["delta"]
        eq(mon, "beaming", f, nu, np.ravel(sed(mon, q, nu2)), (d2 / par["delta"]) ** 4, rtol)
    elif what in ("z", "delta") and P.name != "ec_cmb":
        z2 = float(rng.uniform(0.01, 4))
        if ssc:
            z2 = (1 + par["z"]) * STEP ** int(rng.integers(1, 4)) - 1
        q = P.process(P.blob(z=z2))
        nu2 = nu * (1 + par["z"]) / (1 + z2)
        eq(mon, "distance", f, nu, np.ravel(sed(mon, q, nu2)), (dL / P.d_L(z2)) ** 2, rtol)
        # same source observed at another redshift: the luminosity does not change
        fl = lambda x: np.ravel(mon.val("luminosity", p.sed_luminosity(x * u.Hz), "erg s-1"))
        eq(mon, "frame", fl, nu, np.ravel(mon.val("luminosity", q.sed_luminosity(nu2 * u.Hz), "erg s-1")), 1.0, rtol)
    elif what == "n" and not P.ssa:
        k = gen.logu(rng, 1e-3, 1e3)
        d2 = P.dist_scaled(k)
        if d2 is not None:
            q = P.process(P.blob(dist=d2))
            mon.close("density", np.ravel(sed(mon, q, nu)), base * k ** (2 if P.name == "ssc" else 1), 1e-6)
    elif what == "R" and not P.ssa:
        k = gen.logu(rng, 1e-2, 1e2)
        q = P.process(P.blob(R_b=par["R_b"] * k))
        mon.close("volume", np.ravel(sed(mon, q, nu)), base * k ** (4 if P.name == "ssc" else 3), 1e-6)
    elif P.name in ("ec_ps", "ec_blr", "ec_dt"):
        import copy
        k = gen.logu(rng, 1e-3, 1e3)
        t = copy.deepcopy(P.target)
        at = "L_0" if P.name == "ec_ps" else "L_disk"
        setattr(t, at, k * getattr(t, at))
        mon.close("target_luminosity", np.ravel(sed(mon, P.process(target=t), nu)), base * k, 1e-6)
    elif not P.ec:
        # the comoving processes do not know about the bulk motion, nor the acceleration efficiency
        q = P.process(P.blob(Gamma=gen.logu(rng, 1.1, 60), xi=gen.logu(rng, 1e-6, 1)))
        mon.close("bulk_motion", np.ravel(sed(mon, q, nu)), base, 1e-12)
    if rng.random() < 0.2 and P.name != "psynch":
        from agnpy.spectra import EmptyDistribution
        e = P.process(P.blob(dist=EmptyDistribution()))
        v = np.ravel(sed(mon, e, nu))
        mon.ok("empty", np.all(v == 0), v=list(v))


def additive(rng, mon, tier):
    """adjacent populations of electrons emit independently"""
    from agnpy.synchrotron import Synchrotron
    from agnpy.compton import ExternalCompton
    P = proc.Proc(rng, str(rng.choice(["synch", "ec_ps", "ec_dt", "ec_cmb", "ssc"])), p_interp=0)
    nu = P.nus(rng)
    g = np.logspace(np.log10(P.spec["gamma_min"]), np.log10(P.spec["gamma_max"]), int(rng.integers(20, 120)))
    i = int(rng.integers(5, g.size - 5))
    mon.case(nu=list(nu), split=i, n=g.size, **P.show())
    p, b = P.process(), P.blob()
    par = P.par
    n_e, args = b.n_e, b.n_e.parameters
    nq, R, z, dL = nu * u.Hz, b.R_b, b.z, b.d_L
    from agnpy.compton import SynchrotronSelfCompton as SSC
    mu = np.linspace(-1, 1, 15)
    phi = np.linspace(0, 2 * np.pi, 12)
    kw = dict(integrator=P.integ)

    def run(gg):
        if P.name == "synch":
            v = Synchrotron.evaluate_sed_flux(nq, z, dL, b.delta_D, b.B, R, n_e, *args, gamma=gg, **kw)
        elif P.name == "ssc":
            # seed photons from the same electrons: quadratic, checked with polarisation below
            v = SSC.evaluate_sed_flux(nq, z, dL, b.delta_D, b.B, R, n_e, *args, gamma=gg, **kw)
        elif P.name == "ec_ps":
            v = ExternalCompton.evaluate_sed_flux_ps_behind_jet(nq, z, dL, b.delta_D, b.mu_s, R, P.target.epsilon_0, P.target.L_0, P.r * u.cm, n_e, *args, gamma=gg, **kw)
        elif P.name == "ec_cmb":
            v = ExternalCompton.evaluate_sed_flux_iso_mono(nq, z, dL, b.delta_D, b.mu_s, R, P.target.epsilon_0, P.target.u_0, n_e, *args, gamma=gg, mu=mu, phi=phi, **kw)
        else:
            t = P.target
            v = ExternalCompton.evaluate_sed_flux_dt(nq, z, dL, b.delta_D, b.mu_s, R, t.L_disk, t.xi_dt, t.epsilon_dt, t.R_dt, P.r * u.cm, n_e, *args, gamma=gg, phi=phi, **kw)
        return mon.val("sed", v, "erg cm-2 s-1")

    tot, lo, hi = run(g), run(g[:i + 1]), run(g[i:])
    if P.name == "ssc":
        # electrons x photons: lo.lo + hi.hi + cross terms, never less than the parts
        mon.ok("electrons_additive", np.all(tot >= (lo + hi) * (1 - 1e-6)), tot=list(tot), parts=list(lo + hi))
        mon.nontrivial = True
    else:
        mon.close("electrons_additive", tot, lo + hi, 1e-8, 1e-150)


KINDS = {"scaling": (case, 840, 9000), "additive": (additive, 120, 1500)}
