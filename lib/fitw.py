"""fit models (sherpa and gammapy wrappers) with random parameters"""
import numpy as np
import astropy.units as u
from . import gen, ref

LIMITS = {"k": (-15, 15), "gamma_min": (0, 4), "gamma_max": (4, 8), "brk": (2, 6)}


def n_e_spec(rng, t=None):
    """a distribution whose parameters fit in the ranges of the fit parameters"""
    t = t or str(rng.choice(gen.SPECTRA))
    s = {"type": t, "gamma_min": gen.logu(rng, 2, 1e3), "gamma_max": gen.logu(rng, 1e5, 5e7), "k": 10 ** float(rng.uniform(-8, 4))}
    mid = lambda: gen.logu(rng, 2e2, 5e5)
    if t in ("PowerLaw", "ExpCutoffPowerLaw"):
        s["p"] = float(rng.uniform(1.1, 4))
        if t == "ExpCutoffPowerLaw":
            s["gamma_c"] = mid()
    elif t == "LogParabola":
        s.update(p=float(rng.uniform(1.1, 3.5)), q=float(rng.uniform(0.01, 0.6)), gamma_0=mid())
    else:
        s.update(p1=float(rng.uniform(1.1, 3)), p2=float(rng.uniform(1.5, 4.5)), gamma_b=mid())
        if t == "ExpCutoffBrokenPowerLaw":
            s["gamma_c"] = mid()
    return s


def region(rng):
    delta = float(rng.uniform(2, 60))
    Gamma = delta * float(rng.uniform(0.55, 1.5))
    return {"z": float(rng.uniform(0.005, 3)), "delta_D": delta, "Gamma": max(Gamma, 1.2), "B": gen.logu(rng, 1e-3, 50), "t_var": gen.logu(rng, 50, 2e7), "r": gen.logu(rng, 2e16, 5e20)}


def targets(rng):
    d = gen.disk_par(rng)
    d["L"] = gen.logu(rng, 6e44, 5e47)
    rg = ref.R_g(d["M"])
    # ranges of the parameters of the fit
    d["mdot"] = d["L"] / (d["eta"] * ref.C**2)
    d["Rin"] = float(np.clip(d["Rin_t"] * rg, 2e12, 5e15))
    d["Rout"] = d["Rin"] * gen.logu(rng, 10, 500)
    blr = gen.blr_par(rng)
    blr["R"] = gen.logu(rng, 2e16, 9e17)
    dt = gen.dt_par(rng)
    dt["R"] = gen.logu(rng, 2e17, 5e19)
    return d, blr, dt


def disk_object(rng, d):
    from agnpy.targets import SSDisk
    return SSDisk((d["M"] * u.g).to(str(rng.choice(["g", "solMass"]))), d["L"] * u.Unit("erg s-1"), d["eta"], (d["Rin"] * u.cm).to(str(rng.choice(["cm", "AU"]))), d["Rout"] * u.cm)


def blob_object(rng, reg, n_e):
    from agnpy.emission_regions import Blob
    R = ref.C * reg["t_var"] * reg["delta_D"] / (1 + reg["z"])
    return Blob(R_b=(R * u.cm).to(str(rng.choice(["cm", "pc"]))), z=reg["z"], delta_D=reg["delta_D"], Gamma=reg["Gamma"], B=(reg["B"] * u.G).to(str(rng.choice(["G", "mG", "T"]))), n_e=n_e)


def make(kind, backend, n_e, tg=None, ssa=False):
    from agnpy.fit import SynchrotronSelfComptonModel, ExternalComptonModel
    if kind == "ssc":
        return SynchrotronSelfComptonModel(n_e, ssa=ssa, backend=backend)
    return ExternalComptonModel(n_e, tg, ssa=ssa, backend=backend)


def params(model, backend):
    """{name: parameter}"""
    ps = model.pars if backend == "sherpa" else model.parameters
    return {p.name: p for p in ps}


def value(p, backend):
    return float(p.val if backend == "sherpa" else p.value)


def setval(model, backend, name, v):
    if backend == "sherpa":
        setattr(model, name, v)
    else:
        model.parameters[name].value = v


def evaluate(mon, model, backend, E, rng=None):
    """SED [erg cm-2 s-1] at the energies E [eV]"""
    if backend == "sherpa":
        y = model(np.array(E))
        return mon.val("sherpa", y, "erg cm-2 s-1")
    un = "eV" if rng is None else str(rng.choice(["eV", "keV", "TeV", "erg"]))
    q = (np.array(E) * u.eV).to(un)
    shape = (-1,) if rng is None or rng.random() < 0.6 else (-1, 1, 1)
    y = model(q.reshape(shape))
    mon.ok("gammapy_shape", y.shape == q.reshape(shape).shape)
    d = mon.val("gammapy", y, "cm-2 s-1 eV-1").ravel()
    return d * np.array(E) ** 2 * ref.EV
