"""seeded generators of workloads (distributions, blobs, targets, grids)"""
import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p, M_sun

SPECTRA = ["PowerLaw", "BrokenPowerLaw", "LogParabola", "ExpCutoffPowerLaw", "ExpCutoffBrokenPowerLaw"]


def logu(rng, lo, hi):
    return float(10 ** rng.uniform(np.log10(lo), np.log10(hi)))


def integrator(rng):
    """(product integrator, name of the reference one)"""
    import agnpy.utils.math as m
    if rng.random() < 0.5:
        return np.trapz, "trapz"
    return m.trapz_loglog, "loglog"


def spectrum(rng, types=None, gmin=(1.0, 1e3), gmax=(1e4, 1e8), k=(1e-9, 1e3), edge=True):
    """parameters of a random distribution (plain floats)"""
    t = str(rng.choice(types or SPECTRA))
    s = {"type": t, "gamma_min": logu(rng, *gmin), "gamma_max": logu(rng, *gmax)}
    if edge and rng.random() < 0.15:
        s["gamma_min"] = [1, 2, 10, 100][int(rng.integers(4))]  # integers, as users write them
    lo, hi = s["gamma_min"], s["gamma_max"]
    mid = lambda: logu(rng, lo * 1.5, hi / 1.5)
    kk = logu(rng, *k)
    if t in ("PowerLaw", "ExpCutoffPowerLaw"):
        s["p"] = float(rng.uniform(1.0, 4.0) if rng.random() < 0.85 else rng.uniform(0.0, 5.0))
        if edge and rng.random() < 0.2:
            s["p"] = [1, 2, 3, 1.5, 2.0][int(rng.integers(5))]
        s["k"] = kk
        if t == "ExpCutoffPowerLaw":
            s["gamma_c"] = mid()
    elif t in ("BrokenPowerLaw", "ExpCutoffBrokenPowerLaw"):
        s["p1"] = float(rng.uniform(0.5, 3.0))
        s["p2"] = float(rng.uniform(1.5, 5.0))
        if edge and rng.random() < 0.15:
            s["p1"], s["p2"] = 2, 3
        s["gamma_b"] = mid()
        s["k"] = kk * s["gamma_b"] ** -s["p1"]
        if edge and rng.random() < 0.1:  # break outside of the range
            s["gamma_b"] = lo / 3 if rng.random() < 0.5 else hi * 3
        if t == "ExpCutoffBrokenPowerLaw":
            s["gamma_c"] = mid()
    else:
        s["p"] = float(rng.uniform(1.0, 3.5))
        s["q"] = float(rng.uniform(0.01, 0.6))
        s["gamma_0"] = mid()
        s["k"] = kk * s["gamma_0"] ** -s["p"]
    return s


PAR_ORDER = {
    "PowerLaw": ["k", "p", "gamma_min", "gamma_max"],
    "BrokenPowerLaw": ["k", "p1", "p2", "gamma_b", "gamma_min", "gamma_max"],
    "LogParabola": ["k", "p", "q", "gamma_0", "gamma_min", "gamma_max"],
    "ExpCutoffPowerLaw": ["k", "p", "gamma_c", "gamma_min", "gamma_max"],
    "ExpCutoffBrokenPowerLaw": ["k", "p1", "p2", "gamma_c", "gamma_b", "gamma_min", "gamma_max"],
}


def cls_of(name):
    import agnpy.spectra as sp
    return getattr(sp, name)


def build(spec, mass=m_e, integrator=np.trapz, unit="cm-3"):
    kw = {x: spec[x] for x in PAR_ORDER[spec["type"]] if x != "k"}
    k = (spec["k"] * u.Unit("cm-3")).to(unit)
    return cls_of(spec["type"])(k=k, mass=mass, integrator=integrator, **kw)


def interp_spec(rng, interpolator=None, gmin=(1.5, 1e3), gmax=(1e4, 1e7)):
    """an interpolated distribution sampled from a random law; returns (spec, gamma, n)"""
    from scipy.interpolate import CubicSpline, PchipInterpolator
    base = spectrum(rng, types=["BrokenPowerLaw", "LogParabola", "PowerLaw"], gmin=gmin, gmax=gmax, edge=False)
    npt = int(rng.integers(12, 60))
    g = np.logspace(np.log10(base["gamma_min"]), np.log10(base["gamma_max"]), npt)
    from . import ref
    n = ref.n_of(base, g)
    itp = interpolator or [CubicSpline, PchipInterpolator][int(rng.integers(2))]
    norm = float(rng.choice([1.0, 1.0, 0.3, 2.5]))
    spec = {"type": "Interpolated", "gamma_min": float(g[0]), "gamma_max": float(g[-1]), "norm": norm,
            "spline": itp(np.log10(g), np.log10(n)), "itp": itp}
    return spec, g, n


def build_interp(spec, g, n, integrator=np.trapz, mass=m_e):
    from agnpy.spectra import InterpolatedDistribution
    return InterpolatedDistribution(g.copy(), n.copy() * u.Unit("cm-3"), norm=spec["norm"], mass=mass,
                                    integrator=integrator, interpolator=spec["itp"])


def any_electrons(rng, p_interp=0.15, integrator_fn=np.trapz, **kw):
    """(spec, product distribution) including interpolated ones"""
    if rng.random() < p_interp:
        spec, g, n = interp_spec(rng)
        return spec, build_interp(spec, g, n, integrator_fn)
    spec = spectrum(rng, **kw)
    return spec, build(spec, integrator=integrator_fn)


def show(spec):
    return {k: v for k, v in spec.items() if k not in ("spline", "itp")}


LEN = ["cm", "m", "km", "pc", "lyr", "AU"]


def cosmology(rng):
    if rng.random() < 0.7:
        return None
    from astropy.cosmology import FlatLambdaCDM, LambdaCDM
    if rng.random() < 0.5:
        return FlatLambdaCDM(H0=float(rng.uniform(50, 90)), Om0=float(rng.uniform(0.2, 0.4)))
    return LambdaCDM(H0=70, Om0=0.3, Ode0=float(rng.uniform(0.5, 0.8)))


def blob(rng, spec_dist=None, consistent_angle=False, size=None, units=True, **kw):
    """(params, product blob). params holds plain cgs floats."""
    from agnpy.emission_regions import Blob
    if spec_dist is None:
        spec_dist = any_electrons(rng, **kw)
    spec, dist = spec_dist
    R_b = logu(rng, 1e14, 1e18)
    z = float(rng.choice([logu(rng, 1e-3, 0.1), rng.uniform(0.05, 3.0)]))
    Gamma = logu(rng, 1.2, 60) if rng.random() < 0.9 else float(rng.choice([1.02, 1.1, logu(rng, 60, 200)]))
    beta = np.sqrt(1 - 1 / Gamma**2)
    if consistent_angle:
        mu = 1 - (logu(rng, 1e-6, 0.05) if rng.random() < 0.85 else logu(rng, 0.05, 0.5))
        delta = float(1 / (Gamma * (1 - beta * mu)))
    else:
        delta = logu(rng, 1.0, 60) if rng.random() < 0.85 else logu(rng, 0.1, 1.0)
    B = logu(rng, 1e-4, 1e2)
    cosmo = cosmology(rng)
    size = size or int(rng.choice([200, 200, 120, 83, 301]))
    ru = str(rng.choice(LEN)) if units else "cm"
    bu = str(rng.choice(["G", "mG", "uG", "T"])) if units else "G"
    b = Blob(R_b=(R_b * u.cm).to(ru), z=z, delta_D=delta, Gamma=Gamma, B=(B * u.G).to(bu), n_e=dist,
             gamma_e_size=size, cosmology=cosmo, xi=float(logu(rng, 1e-6, 1.0) if rng.random() < 0.8 else logu(rng, 1.0, 20.0)))
    from . import ref
    par = {"R_b": R_b, "z": z, "delta": delta, "Gamma": Gamma, "B": B, "size": size, "d_L": ref.d_L_cm(z, cosmo),
           "spec": spec, "cosmo": bool(cosmo), "xi": b.xi}
    return par, b


def blob_gamma(par):
    s = par["spec"]
    return np.logspace(np.log10(s["gamma_min"]), np.log10(s["gamma_max"]), par["size"])


def pub(par):
    d = dict(par)
    if "spec" in d:
        d["spec"] = show(d["spec"])
    return d


def freqs(rng, lo=8.0, hi=26.0, n=None):
    n = n or int(rng.integers(1, 9))
    nu = np.sort(10 ** rng.uniform(lo, hi, n))
    if rng.random() < 0.2:
        nu = nu[::-1].copy()
    return nu


def nu_q(rng, nu, spectral=False):
    """the same frequencies in another (spectral) unit"""
    q = nu * u.Hz
    un = str(rng.choice(["Hz", "Hz", "GHz", "1/s"]))
    return q.to(un) if un != "1/s" else q


def disk_par(rng):
    M = logu(rng, 1e7, 1e10) * M_sun.cgs.value
    L = logu(rng, 1e43, 1e47)
    eta = float(rng.uniform(0.05, 0.4))
    Rin_t = float(rng.uniform(1.5, 10))
    Rout_t = Rin_t * logu(rng, 10, 500)
    return {"M": M, "L": L, "eta": eta, "Rin_t": Rin_t, "Rout_t": Rout_t}


def build_disk(rng, d):
    from agnpy.targets import SSDisk
    from . import ref
    rg = ref.R_g(d["M"])
    d["Rin"], d["Rout"] = d["Rin_t"] * rg, d["Rout_t"] * rg
    Mq = (d["M"] * u.g).to(str(rng.choice(["g", "kg", "solMass"])))
    Lq = (d["L"] * u.Unit("erg s-1")).to(str(rng.choice(["erg/s", "W", "solLum"])))
    if rng.random() < 0.5:
        return SSDisk(Mq, Lq, d["eta"], d["Rin_t"], d["Rout_t"], R_g_units=True)
    un = str(rng.choice(["cm", "m", "AU"]))
    return SSDisk(Mq, Lq, d["eta"], (d["Rin"] * u.cm).to(un), (d["Rout"] * u.cm).to(un))


def blr_par(rng):
    from agnpy.targets import lines_dictionary
    line = str(rng.choice(sorted(lines_dictionary)))
    return {"L": logu(rng, 1e43, 1e47), "xi": float(rng.uniform(0.005, 0.5)), "line": line, "R": logu(rng, 1e16, 1e18)}


def build_blr(rng, d):
    from agnpy.targets import SphericalShellBLR, lines_dictionary
    from . import ref
    lam = lines_dictionary[d["line"]]["lambda"].to_value("cm")
    d["eps"] = ref.H * ref.C / lam / ref.MEC2
    Lq = (d["L"] * u.Unit("erg s-1")).to(str(rng.choice(["erg/s", "W"])))
    return SphericalShellBLR(Lq, d["xi"], d["line"], (d["R"] * u.cm).to(str(rng.choice(["cm", "pc", "lyr"]))))


def dt_par(rng):
    return {"L": logu(rng, 1e43, 1e47), "xi": float(rng.uniform(0.01, 0.9)), "T": logu(rng, 200, 3000),
            "R": logu(rng, 1e17, 1e20) if rng.random() < 0.6 else None}


def build_dt(rng, d):
    from agnpy.targets import RingDustTorus
    from . import ref
    Lq = (d["L"] * u.Unit("erg s-1")).to(str(rng.choice(["erg/s", "W"])))
    Rq = None
    if d["R"] is not None:
        Rq = (d["R"] * u.cm).to(str(rng.choice(["cm", "pc"])))
    else:
        d["R"] = 3.5e18 * np.sqrt(d["L"] / 1e45) * (d["T"] / 1e3) ** -2.6
        d["auto_R"] = True
    d["eps"] = 2.7 * ref.KB * d["T"] / ref.MEC2
    return RingDustTorus(Lq, d["xi"], d["T"] * u.K, Rq)


def cmb_par(z):
    from . import ref
    T = 2.72548
    return {"u0": 7.5657e-15 * T**4 * (1 + z) ** 4, "eps0": 2.7 * ref.KB * T / ref.MEC2 * (1 + z)}


# ------------------------------------------------------------ external Compton
EC_TARGETS = ["cmb", "ps", "disk", "blr", "dt"]


def target(rng, name, z):
    """(parameters, product target)"""
    import agnpy.targets as T
    from . import ref
    if name == "cmb":
        return cmb_par(z), T.CMB(z)
    if name == "ps":
        d = {"L0": logu(rng, 1e40, 1e46), "eps0": logu(rng, 1e-10, 1e-3)}
        return d, T.PointSourceBehindJet((d["L0"] * u.Unit("erg s-1")).to(str(rng.choice(["erg/s", "W"]))), d["eps0"])
    if name == "disk":
        d = disk_par(rng)
        return d, build_disk(rng, d)
    if name == "blr":
        d = blr_par(rng)
        return d, build_blr(rng, d)
    d = dt_par(rng)
    return d, build_dt(rng, d)


def distance(rng, name, d):
    """a distance from the black hole that matters for the target"""
    if name == "disk":
        return logu(rng, 10, 1e5) * d["Rin"] / d["Rin_t"]
    if name in ("blr", "dt"):
        return d["R"] * (logu(rng, 0.02, 50) if rng.random() < 0.8 else logu(rng, 50, 3000))
    return logu(rng, 1e16, 1e21)


def ec(rng, name=None, small=False, **kw):
    """(par, blob, name, tpar, target, r, ExternalCompton, integrator name)"""
    from agnpy.compton import ExternalCompton
    name = name or str(rng.choice(EC_TARGETS))
    fn, iname = integrator(rng)
    par, b = blob(rng, consistent_angle=True, **kw)
    tp, t = target(rng, name, par["z"])
    r = distance(rng, name, tp)
    rq = (r * u.cm).to(str(rng.choice(["cm", "pc", "m"])))
    e = ExternalCompton(b, t, r=None if name == "cmb" else rq, integrator=fn)
    mu_size, phi_size = 100, 50
    if small or rng.random() < 0.4:
        mu_size, phi_size = int(rng.integers(20, 60)), int(rng.integers(10, 40))
        e.set_mu(mu_size)
        e.set_phi(phi_size)
    return dict(par=par, blob=b, name=name, tpar=tp, target=t, r=r, ec=e, integ=iname, mu_size=mu_size, phi_size=phi_size)


def beta_mu(par):
    """viewing angle implied by the Doppler factor"""
    beta = np.sqrt(1 - 1 / par["Gamma"] ** 2)
    return min(1.0, (1 - 1 / (par["Gamma"] * par["delta"])) / beta)


def ref_ec(x, nu, gamma=None, noise=False):
    from . import ref
    p, t = x["par"], x["tpar"]
    integ = ref.INTEGRATORS[x["integ"]]
    g = np.logspace(1, 9, p["size"]) if gamma is None else gamma
    mu, phi = np.linspace(-1, 1, x["mu_size"]), np.linspace(0, 2 * np.pi, x["phi_size"])
    a = (nu, p["z"], p["d_L"], p["delta"], beta_mu(p), p["R_b"])
    if x["name"] == "cmb":
        return ref.ec_iso(*a, t["eps0"], t["u0"], p["spec"], g, mu, phi, integ)
    if x["name"] == "ps":
        return ref.ec_ps(*a, t["eps0"], t["L0"], x["r"], p["spec"], g, integ)
    if x["name"] == "disk":
        return ref.ec_disk(*a, t["M"], t["L"], t["eta"], t["Rin"], t["Rout"], x["r"], p["spec"], g, x["mu_size"], phi, integ, noise)
    if x["name"] == "blr":
        return ref.ec_blr(*a, t["L"], t["xi"], t["eps"], t["R"], x["r"], p["spec"], g, mu, phi, integ)
    return ref.ec_dt(*a, t["L"], t["xi"], t["eps"], t["R"], x["r"], p["spec"], g, phi, integ)


def ec_noise(x, nu, gamma=None):
    """error of the SED due to rounding alone"""
    if x["name"] != "disk":
        return 0.0
    return np.abs(ref_ec(x, nu, gamma, True) - ref_ec(x, nu, gamma))


def ec_show(x):
    return {"par": pub(x["par"]), "target": x["name"], "tpar": x["tpar"], "r": x["r"], "integ": x["integ"], "sizes": [x["mu_size"], x["phi_size"]]}


def other_dist(rng, spec, dist, mass=m_e):
    """another distribution as close as possible to the given one: the same numbers in its parameters"""
    t = spec["type"]
    if t == "Interpolated":
        from agnpy.spectra import InterpolatedDistribution
        g = np.logspace(np.log10(spec["gamma_min"]), np.log10(spec["gamma_max"]), 15)
        n = 10 ** rng.uniform(-5, 2) * (g / g[0]) ** -rng.uniform(1.5, 3)
        return InterpolatedDistribution(g, n * u.Unit("cm-3"), norm=spec["norm"], mass=mass)
    s = dict(spec)
    if t in ("LogParabola", "BrokenPowerLaw") and rng.random() < 0.5:
        keep = {k: spec[k] for k in ("k", "gamma_min", "gamma_max")}
        if t == "LogParabola":
            s = {"type": "BrokenPowerLaw", "p1": spec["p"], "p2": spec["q"], "gamma_b": spec["gamma_0"], **keep}
        else:
            s = {"type": "LogParabola", "p": spec["p1"], "q": spec["p2"], "gamma_0": spec["gamma_b"], **keep}
    else:
        at = str(rng.choice([k for k in s if k not in ("type", "gamma_min")]))
        s[at] = s[at] * float(rng.uniform(1.05, 1.3))
    return build(s, mass=mass)


def stir(rng, spec, b, call, proton=False, p=0.6, more=()):
    """calls an evaluation with the emission region in another state, and puts the state back as it was:
    whatever is evaluated afterwards must know nothing of it. more: (object, attribute, other value)"""
    if rng.random() > p:
        return
    n = "n_p" if proton else "n_e"
    f = lambda: float(np.exp(rng.choice([-1, 1]) * rng.uniform(0.02, 1)))
    new = {"R_b": lambda v: v * f(), "z": lambda v: v * f(), "delta_D": lambda v: v * float(rng.uniform(0.8, 0.99)), "Gamma": lambda v: v * float(rng.uniform(1.01, 1.5)),
           "B": lambda v: v * f(), n: lambda v: other_dist(rng, spec, v, v.mass), "gamma_p_size" if proton else "gamma_e_size": lambda v: v + int(rng.integers(-20, 20)), "xi": lambda v: v * f()}
    steps = [(b, at, fn(getattr(b, at))) for at, fn in new.items()] if b is not None else []
    if b is not None and spec["type"] != "Interpolated":  # the distribution itself, in place
        d = getattr(b, n)
        at = str(rng.choice([k for k in spec if k not in ("type", "gamma_min")]))
        steps.append((d, at, getattr(d, at) * float(rng.uniform(1.05, 1.3))))
    steps += list(more)
    k = rng.permutation(len(steps))[: int(rng.choice([1, 1, 1, 2, 3, len(steps)]))]
    # the same attribute is changed once; the distribution in place only when it is not replaced
    old = [(steps[i][0], steps[i][1], getattr(steps[i][0], steps[i][1])) for i in k]
    for i in k:
        setattr(*steps[i])
    call()
    for o, at, v in (old if rng.random() < 0.5 else old[::-1]):
        setattr(o, at, v)


TARGET_ATTRS = {"cmb": ["u_0", "epsilon_0"], "ps": ["L_0", "epsilon_0"], "disk": ["M_BH", "L_disk", "eta", "R_in"], "blr": ["L_disk", "xi_line", "epsilon_line", "R_line"], "dt": ["L_disk", "xi_dt", "epsilon_dt", "R_dt"]}


def target_steps(rng, x, user="ec"):
    """other values of the parameters of a target and of what uses it, for stir"""
    t, e = x["target"], x[user]
    out = [(t, at, getattr(t, at) * float(rng.uniform(1.02, 1.5))) for at in TARGET_ATTRS[x["name"]]]
    if x["name"] != "cmb":
        out.append((e, "r", e.r * float(rng.uniform(1.1, 1.9))))
    if user == "ec":
        out.append((e, "integrator", integrator(rng)[0]))
    else:
        out.append((e, "z", e.z * float(rng.uniform(0.5, 1.5))))
    return out
