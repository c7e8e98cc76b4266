"""C26: the fit models evaluate to the sum of the emission components."""
import numpy as np
import astropy.units as u
from lib import gen, ref, fitw

PID = "C26"
RULE = "distinct (scenario, backend, distribution, parameters, energies) with a non-null SED"
ASSUMPTIONS = ["components evaluated with the same grids (200 Lorentz factors for synchrotron and SSC, 300 for external Compton) by the functions monitored in C10-C13 and C17",
               "emission region built from the same parameters within 30% near the peaks (grids of different extent)"]
MONITORS = ["sum", "backends_agree", "norm", "order_of_targets", "ssa", "energy_units", "gammapy_shape", "input_kept", "region", "skymodel", "steps"]


def args_of(n_e):
    return n_e.parameters


def components(nu, reg, n_e, ssa, d=None, blr=None, dt=None, disk=None):
    """list of the components, from the public functions of the processes"""
    from agnpy.synchrotron import Synchrotron
    from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
    from agnpy.targets import SSDisk, RingDustTorus
    import astropy.coordinates as co
    z, dl = reg["z"], ref.d_L_cm(reg["z"]) * u.cm
    R = ref.C * reg["t_var"] * reg["delta_D"] / (1 + z) * u.cm
    B, de, a = reg["B"] * u.G, reg["delta_D"], tuple(n_e.parameters)
    out = {"synch": Synchrotron.evaluate_sed_flux(nu, z, dl, de, B, R, n_e, *a, ssa=ssa),
           "ssc": SynchrotronSelfCompton.evaluate_sed_flux(nu, z, dl, de, B, R, n_e, *a, ssa=ssa)}
    if d is None:
        return out
    L, r, g = d["L"] * u.Unit("erg s-1"), reg["r"] * u.cm, np.logspace(1, 9, 300)
    out["disk"] = SSDisk.evaluate_multi_T_bb_norm_sed(nu, z, L, d["M"] * u.g, d["mdot"] * u.Unit("g s-1"), d["Rin"] * u.cm, d["Rout"] * u.cm, dl)
    if blr is not None:
        out["blr"] = ExternalCompton.evaluate_sed_flux_blr(nu, z, dl, de, reg["mu_s"], R, L, blr["xi"], blr["eps"], blr["R"] * u.cm, r, n_e, *a, gamma=g)
    if dt is not None:
        out["dt"] = ExternalCompton.evaluate_sed_flux_dt(nu, z, dl, de, reg["mu_s"], R, L, dt["xi"], 2.7 * ref.KB * dt["T"] / ref.MEC2, dt["R"] * u.cm, r, n_e, *a, gamma=g)
        out["bb_dt"] = RingDustTorus.evaluate_bb_norm_sed(nu, z, dt["xi"] * L, dt["T"] * u.K, dt["R"] * u.cm, dl)
    return out


def total(mon, c):
    return sum(mon.val("component", v, "erg cm-2 s-1") for v in c.values())


def mu_s_of(reg):
    be = np.sqrt(1 - 1 / reg["Gamma"] ** 2)
    return (1 - 1 / (reg["Gamma"] * reg["delta_D"])) / be


def set_region(rng, m, be, reg, ec):
    for n, v in (("z", reg["z"]), ("delta_D", reg["delta_D"]), ("log10_B", np.log10(reg["B"])), ("t_var", reg["t_var"])) + ((("mu_s", reg["mu_s"]), ("log10_r", np.log10(reg["r"]))) if ec else ()):
        fitw.setval(m, be, n, v)


def set_targets(m, be, d, blr, dt):
    v = {"log10_L_disk": np.log10(d["L"]), "M_BH": d["M"], "m_dot": d["mdot"], "R_in": d["Rin"], "R_out": d["Rout"]}
    if blr is not None:
        v.update(xi_line=blr["xi"], lambda_line=blr["lam"], R_line=blr["R"])
    if dt is not None:
        v.update(xi_dt=dt["xi"], T_dt=dt["T"], R_dt=dt["R"])
    for n, x in v.items():
        fitw.setval(m, be, n, x)


def distribution(rng):
    if rng.random() < 0.15:
        spec, g, n = gen.interp_spec(rng, gmin=(2, 1e3), gmax=(1e5, 1e7))
        spec["norm"] = 1.0
        return spec, gen.build_interp(spec, g, n)
    s = fitw.n_e_spec(rng)
    return s, gen.build(s)


def visible(rng, mon, reg, n_e, ssa, d, blr, dt):
    E = np.sort(10 ** rng.uniform(-5, 13, 14))
    nu = E * ref.EV / ref.H * u.Hz
    v = lambda x: np.nan_to_num(mon.val("component", x, "erg cm-2 s-1"))
    c = {k: v(x) for k, x in components(nu, reg, n_e, ssa, d, blr, dt).items()}
    tot = sum(c.values()) + 1e-200
    frac = {k: x / tot for k, x in c.items()}
    if ssa:
        for k, x in components(nu, reg, n_e, False).items():
            frac["absorbed " + k] = np.abs(v(x) - c[k]) / tot
    pick = []
    for k, f in frac.items():
        i = int(np.argmax(f))
        if f[i] > 1e-3:
            mon.feature("visible:" + k)
            pick.append(i)
    pick = sorted(set(pick + [int(rng.integers(14))]))
    return E[rng.permutation(pick)] if rng.random() < 0.3 else E[pick]


def case(rng, mon, tier, kind):
    from agnpy.targets import lines_dictionary
    spec, n_e = distribution(rng)
    reg = fitw.region(rng)
    ssa = bool(rng.random() < 0.5)
    if ssa and spec["type"] != "Interpolated" and rng.random() < 0.7:
        # compact, dense sources are self-absorbed
        reg.update(B=gen.logu(rng, 1, 90), t_var=gen.logu(rng, 20, 1e5))
        spec = dict(spec, gamma_min=gen.logu(rng, 2, 50), k=10 ** float(rng.uniform(3, 8)))
        n_e = gen.build(spec)
    E = np.sort(10 ** rng.uniform(-5, 13, int(rng.integers(1, 6))))
    if rng.random() < 0.3:
        E = rng.permutation(E)
    nu = E * ref.EV / ref.H * u.Hz
    tg, d, blr, dt = None, None, None, None
    if kind == "ec":
        tg = [["blr"], ["dt"], ["blr", "dt"], ["dt", "blr"]][int(rng.integers(4))]
        d, b_, t_ = fitw.targets(rng)
        b_["lam"] = float(lines_dictionary[b_["line"]]["lambda"].to_value("AA"))
        if not 900 <= b_["lam"] <= 7000:
            b_["lam"] = float(rng.uniform(1000, 6500))
        b_["eps"] = ref.H * ref.C / (b_["lam"] * 1e-8) / ref.MEC2
        blr, dt = (b_ if "blr" in tg else None), (t_ if "dt" in tg else None)
        reg["mu_s"] = float(np.clip(mu_s_of(reg), 0.5, 1.0)) if rng.random() < 0.8 else float(rng.uniform(0.7, 1))
        if blr is not None and abs(reg["r"] / blr["R"] - 1) < 1e-2:
            reg["r"] *= 1.1
        mon.feature("+".join(tg))
    mon.case(kind=kind, spec=gen.show(spec), reg=reg, ssa=ssa, E=list(E), tg=tg, d=d, blr=blr, dt=dt)
    mon.feature(spec["type"])
    if rng.random() < 0.75:
        # energies at which each of the components (and the self-absorption of each) matters most
        E = visible(rng, mon, reg, n_e, ssa, d, blr, dt)
        nu = E * ref.EV / ref.H * u.Hz
    want = total(mon, components(nu, reg, n_e, ssa, d, blr, dt))
    near = sum(np.abs(total(mon, components(nu * (1 + s), reg, n_e, ssa, d, blr, dt)) - want) for s in (1e-9, -1e-9))
    got = {}
    for be in ("sherpa", "gammapy"):
        m = fitw.make(kind, be, n_e, tg, ssa)
        set_region(rng, m, be, reg, kind == "ec")
        if kind == "ec":
            set_targets(m, be, d, blr, dt)
        E0 = E.copy()
        got[be] = fitw.evaluate(mon, m, be, E, rng)
        mon.ok("input_kept", np.array_equal(E, E0))
        if np.any(np.isnan(want)):
            mon.ok("sum", np.array_equal(np.isnan(got[be]), np.isnan(want)))
            continue
        mon.close("sum", got[be], want, 1e-5, 5 * near + 1e-100, backend=be)
        if be == "gammapy":
            f = float(rng.uniform(0.2, 5))
            m.parameters["norm"].value = f
            mon.close("norm", fitw.evaluate(mon, m, be, E, rng), f * got[be], 1e-6, 5 * near + 1e-100)
            m.parameters["norm"].value = 1
            mon.close("energy_units", fitw.evaluate(mon, m, be, E, rng), got[be], 1e-6, 5 * near + 1e-100)
        if kind == "ec" and len(tg) == 2:
            m2 = fitw.make(kind, be, n_e, tg[::-1], ssa)
            set_region(rng, m2, be, reg, True)
            set_targets(m2, be, d, blr, dt)
            mon.close("order_of_targets", fitw.evaluate(mon, m2, be, E), got[be], 1e-6, 5 * near + 1e-100)
        if ssa:
            mon.counts["ssa"] += 1
    if not np.any(np.isnan(want)):
        mon.close("backends_agree", got["sherpa"], got["gammapy"], 1e-5, 5 * near + 1e-100)


def region(rng, mon, tier):
    """the model set from a blob gives the SED of the processes of that blob"""
    from agnpy.synchrotron import Synchrotron
    from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
    s = fitw.n_e_spec(rng, "BrokenPowerLaw")
    s.update(gamma_min=gen.logu(rng, 20, 200), gamma_b=gen.logu(rng, 1e3, 2e4), gamma_max=gen.logu(rng, 3e5, 3e6), p1=float(rng.uniform(1.6, 2.4)), p2=float(rng.uniform(3.2, 4)))
    n_e = gen.build(s)
    reg = fitw.region(rng)
    reg["Gamma"] = reg["delta_D"]
    b = fitw.blob_object(rng, reg, n_e)
    b.gamma_e_size = 300
    kind = str(rng.choice(["ssc", "ec"]))
    E = 10 ** rng.uniform(np.log10(1e-2), 10, 3)
    nu = E * ref.EV / ref.H * u.Hz
    mon.case(kind=kind, spec=s, reg=reg, E=list(E))
    v = lambda x: mon.val("component", x, "erg cm-2 s-1")
    want = v(Synchrotron(b).sed_flux(nu)) + v(SynchrotronSelfCompton(b).sed_flux(nu))
    kw = ()
    if kind == "ec":
        d, blr, dt = fitw.targets(rng)
        if abs(reg["r"] / blr["R"] - 1) < 0.05:
            reg["r"] *= 1.2
        D = fitw.disk_object(rng, d)
        blr["line"] = str(rng.choice(["Lyalpha", "Halpha", "Hbeta", "CIV"]))
        BLR, DT = gen.build_blr(rng, blr), gen.build_dt(rng, dict(dt))
        r = reg["r"] * u.cm
        for o in (BLR, DT):  # all are illuminated by the same disk
            o.L_disk = D.L_disk
        want = want + v(ExternalCompton(b, BLR, r).sed_flux(nu)) + v(ExternalCompton(b, DT, r).sed_flux(nu)) + v(D.sed_flux(nu, b.z)) + v(DT.sed_flux(nu, b.z))
    for be in ("sherpa", "gammapy"):
        m = fitw.make(kind, be, n_e, ["blr", "dt"])
        if kind == "ssc":
            m.set_emission_region_parameters_from_blob(b)
        else:
            m.set_emission_region_parameters_from_blob(b, r)
            m.set_targets_parameters_from_targets(disk=D, blr=BLR, dt=DT)
        got = fitw.evaluate(mon, m, be, E)
        mon.close("region", got, want, 0.3, 1e-3 * np.max(want), backend=be, kind=kind)


def skymodel(rng, mon, tier):
    """inside of a gammapy dataset"""
    from gammapy.modeling.models import SkyModel
    spec, n_e = distribution(rng)
    reg = fitw.region(rng)
    mon.case(spec=gen.show(spec), reg=reg)
    m = fitw.make("ssc", "gammapy", n_e)
    set_region(rng, m, "gammapy", reg, False)
    E = np.sort(10 ** rng.uniform(0, 12, 4))
    y = fitw.evaluate(mon, m, "gammapy", E)
    sky = SkyModel(spectral_model=m, name="s")
    g = mon.val("gammapy", sky.spectral_model(E * u.eV), "cm-2 s-1 eV-1") * E**2 * ref.EV
    mon.close("skymodel", g, y, 1e-9, 1e-100)


def steps(rng, mon, tier):
    """the same model along a sequence of small and large changes of its parameters, as a fit makes"""
    kind = str(rng.choice(["ssc", "ec"]))
    spec, n_e = distribution(rng)
    while spec["type"] == "Interpolated":
        spec, n_e = distribution(rng)
    reg = fitw.region(rng)
    ssa = bool(rng.random() < 0.3)
    d = blr = dt = tg = None
    if kind == "ec":
        tg = ["dt"]
        d, _, dt = fitw.targets(rng)
        reg["mu_s"] = float(np.clip(mu_s_of(reg), 0.5, 0.999))
    be = str(rng.choice(["sherpa", "gammapy"]))
    mon.case(kind=kind, backend=be, spec=gen.show(spec), reg=reg, ssa=ssa, d=d, dt=dt)
    mon.feature("steps:" + be)
    E = visible(rng, mon, reg, n_e, ssa, d, blr, dt)[:3]
    nu = E * ref.EV / ref.H * u.Hz
    m = fitw.make(kind, be, gen.build(spec), tg, ssa)
    set_region(rng, m, be, reg, kind == "ec")
    if kind == "ec":
        set_targets(m, be, d, blr, dt)
    names = ["z", "z", "z", "delta_D", "B", "t_var", "k", "p"] + (["r", "mu_s", "L", "xi", "T", "R"] if kind == "ec" else [])
    reg, spec = dict(reg), dict(spec)
    d, dt = (dict(d), dict(dt)) if kind == "ec" else (None, None)
    for i in range(7):
        name = str(rng.choice(names))
        f = 1 + gen.logu(rng, 1e-6, 0.05) * float(rng.choice([-1, 1]))
        if name == "k":
            spec["k"] *= f
            fitw.setval(m, be, "log10_k", np.log10(spec["k"]))
        elif name == "p":
            at = "p" if "p" in spec else "p2"
            spec[at] *= f
            fitw.setval(m, be, at, spec[at])
        elif name in ("L", "xi", "T", "R"):
            if name == "L":
                d["L"] *= f
            else:
                dt[name] *= f
            set_targets(m, be, d, blr, dt)
        else:
            reg[name] = float(reg[name] * (f if name != "mu_s" else 1 - abs(f - 1)))
            set_region(rng, m, be, reg, kind == "ec")
        want = total(mon, components(nu, reg, gen.build(spec), ssa, d, blr, dt))
        got = fitw.evaluate(mon, m, be, E)
        near = sum(np.abs(total(mon, components(nu * (1 + s), reg, gen.build(spec), ssa, d, blr, dt)) - want) for s in (1e-9, -1e-9))
        # more than that is the trace of the previous values
        mon.close("steps", got, want, 3e-8, 20 * near + 1e-100, step=i, changed=name, f=f)


KINDS = {"steps": (steps, 16, 400), "ssc": (lambda r, m, t: case(r, m, t, "ssc"), 40, 2500), "ec": (lambda r, m, t: case(r, m, t, "ec"), 36, 900), "region": (region, 16, 300), "skymodel": (skymodel, 12, 100)}
