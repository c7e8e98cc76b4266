"""C27: parameters of the fit models are those of the physical objects."""
import numpy as np
import astropy.units as u
from lib import gen, ref, fitw
from checks.c26 import distribution

PID = "C27"
RULE = "distinct (scenario, backend, distribution, emission region, targets)"
ASSUMPTIONS = ["parameters within the ranges of the fit parameters"]
MONITORS = ["spectral_values", "names", "order", "region_values", "size_recovered", "target_values", "frozen", "ranges", "out_of_range", "independent", "distribution_kept", "objects_kept", "groups", "units", "live", "factory", "n_e_recovered"]

LOG = {"k", "gamma_min", "gamma_max", "gamma_b", "gamma_0", "gamma_c", "norm"}
FROZEN = {"log10_gamma_min", "log10_gamma_max", "z", "mu_s", "log10_r", "log10_L_disk", "M_BH", "m_dot", "R_in", "R_out", "xi_line", "lambda_line", "R_line", "xi_dt", "T_dt", "R_dt", "norm"}
UNITS = {"t_var": "s", "M_BH": "g", "m_dot": "g s-1", "R_in": "cm", "R_out": "cm", "lambda_line": "AA", "R_line": "cm", "T_dt": "K", "R_dt": "cm"}


def expected_spectral(spec):
    names = ["norm", "gamma_min", "gamma_max"] if spec["type"] == "Interpolated" else gen.PAR_ORDER[spec["type"]]
    return {("log10_" + n if n in LOG else n): (np.log10(spec[n]) if n in LOG else spec[n]) for n in names}


def case(rng, mon, tier):
    from checks.c07 import digest
    be = str(rng.choice(["sherpa", "gammapy"]))
    kind = str(rng.choice(["ssc", "ec"]))
    spec, n_e = distribution(rng)
    if spec["type"] == "Interpolated":
        from agnpy.spectra import InterpolatedDistribution
        spec["norm"] = gen.logu(rng, 0.01, 100)
        n_e.norm = spec["norm"]
    tg = [["blr"], ["dt"], ["blr", "dt"], ["dt", "blr"]][int(rng.integers(4))] if kind == "ec" else []
    d0 = digest(n_e)
    m = fitw.make(kind, be, n_e, tg, bool(rng.random() < 0.5))
    ps = fitw.params(m, be)
    val = lambda n: np.asarray(fitw.value(ps[n], be))
    exp = expected_spectral(spec)
    mon.case(be=be, kind=kind, spec=gen.show(spec), tg=tg)
    mon.feature(be, kind, spec["type"])
    for n, v in exp.items():
        if mon.ok("names", n in ps, name=n, have=list(ps)):
            mon.close("spectral_values", val(n), np.asarray(v), 1e-10, 1e-12, name=n)
    region = ["z", "delta_D", "log10_B", "t_var"] + (["mu_s", "log10_r"] if kind == "ec" else [])
    target = []
    if kind == "ec":
        target = ["log10_L_disk", "M_BH", "m_dot", "R_in", "R_out"] + (["xi_line", "lambda_line", "R_line"] if "blr" in tg else []) + (["xi_dt", "T_dt", "R_dt"] if "dt" in tg else [])
    full = list(exp) + region + target + (["norm"] if be == "gammapy" else [])
    mon.ok("names", sorted(full) == sorted(ps), have=list(ps), want=full)
    # the parameters of the distribution come first, in the order of its evaluation, those of the emission region next
    mon.ok("order", list(ps)[:len(exp) + len(region)] == list(exp) + region, have=list(ps))
    for n, p in ps.items():
        mon.ok("frozen", bool(p.frozen) == (n in FROZEN), name=n, frozen=bool(p.frozen))
        lo, hi = float(p.min), float(p.max)
        mon.ok("ranges", lo < hi and lo <= fitw.value(p, be) <= hi or n in exp, name=n, lo=lo, hi=hi)
        un = str(p.units if be == "sherpa" else p.unit)
        if n in UNITS:
            mon.ok("units", un and u.Unit(un).is_equivalent(u.Unit(UNITS[n])) and abs(u.Unit(un).to(u.Unit(UNITS[n])) - 1) < 1e-12, name=n, unit=un)
        else:
            mon.ok("units", un in ("", "dimensionless", "norm"), name=n, unit=un)
    if be == "gammapy":
        g = lambda x: [p.name for p in x]
        mon.ok("groups", g(m.spectral_parameters) == list(exp) and g(m.emission_region_parameters) == region, s=g(m.spectral_parameters), r=g(m.emission_region_parameters))
        if kind == "ec":
            mon.ok("groups", sorted(g(m.targets_parameters)) == sorted(target), t=g(m.targets_parameters))
    # from an emission region, in any unit
    reg = fitw.region(rng)
    b = fitw.blob_object(rng, reg, n_e)
    G, de = reg["Gamma"], reg["delta_D"]
    beta = np.sqrt(1 - 1 / G**2)
    mu = (1 - 1 / (G * de)) / beta
    objs = [b]
    if kind == "ssc":
        m.set_emission_region_parameters_from_blob(b)
    else:
        if not 0 <= mu <= 1:  # no real viewing angle
            b.Gamma = reg["Gamma"] = G = de
            mu = (1 - 1 / G**2) / np.sqrt(1 - 1 / G**2)
        r = (reg["r"] * u.cm).to(str(rng.choice(["cm", "pc", "m"])))
        d, blr, dt = fitw.targets(rng)
        blr["line"] = str(rng.choice(["Lyalpha", "Halpha", "Hbeta", "CIV", "MgII", "OVI"]))
        D, BLR, DT = fitw.disk_object(rng, d), gen.build_blr(rng, blr), gen.build_dt(rng, dict(dt))
        objs += [D, BLR, DT]
        before = [digest(o) for o in objs]
        m.set_emission_region_parameters_from_blob(b, r)
        kw = {k: v for k, v in (("blr", BLR), ("dt", DT)) if k in tg}
        m.set_targets_parameters_from_targets(disk=D, **kw)
        mon.ok("objects_kept", before == [digest(o) for o in objs])
        lam = {"Lyalpha": None}
        from agnpy.targets import lines_dictionary
        tv = {"log10_L_disk": np.log10(d["L"]), "M_BH": d["M"], "m_dot": d["mdot"], "R_in": d["Rin"], "R_out": d["Rout"], "xi_line": blr["xi"],
              "lambda_line": lines_dictionary[blr["line"]]["lambda"].to_value("AA"), "R_line": blr["R"], "xi_dt": dt["xi"], "T_dt": dt["T"], "R_dt": dt["R"]}
        for n in target:
            mon.close("target_values", val(n), np.asarray(tv[n]), 1e-7, 0.0, name=n)
        mon.close("region_values", val("mu_s"), np.asarray(mu), 1e-12)
        mon.close("region_values", val("log10_r"), np.asarray(np.log10(reg["r"])), 1e-9)
    for n, v in (("z", reg["z"]), ("delta_D", de), ("log10_B", np.log10(reg["B"])), ("t_var", reg["t_var"])):
        mon.close("region_values", val(n), np.asarray(v), 1e-9, 1e-11, name=n)
    R = ref.C * val("t_var") * val("delta_D") / (1 + val("z"))
    mon.close("size_recovered", np.asarray(b.R_b.to_value("cm")), R, 1e-9)
    for n, v in exp.items():  # setting the emission region does not touch the distribution
        mon.close("independent", val(n), np.asarray(v), 1e-10, 1e-12, name=n)
    mon.ok("distribution_kept", digest(n_e) == d0)
    # the parameters in use are those of the model, not those of the original distribution
    E = np.array([1e0, 1e3, 1e9])
    y = fitw.evaluate(mon, m, be, E)
    amp = "log10_norm" if spec["type"] == "Interpolated" else "log10_k"
    x = float(np.clip(fitw.value(ps[amp], be) + 0.3, -15, 15)) if amp == "log10_k" else float(np.clip(fitw.value(ps[amp], be) + 0.3, -3, 3))
    old = fitw.value(ps[amp], be)
    fitw.setval(m, be, amp, x)
    y2 = fitw.evaluate(mon, m, be, E)
    mon.ok("live", np.all((y2 >= y * (1 - 1e-9)) | ~np.isfinite(y)) if not m.ssa else True, y=list(y), y2=list(y2))
    fitw.setval(m, be, amp, old)
    mon.close("live", np.nan_to_num(fitw.evaluate(mon, m, be, E)), np.nan_to_num(y), 1e-9, 1e-100)
    mon.ok("distribution_kept", digest(n_e) == d0)
    # two models never share their parameters
    m2 = fitw.make(kind, be, n_e, tg)
    p2 = fitw.params(m2, be)
    mon.ok("independent", all(p2[n] is not ps[n] for n in ps) and abs(fitw.value(p2["t_var"], be) - 600) < 1e-9)
    # the distribution rebuilt from the parameters is the original one
    s2 = dict(spec)
    for n in exp:
        s2[n.replace("log10_", "")] = 10 ** float(val(n)) if n.startswith("log10_") else float(val(n))
    g = 10 ** rng.uniform(np.log10(spec["gamma_min"] * 1.001), np.log10(spec["gamma_max"] * 0.999), 5)
    mon.close("n_e_recovered", ref.n_of(s2, g), mon.val("n", n_e(g), "cm-3"), 1e-7)


def limits(rng, mon, tier):
    """values outside of the range of a parameter are refused by sherpa and flagged by gammapy; unknown backends are refused"""
    from agnpy.fit import SynchrotronSelfComptonModel, ExternalComptonModel
    from sherpa.utils.err import ParameterErr
    spec, n_e = distribution(rng)
    mon.case(spec=gen.show(spec))
    m = fitw.make("ec", "sherpa", n_e, ["blr", "dt"])
    for n in ("delta_D", "log10_B", "z", "mu_s", "log10_r", "T_dt", "xi_dt", "R_line"):
        p = getattr(m, n)
        mon.raises("out_of_range", ParameterErr, lambda: setattr(m, n, p.max * 1.5 + 1), name=n)
    for f in (lambda: SynchrotronSelfComptonModel(n_e, backend="other"), lambda: ExternalComptonModel(n_e, ["blr"], backend="naima")):
        mon.raises("factory", ValueError, f)
    import sherpa.models.model as sm
    from gammapy.modeling.models import SpectralModel
    for k in ("ssc", "ec"):
        mon.ok("factory", isinstance(fitw.make(k, "sherpa", n_e, ["dt"]), sm.RegriddableModel1D) and isinstance(fitw.make(k, "gammapy", n_e, ["dt"]), SpectralModel))


KINDS = {"mapping": (case, 120, 4000), "limits": (limits, 12, 200)}
