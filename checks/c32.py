"""C32: misuse is refused with the stated error, the valid neighbour of it is not."""
import numpy as np
import astropy.units as u
from astropy.constants import M_sun, m_e, m_p, m_n
from lib import gen

PID = "C32"
RULE = "distinct configurations (one invalid change applied to a valid one)"
ASSUMPTIONS = ["dimensionless frequencies are photon energies in units of the particle rest energy, hence accepted",
               "only quantities that enter an evaluation have to be of the right dimension for it"]
MONITORS = ["accepts", "delta_D", "protons", "mass", "density", "disk", "line", "ebl", "absorption", "epsilon", "backend",
            "dimension", "time_config", "time_run", "blob_untouched"]

GOOD = dict(R_b=1e16 * u.cm, B=1 * u.G, k=1e2 * u.Unit("cm-3"), L=1e46 * u.Unit("erg s-1"), R=1e17 * u.cm, T=1e3 * u.K,
            r=1e18 * u.cm, M=1e8 * M_sun, Rin=1e14 * u.cm, Rout=1e17 * u.cm)
WRONG = ["s", "K", "erg", "cm", "cm-3", "erg s-1", "G", "g", "Hz", ""]


def accepts(mon, what, fn, name="accepts"):
    try:
        r = fn()
    except Exception as e:  # noqa: BLE001
        mon.ok(name, False, what=what, raised=f"{type(e).__name__}: {e}"[:200])
        return None
    mon.ok(name, True)
    return r


def refuses(mon, name, types, fn, what):
    mon.nontrivial = True
    try:
        r = fn()
    except Exception as e:  # noqa: BLE001
        return mon.ok(name, isinstance(e, types), what=what, raised=f"{type(e).__name__}: {e}"[:200], want=str(types))
    return mon.ok(name, False, what=what, returned=str(r)[:200], want=str(types))


def objects(rng, mon, tier):
    from agnpy.emission_regions import Blob
    from agnpy.spectra import PowerLaw, InterpolatedDistribution
    from agnpy.targets import SSDisk, SphericalShellBLR, RingDustTorus, lines_dictionary, CMB, PointSourceBehindJet
    from agnpy.absorption import Absorption, EBL, ebl_files_dict
    from agnpy.fit import SynchrotronSelfComptonModel, ExternalComptonModel
    from agnpy.synchrotron import ProtonSynchrotron
    from agnpy.utils.conversion import epsilon_equivalency
    spec = gen.spectrum(rng)
    dist = type(gen.build(spec))
    d = float(rng.choice([gen.logu(rng, 1e-3, 1e2), 1]))
    mon.case(spec=gen.show(spec), d=d)
    # Doppler factor
    for v in (d, int(np.ceil(d)), np.float64(d), np.float32(d)):
        b = accepts(mon, f"delta_D={v!r}", lambda: Blob(delta_D=v, n_e=gen.build(spec)))
        if b is not None:
            mon.ok("accepts", float(b.delta_D) == float(v))
    for v in (-d, 0, 0.0, -int(np.ceil(d)), str(d), d * u.Unit(""), np.array([d]), None, [d]):
        refuses(mon, "delta_D", ValueError, lambda: Blob(delta_D=v, n_e=gen.build(spec)), f"delta_D={v!r}")
    # protons
    b = Blob(n_e=gen.build(spec))
    for a in ("n_p", "gamma_p", "n_p_tot", "N_p_tot", "u_p", "W_p", "P_jet_kp"):
        if hasattr(type(b), a):
            refuses(mon, "protons", AttributeError, lambda: getattr(b, a), a)
    nu = np.logspace(14, 16, 3) * u.Hz
    refuses(mon, "protons", AttributeError, lambda: ProtonSynchrotron(b).sed_flux(nu), "ProtonSynchrotron")
    b.n_p = gen.build(gen.spectrum(rng), mass=m_p)
    for a in ("n_p", "gamma_p", "u_p"):
        accepts(mon, a, lambda: getattr(b, a))
    # masses
    for m in (m_e, m_p):
        x = accepts(mon, "mass", lambda: dist(mass=m))
        if x is not None:
            mon.ok("accepts", x.particle == ("electrons" if m is m_e else "protons"), got=x.particle)
    for m in (m_n, 9.1e-28 * u.g, 1, None, "electron", 2 * m_e):
        refuses(mon, "mass", ValueError, lambda: dist(mass=m), f"mass={m!r}"[:60])
    # interpolated densities
    g = np.logspace(1, 4, int(rng.integers(5, 30)))
    n = g**-2.0
    gt = g.copy()
    accepts(mon, "interpolated", lambda: InterpolatedDistribution(g, n * u.Unit("cm-3")))
    for un in ("m-3", "cm-2", "", "erg", "cm3"):
        refuses(mon, "density", ValueError, lambda: InterpolatedDistribution(g, n * u.Unit(un)), un)
    mon.ok("density", np.array_equal(g, gt))
    # disk radii
    M, L = 1e8 * M_sun, 1e46 * u.Unit("erg s-1")
    lo, hi = float(rng.uniform(6, 50)), float(rng.uniform(100, 2e3))
    cm = 1e14 * u.cm
    accepts(mon, "R_g", lambda: SSDisk(M, L, 1 / 12, lo, int(hi), R_g_units=True))
    accepts(mon, "cm", lambda: SSDisk(M, L, 1 / 12, lo * cm, (hi * cm).to("pc")))
    for a in ((lo * cm, hi, True), (lo, hi * cm, True), (lo * cm, hi * cm, True), (lo, hi, False), (lo * cm, hi, False), (lo, hi * cm, False)):
        refuses(mon, "disk", TypeError, lambda: SSDisk(M, L, 1 / 12, a[0], a[1], R_g_units=a[2]), str(a))
    # lines
    lines = sorted(lines_dictionary)
    line = lines[int(rng.integers(len(lines)))]
    accepts(mon, line, lambda: SphericalShellBLR(L, 0.1, line, 1e17 * u.cm))
    for w in (line + "x", line.upper() + "_", "", " " + line, "Lyomega", 1216):
        refuses(mon, "line", NameError, lambda: SphericalShellBLR(L, 0.1, w, 1e17 * u.cm), repr(w))
    # EBL
    model = sorted(ebl_files_dict)[int(rng.integers(len(ebl_files_dict)))]
    accepts(mon, model, lambda: EBL(model))
    for w in (model + "0", model[:-5], model.upper(), "", None):
        refuses(mon, "ebl", ValueError, lambda: EBL(w), repr(w))
    # absorption
    tgt = [CMB(0.1), PointSourceBehindJet(L, 1e-5), SSDisk(M, L, 1 / 12, lo, hi, R_g_units=True),
           SphericalShellBLR(L, 0.1, line, 1e17 * u.cm), RingDustTorus(L, 0.1, 1e3 * u.K)]
    for t in tgt:
        refuses(mon, "absorption", ValueError, lambda: Absorption(t), type(t).__name__)
        accepts(mon, "Absorption " + type(t).__name__, lambda: Absorption(t, 1e18 * u.cm))
    accepts(mon, "Absorption Blob", lambda: Absorption(b))
    # conversions
    for m in (m_e, m_p):
        accepts(mon, "epsilon", lambda: epsilon_equivalency(m))
    for m in (m_n, 1 * u.g, 2 * m_e):
        refuses(mon, "epsilon", ValueError, lambda: epsilon_equivalency(m), f"{m!r}"[:40])
    # backends of the fit models
    for be in ("gammapy", "sherpa"):
        accepts(mon, be, lambda: SynchrotronSelfComptonModel(dist(), backend=be))
        accepts(mon, be, lambda: ExternalComptonModel(dist(), ["blr", "dt"], backend=be))
    for be in ("Sherpa", "", None, "gammapy ", "naima"):
        refuses(mon, "backend", ValueError, lambda: SynchrotronSelfComptonModel(dist(), backend=be), repr(be))
        refuses(mon, "backend", ValueError, lambda: ExternalComptonModel(dist(), ["dt"], backend=be), repr(be))


def dimensions(rng, mon, tier):
    """a SED or an opacity is never returned for a quantity of another dimension"""
    from agnpy.emission_regions import Blob
    from agnpy.spectra import PowerLaw
    from agnpy.targets import SSDisk, SphericalShellBLR, RingDustTorus, CMB, PointSourceBehindJet
    from agnpy.synchrotron import Synchrotron
    from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
    from agnpy.absorption import Absorption
    p0 = {k: v * gen.logu(rng, 0.5, 2) for k, v in GOOD.items()}
    p0["R"] = 0.1 * p0["r"]
    p0["nu"] = np.logspace(11, 24, 4) * u.Hz
    blob = lambda p: Blob(R_b=p["R_b"], B=p["B"], n_e=PowerLaw(k=p["k"], gamma_min=10, gamma_max=1e5))  # noqa: E731
    T = dict(blr=(lambda p: SphericalShellBLR(p["L"], 0.1, "Lyalpha", p["R"]), "L R r"),
             dt=(lambda p: RingDustTorus(p["L"], 0.1, p["T"], p["R"]), "L R T r"),
             disk=(lambda p: SSDisk(p["M"], p["L"], 1 / 12, p["Rin"], p["Rout"]), "M L Rin Rout r"),
             ps=(lambda p: PointSourceBehindJet(p["L"], 1e-5), "L r"), cmb=(lambda p: CMB(0.1), ""))
    W = dict(synch=(lambda p: Synchrotron(blob(p)).sed_flux(p["nu"]), "R_b B k nu"),
             ssa=(lambda p: Synchrotron(blob(p), ssa=True).sed_flux(p["nu"]), "R_b B k nu"),
             ssc=(lambda p: SynchrotronSelfCompton(blob(p)).sed_flux(p["nu"]), "R_b B k nu"),
             tau_blob=(lambda p: Absorption(blob(p)).tau(p["nu"]), "R_b B k nu"))
    for n, (t, keys) in T.items():
        W["ec_" + n] = (lambda p, t=t: ExternalCompton(blob(p), t(p), p["r"]).sed_flux(p["nu"]), "R_b k nu " + keys)
        if n != "cmb":
            W["tau_" + n] = (lambda p, t=t: Absorption(t(p), p["r"]).tau(p["nu"]), "nu " + keys)
            W["u_" + n] = (lambda p, t=t: t(p).u(p["r"]), keys)
        if n in ("dt", "disk"):
            W["sed_" + n] = (lambda p, t=t: t(p).sed_flux(p["nu"], 0.1), "nu " + keys.replace(" r", ""))
    names = sorted(W)
    name = names[int(rng.integers(len(names)))]
    fn, keys = W[name]
    mon.case(which=name, p={k: float(np.ravel(v.value)[0]) for k, v in p0.items()})
    mon.feature(name)
    accepts(mon, name, lambda: fn(p0))
    mon.nontrivial = True
    for k in keys.split():
        if name == "sed_dt" and k == "R":
            continue  # the SED of the torus does not depend on its radius
        wrong = [w for w in WRONG if not u.Unit(w).is_equivalent(p0[k].unit) and not (k == "nu" and w == "")]
        for w in list(rng.choice(wrong, 3, replace=False)) + [None]:
            if k == "r" and name == "u_disk" and w is None:
                continue
            v = p0[k].value if w is None else p0[k].value * u.Unit(w)
            q = dict(p0, **{k: v})
            try:
                r = fn(q)
            except Exception:  # noqa: BLE001  any refusal is fine
                mon.ok("dimension", True)
                continue
            mon.ok("dimension", False, which=name, parameter=k, given=str(w), returned=str(r)[:150])


def time_config(rng, mon, tier):
    from agnpy.emission_regions import Blob
    from agnpy.time_evolution.time_evolution import TimeEvolution
    N = int(rng.integers(6, 30))
    lo, hi = gen.logu(rng, 5, 200), gen.logu(rng, 1e3, 1e6)
    spec = gen.spectrum(rng, edge=False, k=(1e-3, 1e3))
    g = np.logspace(np.log10(lo), np.log10(hi), N)
    nsub = int(rng.integers(2, 4))
    f = lambda p: -1e-12 * np.ones_like(p.gamma) * u.Unit("erg s-1")  # noqa: E731
    r = lambda p: -1e-9 * np.ones_like(p.gamma) * u.Unit("s-1")  # noqa: E731
    q = lambda p: 1e-9 * np.ones_like(p.gamma) * u.Unit("cm-3 s-1")  # noqa: E731
    blob = Blob(n_e=gen.build(spec), gamma_e_size=N)
    n_e = blob.n_e
    frac = rng.dirichlet(np.ones(nsub), N).T
    base = dict(energy_change_functions={"f": f}, rel_injection_functions={"r": r}, abs_injection_functions={"q": q},
                initial_gamma_array=g, subgroups=[["f", "r", "q"]] + [["f"]] * (nsub - 1))
    full = dict(base, subgroups_initial_density=frac)
    mon.case(N=N, nsub=nsub, lo=lo, hi=hi, spec=gen.show(spec))

    def go(kw=None, T=10 * u.s, **over):
        return TimeEvolution(blob, T, **dict(kw or base, **over))

    for what, kw in [("base", {}), ("bounds", dict(gamma_bounds=(lo * 0.5, hi * 2))), ("tight bounds", dict(gamma_bounds=(g[0], g[-1]))),
                     ("step", dict(step_duration=1 * u.min)), ("auto", dict(step_duration="auto")), ("EULER", dict(method="EULER")),
                     ("Heun", dict(method="Heun", optimize_recalculating_slow_rates=False)), ("heun", dict(method="heun", step_duration=1 * u.s)),
                     ("no optimisation", dict(optimize_recalculating_slow_rates=False)), ("optimised", dict(optimize_recalculating_slow_rates=True)),
                     ("fixed, not optimised", dict(step_duration=1 * u.s, optimize_recalculating_slow_rates=False)),
                     ("fractions", full), ("no groups", dict(subgroups=None)), ("default bins", dict(initial_gamma_array=None)),
                     ("single", dict(energy_change_functions=f, rel_injection_functions=r, abs_injection_functions=q, subgroups=None)),
                     ("lists", dict(energy_change_functions=[f], rel_injection_functions=[r], abs_injection_functions=[q], subgroups=None))]:
        accepts(mon, what, lambda: go(**kw))
    accepts(mon, "time in days", lambda: go(T=1 * u.day))
    j = int(rng.integers(N - 1))
    swapped = g.copy()
    swapped[[j, j + 1]] = swapped[[j + 1, j]]
    equal = g.copy()
    equal[j + 1] = equal[j]
    fun = str(rng.choice(["f", "r", "q"]))
    off = frac.copy()
    off[int(rng.integers(nsub)), j] += float(rng.choice([-1, 1])) * gen.logu(rng, 1e-3, 1)
    # sums that compensate each other
    j2 = int((j + rng.integers(1, N)) % N)
    shifted = frac.copy()
    m_ = int(np.argmax(frac[:, j2]))
    e_ = frac[m_, j2] * gen.logu(rng, 1e-2, 0.9)
    shifted[m_, j2] -= e_
    shifted[int(rng.integers(nsub)), j] += e_
    over = {k: v for k, v in dict(energy_change_functions={"x": f}, rel_injection_functions={"x": r}, abs_injection_functions={"x": q}).items()}
    pair = list(rng.choice(sorted(over), 2, replace=False))
    bad = [
        ("step str", dict(step_duration=str(rng.choice(["Auto", "", "10 s", "automatic"])))), ("step number", dict(step_duration=float(rng.uniform(1, 9)))),
        ("step None", dict(step_duration=None)), ("same name", dict({k: over[k] for k in pair}, subgroups=None)),
        ("below bounds", dict(gamma_bounds=(g[j] * 1.001 if j else g[0] * 1.001, hi * 2))),
        ("above bounds", dict(gamma_bounds=(lo * 0.5, g[-1] * 0.999))), ("swapped", dict(initial_gamma_array=swapped)),
        ("equal", dict(initial_gamma_array=equal)), ("decreasing", dict(initial_gamma_array=g[::-1])),
        ("optimised with fixed step", dict(step_duration=1 * u.s, optimize_recalculating_slow_rates=True)),
        ("method", dict(method=str(rng.choice(["rk4", "", "eulerr", "heun2"])))), ("heun auto", dict(method="heun")),
        ("heun optimised", dict(method="HEUN", optimize_recalculating_slow_rates=True)),
        ("unknown", dict(subgroups=base["subgroups"][:-1] + [[fun, fun + "2"]])), ("unknown first", dict(subgroups=[["F"]] + base["subgroups"][1:])),
        ("unknown without functions", dict(rel_injection_functions=None)),
        ("fractions sum", dict(full, subgroups_initial_density=off)), ("fractions compensated", dict(full, subgroups_initial_density=shifted)), ("fractions scaled", dict(full, subgroups_initial_density=frac * 1.01)),
        ("fractions without subgroups", dict(full, subgroups=None)), ("fractions without bins", dict(full, initial_gamma_array=None)),
        ("fractions too short", dict(full, subgroups_initial_density=frac[:, 1:])),
        ("fractions too long", dict(full, subgroups_initial_density=np.hstack([frac, frac[:, :1]]))),
        ("fractions of one bin", dict(full, subgroups_initial_density=frac[:, :1])),
        ("fractions of one group", dict(full, subgroups_initial_density=np.ones((1, N)))),
        ("fractions of more groups", dict(full, subgroups_initial_density=np.full((nsub + 1, N), 1 / (nsub + 1)))),
    ]
    for what, kw in bad:
        refuses(mon, "time_config", ValueError, lambda: go(**kw), what)
    for what, kw in [("total time", dict(T=10 * u.cm)), ("step in cm", dict(step_duration=1 * u.cm)), ("time without units", dict(T=10.0))]:
        try:
            x = go(**kw)
            mon.ok("time_config", False, what=what, returned=str(x))
        except Exception:  # noqa: BLE001
            mon.ok("time_config", True)
    mon.ok("blob_untouched", blob.n_e is n_e and blob.gamma_e_size == N)


def time_run(rng, mon, tier):
    """a step that would give negative energies or densities is refused"""
    from agnpy.emission_regions import Blob
    from agnpy.time_evolution.time_evolution import TimeEvolution
    N = int(rng.integers(6, 30))
    spec = gen.spectrum(rng, types=["PowerLaw"], edge=False, k=(1e-3, 1e3))
    lo, hi = spec["gamma_min"], spec["gamma_max"]
    g = np.logspace(np.log10(lo * 1.01), np.log10(hi * 0.99), N)
    dt = gen.logu(rng, 1, 1e6)
    mec2 = 8.187105776823886e-07
    mon.case(N=N, dt=dt, spec=gen.show(spec))

    def run(step=dt * u.s, T=dt * u.s, method="euler", **kw):
        b = Blob(n_e=gen.build(spec), gamma_e_size=N)
        kw.setdefault("energy_change_functions", {})
        return TimeEvolution(b, T, initial_gamma_array=g, step_duration=step, method=method, **kw).evaluate()

    meth = str(rng.choice(["euler", "heun"]))
    amp = float(rng.uniform(1.02, 20))
    loss = lambda a: (lambda p: -a * np.asarray(p.gamma) * mec2 / dt * u.Unit("erg s-1"))  # noqa: E731
    # a fraction of the energy, of the particles, smaller or larger than one
    accepts(mon, "loss", lambda: run(energy_change_functions={"f": loss(float(rng.uniform(0.05, 0.5)))}, method=meth))
    refuses(mon, "time_run", ValueError, lambda: run(energy_change_functions={"f": loss(amp)}, method=meth), "negative energies")
    esc = lambda a: (lambda p: -a * np.ones_like(p.gamma) / dt * u.Unit("s-1"))  # noqa: E731
    accepts(mon, "escape", lambda: run(rel_injection_functions={"r": esc(float(rng.uniform(0.05, 0.9)))}))
    refuses(mon, "time_run", ValueError, lambda: run(rel_injection_functions={"r": esc(amp)}), "negative densities")
    n0 = lambda gg: spec["k"] * np.asarray(gg, float) ** -spec["p"]  # noqa: E731
    drain = lambda a: (lambda p: -a * n0(p.gamma) / dt * u.Unit("cm-3 s-1"))  # noqa: E731
    accepts(mon, "drain", lambda: run(abs_injection_functions={"a": drain(0.5)}))
    refuses(mon, "time_run", ValueError, lambda: run(abs_injection_functions={"a": drain(amp)}), "negative densities")
    # nothing can escape in absolute numbers from empty bins
    gz = np.concatenate([g, g[-1] * np.array([3.0, 10.0])])
    b = Blob(n_e=gen.build(spec), gamma_e_size=N)
    refuses(mon, "time_run", ValueError,
            lambda: TimeEvolution(b, dt * u.s, {}, abs_injection_functions={"a": drain(0.1)}, initial_gamma_array=gz).evaluate(), "escape from empty bins")


KINDS = {"objects": (objects, 32, 120), "dimensions": (dimensions, 80, 400), "time_config": (time_config, 40, 200), "time_run": (time_run, 24, 120)}
