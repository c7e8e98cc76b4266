"""C07: evaluations have no side effects and depend only on the present state."""
import copy
import numpy as np
import astropy.units as u
from lib.pristine import Pristine
from lib import gen, ref, catalog

PID = "C07"
RULE = "distinct (world of objects, history of evaluations and updates) with non-null results"
ASSUMPTIONS = ["observed state of the objects: their public attributes (private ones, e.g. caches, may change)",
               "results compared to 1e-11"]
MONITORS = ["pristine", "argument_kept", "state_kept", "repeat", "interleaved", "no_alias", "fresh_object", "two_worlds", "globals_kept", "after_update", "after_restore", "evaluate_args_kept", "rewritten", "threads", "copies"]


def digest(x, depth=0, seen=None):
    """public state as nested plain values"""
    if isinstance(x, u.Quantity):
        return ("q", str(x.unit), np.array(x.value, copy=True).tobytes(), x.shape)
    if isinstance(x, np.ndarray):
        return ("a", x.tobytes(), x.shape, str(x.dtype))
    if x is None or isinstance(x, (bool, int, float, str, bytes, np.generic)):
        return repr(x)
    if isinstance(x, (list, tuple)):
        return tuple(digest(i, depth + 1) for i in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), digest(v, depth + 1)) for k, v in x.items()))
    if not type(x).__module__.startswith("agnpy") or depth > 3:
        return ("id", id(x))
    out = []
    for n in sorted(dir(x)):
        if n.startswith("_"):
            continue
        try:
            v = getattr(x, n)
        except Exception as exc:
            v = repr(type(exc))
        if callable(v):
            continue
        out.append((n, digest(v, depth + 1)))
    return (type(x).__name__, tuple(out))


def diff(a, b):
    return [n for n in a if a[n] != b[n]]


def glob():
    """settings of the process that do not belong to agnpy"""
    import logging
    import os
    import random
    import sys
    import warnings
    from astropy.cosmology import default_cosmology
    out = {"np.err": dict(np.geterr()), "np.random": repr(np.random.get_state()), "random": hash(random.getstate()), "np.print": repr(sorted(np.get_printoptions().items(), key=str)),
           "cosmology": default_cosmology.get().name, "cwd": os.getcwd(), "environ": dict(os.environ), "recursion": sys.getrecursionlimit(),
           "filters": repr(warnings.filters), "equivalencies": repr(u.get_current_unit_registry().equivalencies), "log": logging.getLogger().level, "bufsize": np.getbufsize()}
    from agnpy.targets import lines_dictionary
    out["lines"] = digest(lines_dictionary)
    if "matplotlib" in sys.modules:
        out["rc"] = repr(dict(sys.modules["matplotlib"].rcParams))
    return out


def gdiff(a, b):
    return {n: (str(a[n])[:80], str(b[n])[:80]) for n in a if a[n] != b.get(n)}


def state(o):
    return {k: digest(v) for k, v in o.items()}


def history(rng, mon, tier):
    with Pristine() as clean:
        _history(rng, mon, tier, clean)


def _history(rng, mon, tier, clean):
    w = catalog.World(rng)
    o = w.build()
    c = w.calls(o)
    labs = [str(x) for x in rng.permutation(sorted(c))[:8]]
    mon.case(labels=labs, **w.show())
    # the settings of the caller (restored by the harness at the beginning of every case)
    np.seterr(**{k: str(rng.choice(["warn", "ignore"])) for k in ("divide", "over", "under", "invalid")})
    before, g0 = state(o), glob()
    args, first = {}, {}
    for lab in labs:
        f, kind, un = c[lab]
        x = w.quantity(kind, w.arg(rng, kind, int(rng.integers(1, 6))))
        if rng.random() < 0.3:  # the argument cannot be written
            x.flags.writeable = False
        d = digest(x)
        r = f(x)
        mon.ok("argument_kept", digest(x) == d, label=lab)
        v = mon.val(lab, r, un)
        args[lab], first[lab] = x, np.array(v, copy=True)
        raw = np.asarray(getattr(r, "value", r))
        mon.ok("no_alias", not np.shares_memory(raw, np.asarray(getattr(x, "value", x))), label=lab)
        if raw.ndim and raw.flags.writeable:  # the result belongs to the caller
            try:
                r[...] = 0.5 * r
            except (TypeError, ValueError):
                pass
        again = mon.val(lab, f(x), un)
        same(mon, "repeat", again, first[lab], lab)
    after = state(o)
    mon.ok("state_kept", after == before, changed=diff(before, after))
    mon.ok("globals_kept", not gdiff(g0, glob()), changed=gdiff(g0, glob()))
    np.seterr(all="ignore")
    # any order and interleaving of the evaluations
    for lab in rng.choice(labs, 10):
        f, kind, un = c[lab]
        same(mon, "interleaved", mon.val(lab, f(args[lab]), un), first[lab], lab)
    # objects built now know nothing about what happened to the others
    o2 = w.build()
    c2 = w.calls(o2)
    for lab in rng.permutation(labs):
        same(mon, "fresh_object", mon.val(lab, c2[lab][0](args[lab]), c2[lab][2]), first[lab], lab)
    # a second, different world used in between
    w3 = catalog.World(rng)
    o3 = w3.build()
    c3 = w3.calls(o3)
    for lab in rng.choice(labs, 4):
        c3[lab][0](w3.quantity(c3[lab][1], w3.arg(rng, c3[lab][1], 2)))
        same(mon, "two_worlds", mon.val(lab, c[lab][0](args[lab]), c[lab][2]), first[lab], lab)
    mon.ok("state_kept", state(o) == before, changed=diff(before, state(o)))
    for lab, v in zip(labs, clean(alone, w, [(lab, args[lab]) for lab in labs])):
        same(mon, "pristine", first[lab], v, lab)


def same(mon, name, got, want, lab):
    if np.any(np.isnan(want)):
        mon.ok(name, np.array_equal(np.isnan(got), np.isnan(want)), label=lab)
        return
    mon.close(name, got, want, 1e-11, 0.0, label=lab)


BLOBBY = ["synch", "psynch", "ssc", "ec_ps", "ec_blr", "ec_dt", "ec_disk", "synch_lum", "ssc_lum", "ec_dt_lum", "tau_syn", "abs_hom", "loss_synch", "loss_ssc", "loss_ssc_T", "synch_delta", "n_e", "n_e_ssa", "ub_dt", "ub_blr", "ub_disk", "ub_ps", "ec_cmb", "n_p"]
ABS = ["tau_ps", "tau_disk", "tau_blr", "tau_dt", "abs_blr", "abs_dt"]
OPS = {
    "B": BLOBBY, "R_b": BLOBBY, "delta": BLOBBY, "Gamma": BLOBBY, "xi": BLOBBY, "k": BLOBBY, "gamma_max": BLOBBY, "p_k": ["psynch", "n_p"], "new_n_e": BLOBBY, "size": BLOBBY,
    "z": [x for x in BLOBBY if x != "ec_cmb"], "ssa": ["synch", "ssc", "synch_lum"],
    "tab": BLOBBY, "law": BLOBBY, "index": BLOBBY, "blob": BLOBBY + ["tau_syn"], "integ": [x for x in BLOBBY if x not in ("tau_syn", "abs_hom")],
    "targets": ["ec_ps", "ec_blr", "ec_dt", "tau_ps", "tau_blr", "tau_dt", "u_blr", "u_dt", "u_ps", "dt_sed", "abs_dt"], "abs_z": ABS, "abs_mu": ABS, "l_size": ABS,
    "blr_R": ["ec_blr", "u_blr", "ub_blr", "tau_blr"], "dt_xi": ["ec_dt", "u_dt", "tau_dt", "dt_sed"], "ps_eps": ["ec_ps", "tau_ps"],
    "ps_L": ["ec_ps", "tau_ps", "u_ps", "ub_ps"], "blr_L": ["ec_blr", "u_blr", "ub_blr", "tau_blr"], "blr_xi": ["ec_blr", "u_blr", "tau_blr"], "dt_L": ["ec_dt", "u_dt", "tau_dt", "abs_dt", "dt_sed"],
    "dt_R": ["ec_dt", "u_dt", "tau_dt"], "r_dt": ["ec_dt", "tau_dt"], "r_blr": ["ec_blr", "tau_blr"], "r_disk": ["ec_disk", "tau_disk"], "r_ps": ["ec_ps", "tau_ps"], "mu_size": ["ec_blr", "ec_dt", "ec_cmb", "ec_disk"],
}


def update(rng, w, o, op):
    """changes the objects of the world in place, and its parameters accordingly"""
    f = float(rng.uniform(0.3, 3))
    b = o["blob"]
    if op in ("B", "R_b", "Gamma", "xi"):
        if op == "Gamma":
            G = w.p["Gamma"]
            lim = w.p["delta"]
            # keep a real viewing angle: delta <= Gamma (1 + beta)
            f = float(rng.uniform(1.0, 2.0))
        w.p[op] *= f
        setattr(b, op, {"B": u.G, "R_b": u.cm}.get(op, 1) * w.p[op])
    elif op == "delta":
        w.p["delta"] *= float(rng.uniform(0.7, 1.0))
        b.delta_D = w.p["delta"]
    elif op == "z":
        w.p["z"] *= f
        b.z = w.p["z"]
    elif op == "k":
        if w.tab is not None:  # the norm multiplies the table, it is set when the distribution is built
            w.spec = dict(w.spec, norm=w.spec["norm"] * f)
            o["n_e"] = b.n_e = w.electrons()
        else:
            w.spec = dict(w.spec, k=w.spec["k"] * f)
            o["n_e"].k = w.spec["k"] * u.Unit("cm-3")
    elif op == "tab":  # another table with the same norm and the same Lorentz factors
        if w.tab is None:
            w.table(*gen.interp_spec(rng))
        else:
            g, n = w.tab
            w.table(dict(w.spec), g, n * (g / g[0]) ** float(rng.uniform(-0.7, 0.7)) * float(rng.choice([1, f])))
        o["n_e"] = b.n_e = w.electrons()
    elif op == "law":  # another law with the same numbers
        s = w.spec
        if s["type"] == "LogParabola":
            w.spec = {"type": "BrokenPowerLaw", "k": s["k"], "p1": s["p"], "p2": s["q"], "gamma_b": s["gamma_0"]}
        elif s["type"] == "BrokenPowerLaw":
            w.spec = {"type": "LogParabola", "k": s["k"], "p": s["p1"], "q": s["p2"], "gamma_0": s["gamma_b"]}
        else:
            w.spec = gen.spectrum(rng, types=["BrokenPowerLaw", "LogParabola"], gmin=(1.0, 1e3), gmax=(1e4, 1e7), edge=False)
            s = w.spec
            w.tab = None
        w.spec.update(gamma_min=s["gamma_min"], gamma_max=s["gamma_max"])
        o["n_e"] = b.n_e = w.electrons()
    elif op == "index":
        at = [x for x in ("p", "p1", "p2", "q", "gamma_b", "gamma_c", "gamma_0") if x in w.spec]
        if at:
            at = str(rng.choice(at))
            w.spec = dict(w.spec, **{at: w.spec[at] * float(rng.uniform(0.9, 1.1))})
            setattr(o["n_e"], at, w.spec[at])
    elif op == "blob":  # another blob given to everything
        for at in ("R_b", "B"):
            w.p[at] *= float(rng.uniform(0.5, 2))
        n = w.build()
        o["blob"] = n["blob"]
        o["n_e"], o["n_p"] = n["n_e"], n["n_p"]
        for k in o:
            if k in ("synch", "psynch", "ssc", "sc") or k.startswith("ec_"):
                o[k].blob = n["blob"]
        o["abs_syn"].target = n["blob"]
    elif op == "integ":
        w.integ, w.iname = gen.integrator(rng)
        for k in o:
            if k in ("synch", "psynch", "ssc") or k.startswith("ec_"):
                o[k].integrator = w.integ
        o["n_e"].integrator = w.integ
        o["n_p"].integrator = w.integ
    elif op == "targets":  # others of the same kind
        w.blr, w.dt = gen.blr_par(rng), gen.dt_par(rng)
        if w.dt["R"] is None:
            w.dt["R"] = 3.5e18 * np.sqrt(w.dt["L"] / 1e45) * (w.dt["T"] / 1e3) ** -2.6
        w.ps = {"L0": gen.logu(rng, 1e40, 1e46), "eps0": gen.logu(rng, 1e-8, 1e-3)}
        w.r = dict(w.r, blr=w.blr["R"] * float(rng.choice([0.3, 0.8, 1.3, 5])) * float(rng.uniform(0.9, 1.1)), dt=gen.distance(rng, "dt", w.dt))
        n = w.build()
        for t in ("ps", "blr", "dt"):
            o[t] = n[t]
            o["ec_" + t].target = o["abs_" + t].target = n[t]
            o["ec_" + t].r = o["abs_" + t].r = w.r[t] * u.cm
    elif op == "abs_z":
        w.za = w.za * f
        for t in ("ps", "disk", "blr", "dt"):
            o["abs_" + t].z = w.za
    elif op == "abs_mu":
        w.mu_s = 1.0 if w.mu_s < 1 and rng.random() < 0.4 else float(np.cos(gen.logu(rng, 0.01, 0.5)))
        for t in ("ps", "blr", "dt"):
            o["abs_" + t].mu_s = w.mu_s
    elif op == "l_size":
        w.l_size = int(rng.integers(8, 40))
        for t in ("ps", "disk", "blr", "dt"):
            o["abs_" + t].set_l(w.l_size)
    elif op == "blr_R":
        w.blr = dict(w.blr, R=w.blr["R"] * f)
        o["blr"].R_line = w.blr["R"] * u.cm
    elif op == "dt_xi":
        w.dt = dict(w.dt, xi=w.dt["xi"] * f)
        o["dt"].xi_dt = w.dt["xi"]
    elif op == "ps_eps":
        w.ps = dict(w.ps, eps0=w.ps["eps0"] * f)
        o["ps"].epsilon_0 = w.ps["eps0"]
    elif op == "p_k":
        w.pspec = dict(w.pspec, k=w.pspec["k"] * f)
        o["n_p"].k = w.pspec["k"] * u.Unit("cm-3")
    elif op == "gamma_max":
        if w.tab is not None:
            return
        w.spec = dict(w.spec, gamma_max=w.spec["gamma_max"] * float(rng.uniform(1, 3)))
        o["n_e"].gamma_max = w.spec["gamma_max"]
    elif op == "new_n_e":
        w.tab = None
        w.spec = gen.spectrum(rng, gmin=(1.0, 1e3), gmax=(1e4, 1e7), edge=False)
        o["n_e"] = gen.build(w.spec, integrator=w.integ)
        b.n_e = o["n_e"]
    elif op == "size":
        w.size = int(rng.integers(50, 300))
        b.gamma_e_size = w.size
        b.gamma_p_size = w.size
    elif op == "ssa":
        w.ssa = not w.ssa
        o["synch"].ssa = w.ssa
        o["ssc"].ssa = w.ssa
    elif op == "ps_L":
        w.ps = dict(w.ps, L0=w.ps["L0"] * f)
        o["ps"].L_0 = w.ps["L0"] * u.Unit("erg s-1")
    elif op == "blr_L":
        w.blr = dict(w.blr, L=w.blr["L"] * f)
        o["blr"].L_disk = w.blr["L"] * u.Unit("erg s-1")
    elif op == "blr_xi":
        w.blr = dict(w.blr, xi=w.blr["xi"] * f)
        o["blr"].xi_line = w.blr["xi"]
    elif op == "dt_L":
        w.dt = dict(w.dt, L=w.dt["L"] * f)
        o["dt"].L_disk = w.dt["L"] * u.Unit("erg s-1")
    elif op == "dt_R":
        w.dt = dict(w.dt, R=w.dt["R"] * f)
        o["dt"].R_dt = w.dt["R"] * u.cm
    elif op == "mu_size":
        w.sizes = (int(rng.integers(12, 30)), int(rng.integers(8, 20)))
        for t in ("cmb", "ps", "disk", "blr", "dt"):
            o["ec_" + t].set_mu(w.sizes[0])
            o["ec_" + t].set_phi(w.sizes[1])
        for t in ("ps", "disk", "blr", "dt"):
            o["abs_" + t].set_mu(w.sizes[0])
            o["abs_" + t].set_phi(w.sizes[1])
    else:
        t = op[2:]
        w.r = dict(w.r, **{t: w.r[t] * float(rng.choice([0.5, 0.77, 1.6, 3.1]))})
        o["ec_" + t].r = w.r[t] * u.cm
        o["abs_" + t].r = w.r[t] * u.cm


def alone(w, points):
    """values on objects built now: [(label, argument)] -> [value in the documented unit]"""
    c = w.calls(w.build())
    return [np.asarray(u.Quantity(c[lab][0](x)).to_value(c[lab][2])) for lab, x in points]


def updates(rng, mon, tier):
    with Pristine() as clean:
        _updates(rng, mon, tier, clean)


def _updates(rng, mon, tier, clean):
    """after any sequence of updates interleaved with evaluations, the results are those of objects built in the present state"""
    w = catalog.World(rng, p_interp=0.25)
    o = w.build()
    # what is evaluated, and the updates that concern it
    labels = sorted(set(sum(OPS.values(), [])))
    focus = [str(x) for x in rng.choice(labels, 2, replace=False)]
    pool = sorted(op for op in OPS if set(OPS[op]) & set(focus))
    if w.tab is not None and "tab" in pool:
        pool += ["tab"] * 4
    if w.spec["type"] in ("LogParabola", "BrokenPowerLaw") and "law" in pool:
        pool += ["law"] * 2
    ops = [str(x) for x in rng.choice(pool, int(rng.integers(3, 8)))]
    mon.case(focus=focus, ops=ops, **w.show())
    moved = False
    for op in ops:
        mon.feature(op, "eval:" + focus[0])
        # use the objects before the update, to let anything be remembered
        c = w.calls(o)
        xs = {}
        for lab in focus:
            xs[lab] = w.quantity(c[lab][1], w.arg(rng, c[lab][1], 2))
            c[lab][0](xs[lab])
        update(rng, w, o, op)
        moved = moved or op == "z"
        fresh = w.build()
        cf = w.calls(fresh)
        c = w.calls(o)
        done = []
        for lab in focus:
            if moved and lab.startswith("ec_cmb"):
                continue
            x = xs[lab]
            if rng.random() < 0.5:
                x = w.quantity(c[lab][1], w.arg(rng, c[lab][1], 2))
            got, want = mon.val(lab, c[lab][0](x), c[lab][2]), mon.val(lab, cf[lab][0](x), c[lab][2])
            if np.any(np.isnan(want)):
                mon.ok("after_update", np.array_equal(np.isnan(got), np.isnan(want)), label=lab, op=op)
            else:
                mon.close("after_update", got, want, 1e-9, 1e-200, label=lab, op=op)
            done.append((lab, x, want))
        if done and rng.random() < 0.5:  # nor does anything remembered outside of the objects show up
            for (lab, x, want), v in zip(done, clean(alone, w, [q[:2] for q in done])):
                same(mon, "pristine", want, v, lab)
        if rng.random() < 0.2:
            sf, so = w.scalars(fresh), w.scalars(o)
            for n in so:
                if n.startswith(("blob.", "sc.", "n_e.")):
                    mon.close("after_update", mon.val(n, so[n][0](), so[n][1]), mon.val(n, sf[n][0](), so[n][1]), 1e-9, 0.0, label=n, op=op)


def restore(rng, mon, tier):
    """changing something and changing it back leaves no trace"""
    w = catalog.World(rng)
    o = w.build()
    mon.case(**w.show())
    b = o["blob"]
    c = w.calls(o)
    lab = str(rng.choice([x for x in BLOBBY if x != "n_p"]))
    x = w.quantity(c[lab][1], w.arg(rng, c[lab][1], 3))
    v0 = np.array(mon.val(lab, c[lab][0](x), c[lab][2]), copy=True)
    for at in rng.permutation(["B", "R_b", "delta_D", "z", "n_e", "gamma_e_size", "k", "p"])[:3]:
        mon.feature("restore:" + at)
        holder = o["n_e"] if (at == "k" and w.tab is None) or (at == "p" and "p" in w.spec) else b
        if at in ("p", "k") and holder is b:
            continue
        old = getattr(holder, at)
        new = gen.build(gen.spectrum(rng)) if at == "n_e" else (old * 0.9 if at != "gamma_e_size" else old + 7)
        setattr(holder, at, new)
        c[lab][0](x)
        setattr(holder, at, old)
        same(mon, "after_restore", mon.val(lab, c[lab][0](x), c[lab][2]), v0, lab)


def static(rng, mon, tier):
    """the evaluate_* functions keep the arrays they are given"""
    from agnpy.synchrotron import Synchrotron
    from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
    from agnpy.absorption import Absorption
    w = catalog.World(rng)
    o = w.build()
    b = o["blob"]
    mon.case(**w.show())
    mon.nontrivial = True
    g = np.logspace(np.log10(w.spec["gamma_min"]) - 1, np.log10(w.spec["gamma_max"]) + 1, 40)
    mu, phi = np.linspace(-1, 1, 12), np.linspace(0, 2 * np.pi, 10)
    nu = w.quantity("nu", w.arg(rng, "nu_ec", 3))
    a = (nu, b.z, b.d_L, b.delta_D)
    n = (b.n_e,) + tuple(b.n_e.parameters)
    rq = {t: w.r[t] * u.cm for t in w.r}
    t = o
    runs = {
        "synch": lambda: Synchrotron.evaluate_sed_flux(*a, b.B, b.R_b, *n, ssa=w.ssa, gamma=g, integrator=w.integ),
        "ssc": lambda: SynchrotronSelfCompton.evaluate_sed_flux(*a, b.B, b.R_b, *n, ssa=w.ssa, gamma=g, integrator=w.integ),
        "cmb": lambda: ExternalCompton.evaluate_sed_flux_iso_mono(*a, b.mu_s, b.R_b, t["cmb"].epsilon_0, t["cmb"].u_0, *n, gamma=g, mu=mu, phi=phi, integrator=w.integ),
        "ps": lambda: ExternalCompton.evaluate_sed_flux_ps_behind_jet(*a, b.mu_s, b.R_b, w.ps["eps0"], t["ps"].L_0, rq["ps"], *n, gamma=g, integrator=w.integ),
        "blr": lambda: ExternalCompton.evaluate_sed_flux_blr(*a, b.mu_s, b.R_b, t["blr"].L_disk, w.blr["xi"], t["blr"].epsilon_line, t["blr"].R_line, rq["blr"], *n, gamma=g, mu=mu, phi=phi, integrator=w.integ),
        "dt": lambda: ExternalCompton.evaluate_sed_flux_dt(*a, b.mu_s, b.R_b, t["dt"].L_disk, w.dt["xi"], t["dt"].epsilon_dt, t["dt"].R_dt, rq["dt"], *n, gamma=g, phi=phi, integrator=w.integ),
        "tau_blr": lambda: Absorption.evaluate_tau_blr(nu, b.z, 1, t["blr"].L_disk, w.blr["xi"], t["blr"].epsilon_line, t["blr"].R_line, rq["blr"], l_size=9, mu=mu, phi=phi),
        "tau_dt": lambda: Absorption.evaluate_tau_dt(nu, b.z, 1, t["dt"].L_disk, w.dt["xi"], t["dt"].epsilon_dt, t["dt"].R_dt, rq["dt"], l_size=9, phi=phi),
    }
    before = state(o)
    for lab in rng.permutation(sorted(runs))[:5]:
        own = [digest(q) for q in (g, mu, phi, nu, *rq.values(), b.R_b, b.B)]
        r1 = np.array(u.Quantity(runs[lab]()).value, copy=True)
        r2 = np.array(u.Quantity(runs[lab]()).value, copy=True)
        mon.ok("evaluate_args_kept", own == [digest(q) for q in (g, mu, phi, nu, *rq.values(), b.R_b, b.B)], label=lab)
        same(mon, "repeat", r2, r1, lab)
    mon.ok("state_kept", state(o) == before, changed=diff(before, state(o)))


def rewritten(rng, mon, tier):
    """arguments that look like the previous ones: the same array with other values in it, another
    one with the same ends, slices, other orders; the results are those of objects never used before"""
    w = catalog.World(rng)
    o, o2 = w.build(), w.build()
    c, c2 = w.calls(o), w.calls(o2)
    labs = sorted({str(x) for x in rng.permutation(sorted(c))[:8]} | {str(rng.choice(["n_e", "n_p", "n_e_ssa"]))})
    mon.case(labels=labs, **w.show())
    if "ebl" in labs:
        from agnpy.absorption import EBL
        new = EBL(w.ebl)
        c2["ebl"] = (lambda n: new.absorption(n, min(w.p["z"], 2.0)), "nuebl", None)
    for lab in labs:
        f, kind, un = c[lab]
        n = int(rng.integers(4, 9))
        v = np.sort(w.arg(rng, kind, n))
        v1 = v.copy()  # other values within the same ends
        v1[1:-1] = np.sqrt(v[1:-1] * v[2:] if rng.random() < 0.5 else v[1:-1] * v[:-2])
        x = w.quantity(kind, v)
        plain = x.value if hasattr(x, "value") else x
        got = [np.array(mon.val(lab, f(x), un), copy=True)]
        seq = [v]
        for how in [str(q) for q in rng.permutation(["in place", "other array", "reversed", "first half", "scaled", "back", "same sum"])[:4]]:
            mon.feature("again:" + how)
            if how == "in place":
                plain[...] = w.quantity(kind, v1).value if hasattr(x, "value") else v1
                now, arg = v1, x
            elif how == "other array":
                now = v.copy()
                now[1:-1] = np.sqrt(v1[1:-1] * v[1:-1])
                arg = w.quantity(kind, now)
            elif how == "reversed":
                now = v[::-1].copy()
                arg = w.quantity(kind, now)
            elif how == "first half":
                now = v[: n // 2].copy()
                arg = w.quantity(kind, now)
            elif how == "scaled":  # hardly different
                now = v * (1 + 10 ** rng.uniform(-7, -2, n))
                arg = w.quantity(kind, now)
            elif how == "same sum":
                now = v.copy()
                e = 0.3 * min(v[1] - v[0], v[3] - v[2])
                now[1] -= e
                now[2] += e
                arg = w.quantity(kind, now)
            else:
                plain[...] = w.quantity(kind, v).value if hasattr(x, "value") else v
                now, arg = v, x
            got.append(np.array(mon.val(lab, f(arg), un), copy=True))
            seq.append(np.array(now, copy=True))
        order = rng.permutation(len(seq))
        for i in order:
            same(mon, "rewritten", got[i], mon.val(lab, c2[lab][0](w.quantity(kind, seq[i].copy())), un), lab)


def threads(rng, mon, tier):
    """evaluations in several threads, on the same objects, give what they give one after the other"""
    import sys
    from concurrent.futures import ThreadPoolExecutor
    w = catalog.World(rng)
    o = w.build()
    c = w.calls(o)
    labs = [str(x) for x in rng.permutation(sorted(c))[:6]]
    mon.case(labels=labs, **w.show())
    jobs = []
    for lab in labs:
        for _ in range(2):
            jobs.append((lab, w.quantity(c[lab][1], w.arg(rng, c[lab][1], int(rng.integers(1, 4))))))
    want = [np.array(mon.val(lab, c2(x), un), copy=True) for lab, x in jobs for c2, _, un in [w.calls(w.build())[lab]]]
    before = state(o)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        order = [int(i) for i in rng.permutation(np.repeat(np.arange(len(jobs)), 2))]
        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(lambda i: c[jobs[i][0]][0](jobs[i][1]), order))
    finally:
        sys.setswitchinterval(old)
    for i, r in zip(order, res):
        lab = jobs[i][0]
        same(mon, "threads", mon.val(lab, r, c[lab][2]), want[i], lab)
    mon.counts["evaluations in threads"] += len(order)
    mon.ok("state_kept", state(o) == before, changed=diff(before, state(o)))


def copies(rng, mon, tier):
    """a copy of the objects gives the same results, and what happens to it does not concern the original"""
    w = catalog.World(rng)
    o = w.build()
    c = w.calls(o)
    labs = [str(x) for x in rng.permutation([x for x in sorted(c) if x != "ebl"])[:5]]
    mon.case(labels=labs, **w.show())
    xs = {lab: w.quantity(c[lab][1], w.arg(rng, c[lab][1], 2)) for lab in labs}
    first = {}
    if rng.random() < 0.5:  # used before they are copied
        for lab in labs:
            c[lab][0](xs[lab])
    k = copy.deepcopy(o)
    ck = w.calls(k)
    for lab in labs:
        first[lab] = np.array(mon.val(lab, c[lab][0](xs[lab]), c[lab][2]), copy=True)
        same(mon, "copies", mon.val(lab, ck[lab][0](xs[lab]), c[lab][2]), first[lab], lab)
    before = state(o)
    b = k["blob"]
    b.B = 3 * b.B
    b.R_b = 0.5 * b.R_b
    b.n_e = gen.build(gen.spectrum(rng))
    for t in ("blr", "dt", "disk"):
        k[t].L_disk = 2 * k[t].L_disk
    for lab in labs:
        ck[lab][0](xs[lab])
    mon.ok("copies", state(o) == before, changed=diff(before, state(o)))
    for lab in labs:
        same(mon, "copies", mon.val(lab, c[lab][0](xs[lab]), c[lab][2]), first[lab], lab)


def functions(rng):
    """{name: (function, arguments)} of the functions of arrays"""
    from lib.harness import optional as get
    from scipy.constants import pi
    n = int(rng.integers(1, 7))
    L = lambda a, b: 10 ** rng.uniform(a, b, n)
    U = lambda a, b: rng.uniform(a, b, n)
    cm = lambda a, b: L(a, b) * u.cm
    y, x = L(-3, 3) * (rng.random(n) < 0.8), np.cumsum(L(0, 2))
    out = {
        ("agnpy.utils.math", "log"): [(L(-10, 10) * rng.integers(0, 2, n),)],
        ("agnpy.utils.math", "trapz_loglog"): [(y, x)],
        ("agnpy.utils.math", "axes_reshaper"): [(L(0, 1), L(0, 1))],
        ("agnpy.utils.geometry", "cos_psi"): [(float(rng.uniform(-1, 1)), U(-1, 1), U(0, 2 * pi))],
        ("agnpy.utils.geometry", "x_re_shell"): [(U(-1, 1), 1e17 * u.cm, cm(16, 19))],
        ("agnpy.utils.geometry", "mu_star_shell"): [(U(-1, 1), 1e17 * u.cm, cm(16, 19))],
        ("agnpy.utils.geometry", "x_re_ring"): [(1e18 * u.cm, cm(16, 19))],
        ("agnpy.utils.geometry", "x_re_ring_mu_s"): [(1e18 * u.cm, 1e17 * u.cm, U(0, 6), cm(16, 19), float(rng.uniform(0.5, 1)))],
        ("agnpy.utils.geometry", "phi_mu_re_ring"): [(1e18 * u.cm, 1e17 * u.cm, U(0, 6), cm(16, 19), float(rng.uniform(0.5, 1)))],
        ("agnpy.utils.geometry", "x_re_shell_mu_s"): [(1e17 * u.cm, 2e17 * u.cm, U(0, 6), U(-1, 1), cm(16, 19), float(rng.uniform(0.5, 1)))],
        ("agnpy.utils.geometry", "phi_mu_re_shell"): [(1e17 * u.cm, 2e17 * u.cm, U(0, 6), U(-1, 1), cm(16, 19), float(rng.uniform(0.5, 1)))],
        ("agnpy.utils.conversion", "nu_to_epsilon_prime"): [(L(8, 28) * u.Hz, 0.3, 12.0)],
        ("agnpy.utils.conversion", "B_to_cgs"): [(L(-3, 2) * u.G,)],
        ("agnpy.utils.conversion", "to_R_g_units"): [(cm(14, 19), 1e41 * u.g)],
        ("agnpy.compton.kernels", "F_c"): [(U(0, 1.5), L(-4, 4))],
        ("agnpy.compton.kernels", "isotropic_kernel"): [(L(0, 6), L(-10, 1), L(-10, 6))],
        ("agnpy.compton.kernels", "get_gamma_min"): [(L(-6, 6), L(-10, 1), float(rng.uniform(0.9, 1)), U(-1, 0.9), U(0, 6))],
        ("agnpy.compton.kernels", "compton_kernel"): [(L(0, 6), L(-6, 6), L(-10, 1), float(rng.uniform(0.9, 1)), U(-1, 0.9), U(0, 6))],
        ("agnpy.absorption", "sigma"): [(U(0, 3) * L(-1, 3),)],
        ("agnpy.synchrotron", "R"): [(L(-6, 2),)],
        ("agnpy.synchrotron", "nu_synch_peak"): [(L(-3, 1) * u.G, L(1, 6))],
        ("agnpy.synchrotron", "single_particle_synch_power"): [(L(-3, 1) * u.Unit("cm(-1/2) g(1/2) s-1"), L(-14, -2), L(1, 6))],
        ("agnpy.synchrotron", "tau_to_attenuation"): [(L(-8, 3) * rng.integers(0, 2, n),)],
    }
    return {".".join(k): (f, v[0]) for k, v in out.items() for f in [get(*k) or get(k[0] + "." + k[0].split(".")[1], k[1])] if f is not None}


def arrays(rng, mon, tier):
    """the functions of arrays keep their arguments, read only ones included, and give results of their own"""
    fs = functions(rng)
    mon.case(functions=len(fs), at=float(rng.random()))
    mon.nontrivial = True
    # the settings of the caller (restored by the harness at the beginning of every case)
    np.seterr(**{k: str(rng.choice(["warn", "ignore"])) for k in ("divide", "over", "under", "invalid")})
    g0 = glob()
    for lab, (f, a) in fs.items():
        mon.feature(lab)
        own = [digest(x) for x in a]
        r = f(*a)
        if lab.endswith("axes_reshaper"):  # views of the arguments
            continue
        values = lambda q: [np.array(getattr(i, "value", i), dtype=float, copy=True) for i in (q if isinstance(q, tuple) else (q,))]
        first = values(r)
        mon.ok("argument_kept", [digest(x) for x in a] == own, label=lab)
        mon.ok("no_alias", not any(np.shares_memory(np.asarray(i), np.asarray(getattr(x, "value", x))) for i in (r if isinstance(r, tuple) else [r]) for x in a), label=lab)
        for x in a:
            if isinstance(x, np.ndarray) and x.ndim:
                x.flags.writeable = False
        again = values(f(*a))
        mon.ok("repeat", all(np.array_equal(i, j, equal_nan=True) for i, j in zip(first, again)), label=lab)
    mon.ok("globals_kept", not gdiff(g0, glob()), changed=gdiff(g0, glob()))
    np.seterr(all="ignore")


def evolve(mon, seed, err, tell=True):
    """a short time evolution, the same for the same seed"""
    from agnpy.time_evolution import TimeEvolution
    from lib.tevol import Problem, gen_time
    rng = np.random.default_rng(seed)
    P = Problem(rng, size=(8, 20), x=(0.05, 0.3))
    opt = bool(rng.random() < 0.5)
    kw = dict(optimize_recalculating_slow_rates=opt, merge_bins_closer_than=None, max_energy_change_per_interval=0.05, max_density_change_per_interval=0.3, max_injection_per_interval=1e10,
              method="euler" if opt or rng.random() < 0.5 else "heun")
    if rng.random() < 0.5:
        kw["initial_gamma_array"] = np.clip(P.grid(), P.spec["gamma_min"], P.spec["gamma_max"])
        if rng.random() < 0.5:
            kw["gamma_bounds"] = (P.spec["gamma_min"], P.spec["gamma_max"])
    T = gen_time(rng, P.T)
    fns = P.functions(str(rng.choice(["dict", "list"])))
    ne = P.blob.n_e
    before = {k: digest(v) for k, v in dict(T=T, ne=ne, **kw).items()}
    np.seterr(**err)
    g0 = glob()
    r = TimeEvolution(P.blob, T, **fns, **kw).evaluate()
    g1 = glob()
    np.seterr(all="ignore")
    if tell:
        mon.ok("globals_kept", not gdiff(g0, g1), changed=gdiff(g0, g1), label="evolution")
        mon.ok("argument_kept", {k: digest(v) for k, v in dict(T=T, ne=ne, **kw).items()} == before, label="evolution")
    return [r.gamma, mon.val("density", r.density, "cm-3"), r.density_subgroups]


def fitted(mon, seed, err, tell=True):
    """the SED of a fit model, the same for the same seed"""
    from lib import fitw
    rng = np.random.default_rng(seed)
    n_e = gen.build(fitw.n_e_spec(rng))
    be, kind, ssa = str(rng.choice(["sherpa", "gammapy"])), str(rng.choice(["ssc", "ec"])), bool(rng.random() < 0.5)
    E = np.sort([gen.logu(rng, 1e-3, 1e12) for _ in range(4)])
    m = fitw.make(kind, be, n_e, tg=list(rng.permutation(["blr", "dt"]))[: int(rng.integers(1, 3))], ssa=ssa)
    ps = fitw.params(m, be)
    reg = fitw.region(rng)
    for n, v in (("z", reg["z"]), ("delta_D", reg["delta_D"]), ("log10_B", np.log10(reg["B"])), ("t_var", reg["t_var"])):
        fitw.setval(m, be, n, v)
    x = E if be == "sherpa" else E * u.eV
    before = digest(x), {k: fitw.value(p, be) for k, p in ps.items()}, digest(n_e)
    np.seterr(**err)
    g0 = glob()
    r = m(x)
    g1 = glob()
    np.seterr(all="ignore")
    v = np.array(mon.val(be, r, "erg cm-2 s-1" if be == "sherpa" else "cm-2 s-1 eV-1"))
    if tell:
        mon.ok("globals_kept", not gdiff(g0, g1), changed=gdiff(g0, g1), label="fit")
        mon.ok("argument_kept", digest(x) == before[0] and digest(n_e) == before[2], label="fit")
        mon.ok("state_kept", {k: fitw.value(p, be) for k, p in ps.items()} == before[1], label="fit")
        if hasattr(r, "flags") and r.flags.writeable:
            mon.ok("no_alias", not np.shares_memory(np.asarray(getattr(r, "value", r)), np.asarray(getattr(x, "value", x))), label="fit")
            r[...] = 0.5 * r
        same(mon, "repeat", np.array(mon.val(be, m(x), "erg cm-2 s-1" if be == "sherpa" else "cm-2 s-1 eV-1")), v, "fit")
    return [v]


def others(rng, mon, tier):
    """time evolutions and fit models: same again, whatever was evaluated between; the settings of the caller are kept"""
    runs = [(evolve, "evolution"), (fitted, "fit")]
    k = [int(x) for x in rng.integers(0, 2, 2)]
    seeds = [int(x) for x in rng.integers(1 << 40, size=2)]
    err = {k_: str(rng.choice(["warn", "ignore"])) for k_ in ("divide", "over", "under", "invalid")}
    mon.case(runs=[runs[i][1] for i in k], seeds=seeds, err=err)
    mon.feature(*["then_".join(runs[i][1] for i in k)])
    f, lab = runs[k[0]]
    a = f(mon, seeds[0], err)
    runs[k[1]][0](mon, seeds[1], err)
    w = catalog.World(rng)
    o = w.build()
    c = w.calls(o)
    for x in rng.permutation(sorted(c))[:3]:
        c[str(x)][0](w.quantity(c[str(x)][1], w.arg(rng, c[str(x)][1], 3)))
    b = f(mon, seeds[0], err, tell=False)
    mon.ok("fresh_object", len(a) == len(b) and all(x.shape == y.shape for x, y in zip(a, b)), label=lab)
    for x, y in zip(a, b):
        same(mon, "fresh_object", y, x, lab)


KINDS = {"others": (others, 40, 900), "arrays": (arrays, 120, 3000), "rewritten": (rewritten, 60, 1500), "threads": (threads, 24, 600), "copies": (copies, 40, 1000), "history": (history, 50, 1500), "updates": (updates, 260, 4000), "restore": (restore, 80, 2500), "static": (static, 40, 1200)}
