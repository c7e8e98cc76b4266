"""C06: the derived quantities of a blob always reflect its present state.

History monitor: a blob goes through a random sequence of updates; a model of
its state (plain floats) is kept alongside and, after every update, every
derived quantity is compared with the one computed from the model alone.
Reads are interleaved at random, so that a stale cache is observable."""
import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p
from lib import gen, ref

PID = "C06"
RULE = "distinct update histories (states visited are counted by the monitors)"
ASSUMPTIONS = ["delta_D <= 2 Gamma for the viewing angle", "integrals on the blob's own logarithmic grid"]
MONITORS = ["V_b", "t_var", "Beta", "mu_s", "theta_s", "d_L", "U_B", "gamma_e", "n_e_tot", "N_e_tot", "u_e", "W_e", "k_eq", "P_jet_ke", "P_jet_B",
            "u_ph_synch", "u_ph_synch_diff", "N_e", "theta_roundtrip", "protons", "no_protons_refused", "aligned",
            "read_back"]


class Model:
    pass


def _trapz(spec, n, power):
    g = np.logspace(np.log10(spec["gamma_min"]), np.log10(spec["gamma_max"]), n)
    gc = np.clip(g, spec["gamma_min"], spec["gamma_max"])
    return float(ref.trapz(ref.n_of(spec, gc) * g**power, g))


def observe(rng, mon, b, m):
    """compare all the derived quantities, in random order"""
    mon.floor = 1e-200
    beta = np.sqrt(1 - 1 / m.Gamma**2)
    V = 4 / 3 * np.pi * m.R_b**3
    UB = m.B**2 / (8 * np.pi)
    ue = ref.MEC2 * _trapz(m.spec, m.size, 1)
    ne = _trapz(m.spec, m.size, 0)
    upart = ue
    if m.pspec is not None:
        up = ref.MPC2 * _trapz(m.pspec, m.psize, 1)
        upart = ue + up
    pre = 2 * np.pi * m.R_b**2 * beta * m.Gamma**2 * ref.C
    mu = (1 - 1 / (m.Gamma * m.delta)) / beta
    items = [
        ("V_b", lambda: b.V_b, "cm3", V),
        ("t_var", lambda: b.t_var, "s", (1 + m.z) * m.R_b / ref.C / m.delta),
        ("Beta", lambda: b.Beta, None, beta),
        ("d_L", lambda: b.d_L, "cm", ref.d_L_cm(m.z, m.cosmo)),
        ("U_B", lambda: b.U_B, "erg cm-3", UB),
        ("n_e_tot", lambda: b.n_e_tot, "cm-3", ne),
        ("N_e_tot", lambda: b.N_e_tot, "", ne * V),
        ("u_e", lambda: b.u_e, "erg cm-3", ue),
        ("W_e", lambda: b.W_e, "erg", ue * V),
        ("k_eq", lambda: b.k_eq, None, upart / UB),
        ("P_jet_ke", lambda: b.P_jet_ke, "erg s-1", pre * upart),
        ("P_jet_B", lambda: b.P_jet_B, "erg s-1", pre * UB),
        ("u_ph_synch", lambda: b.u_ph_synch, "erg cm-3", ref.SIGMA_T * UB * m.R_b * _trapz(m.spec, m.size, 2)),
    ]
    if mu < 1 + 1e-10:
        items.append(("mu_s", lambda: b.mu_s, None, min(mu, 1.0)))
    for name, val, unit in (("z", m.z, None), ("delta_D", m.delta, None), ("Gamma", m.Gamma, None), ("R_b", m.R_b, "cm"), ("B", m.B, "G"), ("gamma_e_size", m.size, None)):
        mon.close("read_back", mon.val(name, getattr(b, name), unit), np.asarray(val), 1e-12)
    if rng.random() < 0.3:
        # energy density, per unit energy, of the photons of an observed SED
        shape = [(), (1,), (7,)][int(rng.integers(3))]
        e, f = 10 ** rng.uniform(-12, 3, shape), 10 ** rng.uniform(-30, -5, shape)
        if rng.random() < 0.2 and shape == (7,):
            f[:3] = 0.0
        got = mon.val("u_ph_synch_diff", b.u_ph_synch_diff(e, f * u.Unit("erg cm-2 s-1")), "erg cm-3")
        mon.close("u_ph_synch_diff", got, np.asarray(ref.u_synch_diff(m.R_b, ref.d_L_cm(m.z, m.cosmo), m.delta, e, f)), 1e-7)
    k = rng.permutation(len(items))
    if rng.random() < 0.5:
        k = k[: int(rng.integers(2, len(items)))]
    for i in k:
        name, fn, unit, want = items[i]
        mon.close(name, mon.val(name, fn(), unit), np.asarray(want), 1e-7)
    if abs(mu) < 1 and rng.random() < 0.5:
        th = float(mon.val("theta_s", b.theta_s, "rad"))
        # derivative of arccos diverges at mu = 1
        mon.close("theta_s", th, float(np.arccos(mu)), 1e-7, 1e-15 / np.sqrt(1 - mu**2) + 5e-8)
    if rng.random() < 0.5:
        g = mon.val("gamma_e", b.gamma_e, None)
        mon.ok("gamma_e", g.size == m.size and np.isclose(g[0], m.spec["gamma_min"], rtol=1e-9) and np.isclose(g[-1], m.spec["gamma_max"], rtol=1e-9)
               and np.allclose(np.diff(np.log(g)), np.log(g[-1] / g[0]) / max(1, m.size - 1), rtol=1e-6), got=[g.size, g[0], g[-1]])
        x = 10 ** rng.uniform(np.log10(m.spec["gamma_min"]), np.log10(m.spec["gamma_max"]), 5)
        mon.close("N_e", mon.val("N_e", b.N_e(x), ""), V * ref.n_of(m.spec, x), 1e-7)
    if m.pspec is None:
        if rng.random() < 0.3:
            mon.raises("no_protons_refused", AttributeError, lambda: [b.n_p, b.gamma_p, b.u_p, b.n_p_tot][0])
            mon.raises("no_protons_refused", AttributeError, lambda: b.u_p)
            mon.raises("no_protons_refused", AttributeError, lambda: b.gamma_p)
    else:
        np_ = _trapz(m.pspec, m.psize, 0)
        mon.close("protons", mon.val("n_p_tot", b.n_p_tot, "cm-3"), np.asarray(np_), 1e-7)
        mon.close("protons", mon.val("N_p_tot", b.N_p_tot, ""), np.asarray(np_ * V), 1e-7)
        mon.close("protons", mon.val("u_p", b.u_p, "erg cm-3"), np.asarray(up), 1e-7)
        mon.close("protons", mon.val("W_p", b.W_p, "erg"), np.asarray(up * V), 1e-7)
        x = 10 ** rng.uniform(np.log10(m.pspec["gamma_min"]), np.log10(m.pspec["gamma_max"]), 5)
        mon.close("protons", mon.val("N_p", b.N_p(x), ""), V * ref.n_of(m.pspec, x), 1e-7)
    s = str(b)
    mon.ok("printable", isinstance(s, str) and len(s) > 50)


def case(rng, mon, tier):
    from agnpy.emission_regions import Blob
    par, b = gen.blob(rng)
    m = Model()
    m.R_b, m.z, m.delta, m.Gamma, m.B, m.size, m.spec = (par[k] for k in ("R_b", "z", "delta", "Gamma", "B", "size", "spec"))
    m.cosmo = None
    m.pspec, m.psize = None, 200
    if par["cosmo"]:
        m.cosmo = b._cosmology if hasattr(b, "_cosmology") else None
        from astropy.cosmology import FlatLambdaCDM
        m.cosmo = FlatLambdaCDM(H0=float(rng.uniform(60, 75)), Om0=float(rng.uniform(0.2, 0.4)))
        b = Blob(R_b=m.R_b * u.cm, z=m.z, delta_D=m.delta, Gamma=m.Gamma, B=m.B * u.G, n_e=b.n_e, gamma_e_size=m.size, cosmology=m.cosmo)
    steps = int(rng.integers(3, 9))
    log = []
    d = b.n_e  # the distribution, as the user who built the blob with it holds it
    if rng.random() < 0.5:
        spec = gen.spectrum(rng)
        d = gen.build(spec)
        m.spec, b = spec, Blob(R_b=m.R_b * u.cm, z=m.z, delta_D=m.delta, Gamma=m.Gamma, B=m.B * u.G, n_e=d, gamma_e_size=m.size, cosmology=m.cosmo)
    observe(rng, mon, b, m)
    for _ in range(steps):
        op = str(rng.choice(["R_b", "z", "delta", "Gamma", "B", "n_e", "n_e", "n_e_par", "n_e_par", "n_e_par", "size", "set_delta_D", "n_p", "aligned", "psize"]))
        log.append(op)
        if op == "R_b":
            m.R_b = gen.logu(rng, 1e14, 1e18)
            b.R_b = (m.R_b * u.cm).to(str(rng.choice(gen.LEN)))
        elif op == "z":
            m.z = float(rng.uniform(0.01, 3))
            b.z = m.z
        elif op == "delta":
            m.delta = gen.logu(rng, 1, 60)
            b.delta_D = m.delta
        elif op == "Gamma":
            m.Gamma = gen.logu(rng, 1.2, 60)
            b.Gamma = m.Gamma
        elif op == "B":
            m.B = gen.logu(rng, 1e-4, 1e2)
            b.B = (m.B * u.G).to(str(rng.choice(["G", "mG", "T"])))
        elif op == "n_e":
            m.spec, d = gen.any_electrons(rng, gmin=(1.0, 1.0)) if rng.random() < 0.3 else gen.any_electrons(rng)
            b.n_e = d
        elif op == "n_e_par":
            if m.spec["type"] != "Interpolated":
                m.spec = dict(m.spec)
                # updated through the blob or through the user's own reference to it
                e = b.n_e if rng.random() < 0.5 else d
                m.spec["k"] *= 3.0
                e.k = e.k * 3.0
                m.spec["gamma_max"] *= 2.0
                e.gamma_max = m.spec["gamma_max"]
                if rng.random() < 0.3:
                    m.spec["gamma_min"] = float(rng.choice([1.0, 1.5, 3.0]))
                    e.gamma_min = m.spec["gamma_min"]
        elif op == "size":
            m.size = int(rng.integers(50, 300))
            b.gamma_e_size = m.size
        elif op == "psize":
            m.psize = int(rng.integers(50, 300))
            b.gamma_p_size = m.psize
        elif op == "n_p":
            m.pspec = gen.spectrum(rng)
            b.n_p = gen.build(m.pspec, mass=m_p)
        elif op in ("set_delta_D", "aligned"):
            th = 0.0 if op == "aligned" else float(gen.logu(rng, 0.05, 80))
            G = gen.logu(rng, 1.2, 60)
            b.set_delta_D(G, (th * u.deg).to(str(rng.choice(["deg", "rad", "arcmin"]))))
            m.Gamma = G
            be = np.sqrt(1 - 1 / G**2)
            m.delta = 1 / (G * (1 - be * np.cos(np.deg2rad(th))))
            mon.close("theta_roundtrip", b.delta_D, m.delta, 1e-7)
            mon.close("theta_roundtrip", b.Gamma, G, 1e-14)
            ts = float(b.theta_s.to_value("deg"))
            mon.close("theta_roundtrip", ts, th, 1e-6, 1e-4)
            if op == "aligned":
                mon.ok("aligned", np.isfinite(ts) and b.mu_s <= 1, mu_s=b.mu_s, Gamma=G)
        observe(rng, mon, b, m)
    mon.case(par=gen.pub(par), history=log)
    mon.feature(*log)


def aligned(rng, mon, tier):
    """head-on blobs: Doppler factor Gamma (1 + beta), a corner where rounding matters"""
    from agnpy.emission_regions import Blob
    G = gen.logu(rng, 1.05, 100) if rng.random() < 0.7 else float(rng.integers(2, 100))
    beta = np.sqrt(1 - 1 / G**2)
    b = Blob(Gamma=G, delta_D=G * (1 + beta))
    mon.case(Gamma=G)
    mon.nontrivial = True
    mon.ok("aligned", b.mu_s <= 1 and b.mu_s > 1 - 1e-9 and np.isfinite(b.theta_s.value), mu_s=b.mu_s, theta=b.theta_s.value)
    b.set_delta_D(G, 0 * u.deg)
    mon.ok("aligned", b.mu_s <= 1 and b.mu_s > 1 - 1e-9 and np.isfinite(b.theta_s.value), mu_s=b.mu_s, theta=b.theta_s.value)


KINDS = {"history": (case, 400, 5000), "aligned": (aligned, 960, 6000)}
