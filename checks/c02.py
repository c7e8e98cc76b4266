"""C02: normalisation constructors."""
import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p
from lib import gen, ref

PID = "C02"
RULE = "distinct (constructor, parameters, mass, unit of the requested quantity)"
ASSUMPTIONS = [
    "discretisation: the requested total is recovered to 1e-8 by the distribution's own trapezoidal integral and to the accuracy of a 200 points trapezoid by a dense one",
    "the density at gamma=1 is only claimed for gamma_min <= 1",
]
MONITORS = ["total_density", "energy_density", "total_energy", "density_at_1", "parameters_kept", "mass_kept", "linear"]
MC2 = {"e": ref.MEC2, "p": ref.MPC2}


def _dense(s, power):
    lo, hi = np.log(s["gamma_min"]), np.log(s["gamma_max"])
    def f(n):
        g = np.exp(np.linspace(lo, hi, n))
        g[0], g[-1] = s["gamma_min"], s["gamma_max"]
        return ref.trapz(ref.n_of(s, g) * g**power, g)
    dense = f(40001)
    return dense, abs(f(200) / dense - 1)


def case(rng, mon, tier):
    how = str(rng.choice(["total_density", "energy_density", "total_energy", "density_at_1"]))
    s = gen.spectrum(rng, gmin=(0.2, 1.0) if how == "density_at_1" else (1.0, 1e3), edge=how != "density_at_1")
    if rng.random() < 0.25:  # up to the energies of the cosmic rays
        s["gamma_max"] = gen.logu(rng, 1e9, 1e13)
        for a in ("p", "p1", "p2"):
            if a in s and rng.random() < 0.7:
                s[a] = float(rng.uniform(0.3, 1.9))
        for a in ("gamma_b", "gamma_c", "gamma_0"):
            if a in s and rng.random() < 0.7:
                s[a] = gen.logu(rng, 1e8, 1e12)
        mon.feature("very high energies")
    cls = gen.cls_of(s["type"])
    mass, mk = (m_e, "e") if rng.random() < 0.5 else (m_p, "p")
    kw = {k: s[k] for k in gen.PAR_ORDER[s["type"]] if k != "k"}
    val = gen.logu(rng, 1e-8, 1e6)
    mon.case(how=how, spec=s, mass=mk, val=val)
    mon.feature(how, s["type"], mk)

    def make(v, scale=1.0):
        if how == "total_density":
            q = (v * u.Unit("cm-3")).to(str(rng.choice(["cm-3", "m-3"])))
            return cls.from_total_density(q, mass, **kw)
        if how == "energy_density":
            q = (v * u.Unit("erg cm-3")).to(str(rng.choice(["erg cm-3", "J m-3", "eV cm-3"])))
            return cls.from_total_energy_density(q, mass, **kw)
        if how == "total_energy":
            V = gen.logu(rng, 1e42, 1e54)
            W = (v * V * u.erg).to(str(rng.choice(["erg", "J", "GeV"])))
            Vq = (V * u.Unit("cm3")).to(str(rng.choice(["cm3", "m3", "pc3"])))
            return cls.from_total_energy(W, Vq, mass, **kw)
        q = (v * u.Unit("cm-3")).to(str(rng.choice(["cm-3", "m-3"])))
        return cls.from_density_at_gamma_1(q, mass, **kw)

    d = make(val)
    mon.val("k", d.k, "cm-3")
    power = {"total_density": 0, "energy_density": 1, "total_energy": 1}.get(how)
    sk = dict(s, k=d.k.to_value("cm-3"))
    if power is None:
        mon.close(how, mon.val("n", d(1.0), "cm-3"), np.asarray(val), 1e-8)
        mon.close(how, ref.n_of(sk, 1.0), np.asarray(val), 1e-8)
    else:
        unit = MC2[mk] if power else 1.0
        own = mon.val("integral", d.integrate(gamma_power=power), "cm-3") * unit
        mon.close(how, np.ravel(own), np.ravel(val), 1e-8, via="own integral")
        dense, err = _dense(sk, power)
        mon.close(how, dense * unit, val, 3 * err + 1e-6, via="dense integral")
    for k, v in kw.items():
        mon.ok("parameters_kept", getattr(d, k) == v, name=k, got=getattr(d, k), want=v)
    mon.ok("mass_kept", d.mass is mass and d.particle == {"e": "electrons", "p": "protons"}[mk] and
           np.isclose(d.mc2.to_value("erg"), MC2[mk], rtol=1e-9), got=d.particle)
    d3 = make(3 * val)
    mon.close("linear", d3.k.to_value("cm-3"), 3 * d.k.to_value("cm-3"), 1e-9)


KINDS = {"constructor": (case, 1050, 8000)}
