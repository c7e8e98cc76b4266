"""random radiative processes on random blobs (workload of the metamorphic monitors)"""
import numpy as np
import astropy.units as u
from . import gen, ref

ALL = ["synch", "synch_ssa", "ssc", "ssc_ssa", "psynch", "ec_cmb", "ec_ps", "ec_disk", "ec_blr", "ec_dt"]


class Proc:
    """rebuildable description of a process: params -> (blob, target, process)"""

    def __init__(self, rng, name=None, p_interp=0.1, **kw):
        self.name = name or str(rng.choice(ALL))
        self.ec = self.name.startswith("ec_")
        self.integ, self.iname = gen.integrator(rng)
        if self.name == "psynch":
            p_interp = 0
        spec, dist = gen.any_electrons(rng, p_interp=p_interp, **kw)
        self.par, b = gen.blob(rng, (spec, dist), consistent_angle=True)
        self.cosmo = gen.cosmology(rng)
        self.par["cosmo"] = str(self.cosmo)
        self.spec, self.dist = spec, dist
        self.theta = None
        self.ssa = self.name.endswith("_ssa")
        self.size = int(rng.choice([200, 90, 141]))
        self.par["z"] = float(b.z)
        self.par["d_L"] = self.d_L()
        self.mu_size, self.phi_size = int(rng.integers(15, 40)), int(rng.integers(10, 25))
        if self.ec:
            self.tname = self.name[3:]
            self.tpar, self.target = gen.target(rng, self.tname, self.par["z"])
            self.r = gen.distance(rng, self.tname, self.tpar)

    def d_L(self, z=None):
        return ref.d_L_cm(self.par["z"] if z is None else z, self.cosmo)

    def dist_scaled(self, f):
        if self.spec["type"] == "Interpolated":
            return None
        from astropy.constants import m_p
        s = dict(self.spec, k=self.spec["k"] * f)
        return gen.build(s, **({"mass": m_p} if self.name == "psynch" else {}))

    def blob(self, dist=None, **over):
        from agnpy.emission_regions import Blob
        from astropy.constants import m_p
        p = dict(self.par, **over)
        n = dist if dist is not None else self.dist
        kw = dict(R_b=p["R_b"] * u.cm, z=p["z"], delta_D=p["delta"], Gamma=p["Gamma"], B=p["B"] * u.G, gamma_e_size=self.size, xi=p["xi"], cosmology=self.cosmo)
        if self.name == "psynch":
            if dist is None:
                n = gen.build(self.spec, mass=m_p)
            return Blob(n_e=gen.build(dict(self.spec)), n_p=n, gamma_p_size=self.size, **kw)
        return Blob(n_e=n, **kw)

    def process(self, blob=None, target=None, r=None):
        from agnpy.synchrotron import Synchrotron, ProtonSynchrotron
        from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
        b = blob or self.blob()
        if self.name == "psynch":
            return ProtonSynchrotron(b, integrator=self.integ)
        if self.name.startswith("synch"):
            return Synchrotron(b, ssa=self.ssa, integrator=self.integ)
        if self.name.startswith("ssc"):
            return SynchrotronSelfCompton(b, ssa=self.ssa, integrator=self.integ)
        rq = None if self.tname == "cmb" else (r or self.r) * u.cm
        e = ExternalCompton(b, target or self.target, r=rq, integrator=self.integ)
        e.set_mu(self.mu_size)
        e.set_phi(self.phi_size)
        return e

    def nus(self, rng, n=None):
        """frequencies (Hz, observed) where the process emits"""
        n = n or int(rng.integers(1, 7))
        s, p = self.spec, self.par
        z1 = p["delta"] / (1 + p["z"])
        m = 1836.15 if self.name == "psynch" else 1.0
        lo, hi = (3.7e6 * p["B"] * g**2 / m * z1 for g in (s["gamma_min"], s["gamma_max"]))
        if self.name.startswith("synch") or self.name == "psynch":
            a, b = lo / 1e2, hi * 10
        elif self.name.startswith("ssc"):
            a, b = lo * 0.1, hi * s["gamma_max"] ** 2
            b = min(b, s["gamma_max"] * z1 * 1.2e20 * 3)
        else:
            a, b = 1e14, s["gamma_max"] * p["delta"] * 1.2e20 * 3
        a, b = np.log10(max(a, 1e3)), np.log10(max(b, 1e4))
        if b <= a:
            b = a + 2
        return 10 ** rng.uniform(a, b, n)

    def show(self):
        d = {"process": self.name, "integ": self.iname, "par": gen.pub(self.par), "size": self.size}
        if self.ec:
            d.update(tpar=self.tpar, r=self.r, sizes=[self.mu_size, self.phi_size])
        return d
