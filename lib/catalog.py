"""A world of agnpy objects sharing one blob, and every evaluation they offer.

The parameters are plain cgs numbers, the units in which the constructors get
them are drawn (or cgs), so that the same world can be built twice."""
import numpy as np
import astropy.units as u
from astropy.constants import m_p
from . import gen, ref

LEN = ["cm", "m", "km", "pc", "lyr", "AU"]
UNITS = {"len": LEN, "B": ["G", "mG", "uG", "T"], "lum": ["erg s-1", "W", "solLum", "GeV s-1"], "mass": ["g", "kg", "solMass"], "dens": ["cm-3", "m-3", "pc-3"],
         "freq": ["Hz", "GHz", "THz", "s-1", "min-1"], "temp": ["K", "mK"], "e": ["erg", "J", "eV"]}
CGS = {"len": "cm", "B": "G", "lum": "erg s-1", "mass": "g", "dens": "cm-3", "freq": "Hz", "temp": "K", "e": "erg"}


# far below anything that is not the rounding of a null contribution (edge of the disk)
FLOOR = {"erg cm-2 s-1": 1e-50, "erg s-1": 1e6, "eV-1 cm-2 s-1": 1e-90}


class World:
    def __init__(self, rng, p_interp=0.1):
        self.tab = None
        if rng.random() < p_interp:
            self.table(*gen.interp_spec(rng))
        else:
            self.spec = gen.spectrum(rng, gmin=(1.0, 1e3), gmax=(1e4, 1e7), edge=False)
        self.pspec = gen.spectrum(rng, types=["PowerLaw", "BrokenPowerLaw"], gmin=(1.0, 10), gmax=(1e4, 1e7), edge=False)
        G = gen.logu(rng, 1.5, 40)
        be = np.sqrt(1 - 1 / G**2)
        self.p = dict(R_b=gen.logu(rng, 1e14, 1e18), z=float(rng.uniform(0.01, 2)), Gamma=G, delta=float(1 / (G * (1 - be * (1 - gen.logu(rng, 1e-6, 0.05))))),
                      B=gen.logu(rng, 1e-3, 1e2), xi=gen.logu(rng, 1e-6, 1))
        self.disk = gen.disk_par(rng)
        rg = ref.R_g(self.disk["M"])
        self.disk["Rin"], self.disk["Rout"] = self.disk["Rin_t"] * rg, self.disk["Rout_t"] * rg
        self.blr, self.dt = gen.blr_par(rng), gen.dt_par(rng)
        if self.dt["R"] is None:
            self.dt["R"] = 3.5e18 * np.sqrt(self.dt["L"] / 1e45) * (self.dt["T"] / 1e3) ** -2.6
        self.ps = {"L0": gen.logu(rng, 1e40, 1e46), "eps0": gen.logu(rng, 1e-8, 1e-3)}
        self.r = {"disk": gen.distance(rng, "disk", self.disk), "blr": self.blr["R"] * float(rng.choice([0.3, 0.8, 1.3, 5])) * float(rng.uniform(0.9, 1.1)),
                  "dt": gen.distance(rng, "dt", self.dt), "ps": gen.logu(rng, 1e17, 1e20)}
        self.mu_s = float(rng.choice([1.0, np.cos(gen.logu(rng, 0.01, 0.5))]))
        self.integ, self.iname = gen.integrator(rng)
        self.size = int(rng.choice([200, 77, 120]))
        self.ssa = bool(rng.random() < 0.5)
        self.sizes = (int(rng.integers(12, 30)), int(rng.integers(8, 20)))
        self.za = self.p["z"]  # redshift of the absorbers
        self.l_size = 15
        self.ebl = str(rng.choice(["franceschini_2008", "franceschini_2017", "dominguez_2011", "finke_2010", "saldana_lopez_2021"]))

    def table(self, spec, g, n):
        """the electrons are interpolated from a table"""
        self.spec, self.tab = dict(spec), (np.array(g, float), np.array(n, float))

    def electrons(self, unit="cm-3"):
        if self.tab is not None:
            g, n = self.tab
            from agnpy.spectra import InterpolatedDistribution
            return InterpolatedDistribution(g.copy(), (n * u.Unit("cm-3")).to("cm-3"), norm=self.spec["norm"], integrator=self.integ, interpolator=self.spec["itp"])
        return gen.build(self.spec, integrator=self.integ, unit=unit)

    def show(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ("integ", "tab")}
        d["spec"] = gen.show(self.spec)
        return d

    def build(self, rng=None, eps=0.0):
        """objects of the world; with rng every dimensional parameter gets a drawn unit; with eps
        all of them are changed by that relative amount (alternating signs)"""
        from agnpy.emission_regions import Blob
        from agnpy.synchrotron import Synchrotron, ProtonSynchrotron
        from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
        from agnpy.absorption import Absorption
        from agnpy.constraints import SpectralConstraints
        import agnpy.targets as T
        self.units = []

        def q(v, kind):
            un = CGS[kind] if rng is None else str(rng.choice(UNITS[kind]))
            v = v * (1 + eps * (-1) ** len(self.units))
            self.units.append(un)
            return (v * u.Unit(CGS[kind])).to(un)

        p, o = self.p, {}
        sp = lambda s, **kw: gen.build(s, unit=(str(rng.choice(UNITS["dens"])) if rng is not None else "cm-3"), **kw)
        o["n_e"] = self.electrons(str(rng.choice(UNITS["dens"])) if rng is not None else "cm-3")
        o["n_p"] = sp(self.pspec, mass=m_p, integrator=self.integ)
        o["blob"] = b = Blob(R_b=q(p["R_b"], "len"), z=p["z"], delta_D=p["delta"], Gamma=p["Gamma"], B=q(p["B"], "B"), n_e=o["n_e"], n_p=o["n_p"], xi=p["xi"],
                             gamma_e_size=self.size, gamma_p_size=self.size)
        o["cmb"] = T.CMB(p["z"])
        o["ps"] = T.PointSourceBehindJet(q(self.ps["L0"], "lum"), self.ps["eps0"])
        d = self.disk
        o["disk"] = T.SSDisk(q(d["M"], "mass"), q(d["L"], "lum"), d["eta"], q(d["Rin"], "len"), q(d["Rout"], "len"))
        o["blr"] = T.SphericalShellBLR(q(self.blr["L"], "lum"), self.blr["xi"], self.blr["line"], q(self.blr["R"], "len"))
        o["dt"] = T.RingDustTorus(q(self.dt["L"], "lum"), self.dt["xi"], q(self.dt["T"], "temp"), q(self.dt["R"], "len"))
        o["synch"] = Synchrotron(b, ssa=self.ssa, integrator=self.integ)
        o["psynch"] = ProtonSynchrotron(b, integrator=self.integ)
        o["ssc"] = SynchrotronSelfCompton(b, ssa=self.ssa, integrator=self.integ)
        for t in ("cmb", "ps", "disk", "blr", "dt"):
            e = ExternalCompton(b, o[t], r=None if t == "cmb" else q(self.r[t], "len"), integrator=self.integ)
            e.set_mu(self.sizes[0])
            e.set_phi(self.sizes[1])
            o["ec_" + t] = e
        for t in ("ps", "disk", "blr", "dt"):
            a = Absorption(o[t], r=q(self.r[t], "len"), z=self.za, mu_s=1.0 if t == "disk" else self.mu_s)
            a.set_mu(self.sizes[0])
            a.set_phi(self.sizes[1])
            a.set_l(self.l_size)
            o["abs_" + t] = a
        o["abs_syn"] = Absorption(b)
        o["sc"] = SpectralConstraints(b)
        return o

    # ------------------------------------------------------------ evaluations
    def calls(self, o, rng=None):
        """{label: (function of one array argument, kind of the argument, output unit)}"""
        z, b = self.p["z"], o["blob"]
        c = {
            "n_e": (lambda g: o["n_e"](g), "gamma", "cm-3"),
            "n_e_ssa": (lambda g: o["n_e"].SSA_integrand(g), "gamma", "cm-3"),
            "n_p": (lambda g: o["n_p"](g), "gamma", "cm-3"),
            "synch_delta": (lambda n: o["synch"].sed_flux_delta_approx(n), "nu", "erg cm-2 s-1"),
            "loss_synch": (lambda g: o["synch"].electron_energy_loss_rate(g), "gamma", "erg s-1"),
            "loss_ssc": (lambda g: o["ssc"].electron_energy_loss_rate(g), "gamma", "erg s-1"),
            "loss_ssc_T": (lambda g: o["ssc"].electron_energy_loss_rate_thomson(g), "gamma", "erg s-1"),
            "disk_sed": (lambda n: o["disk"].sed_flux(n, z), "nuth", "erg cm-2 s-1"),
            "dt_sed": (lambda n: o["dt"].sed_flux(n, z), "nuth", "erg cm-2 s-1"),
            "disk_T": (lambda r: o["disk"].T(r), "rdisk", "K"),
            "abs_hom": (lambda n: o["abs_syn"].absorption_homogeneous(n), "nutev", None),
            "ebl": (lambda n: self.ebl_obj().absorption(n, min(z, 2.0)), "nuebl", None),
        }
        for t in ("synch", "psynch", "ssc", "ec_cmb", "ec_ps", "ec_disk", "ec_blr", "ec_dt"):
            c[t] = (lambda n, t=t: o[t].sed_flux(n), "nu_" + t, "erg cm-2 s-1")
            c[t + "_lum"] = (lambda n, t=t: o[t].sed_luminosity(n), "nu_" + t, "erg s-1")
            c[t + "_diff"] = (lambda n, t=t: o[t].diff_energy_flux(n), "nu_" + t, "eV-1 cm-2 s-1")
        for t in ("ps", "disk", "blr", "dt"):
            if t != "cmb":
                c["u_" + t] = (lambda r, t=t: o[t].u(r), "r" + t, "erg cm-3")
                c["ub_" + t] = (lambda r, t=t: o[t].u(r, blob=b), "r" + t, "erg cm-3")
            c["tau_" + t] = (lambda n, t=t: o["abs_" + t].tau(n), "nutev", None)
            c["abs_" + t] = (lambda n, t=t: o["abs_" + t].absorption(n), "nutev", None)
        c["tau_syn"] = (lambda n: o["abs_syn"].tau(n), "nutev", None)
        return c

    _ebl = {}

    def ebl_obj(self):
        from agnpy.absorption import EBL
        if self.ebl not in self._ebl:
            self._ebl[self.ebl] = EBL(self.ebl)
        return self._ebl[self.ebl]

    def scalars(self, o):
        """{label: (thunk, unit)} of the quantities without an argument"""
        b, s, d = o["blob"], o["sc"], o["disk"]
        c = {}
        for n, un in (("V_b", "cm3"), ("t_var", "s"), ("d_L", "cm"), ("theta_s", "deg"), ("mu_s", None), ("Beta", None), ("N_e_tot", None), ("n_e_tot", "cm-3"),
                      ("u_e", "erg cm-3"), ("W_e", "erg"), ("N_p_tot", None), ("n_p_tot", "cm-3"), ("u_p", "erg cm-3"), ("W_p", "erg"), ("U_B", "erg cm-3"), ("u_ph_synch", "erg cm-3"),
                      ("k_eq", None), ("P_jet_ke", "erg s-1"), ("P_jet_B", "erg s-1")):
            c["blob." + n] = (lambda n=n: getattr(b, n), un)
        for n in ("gamma_max_larmor", "gamma_max_ballistic", "gamma_max_synch", "gamma_max_SSC", "gamma_break_synch", "gamma_break_SSC"):
            c["sc." + n] = (lambda n=n: getattr(s, n), None)
        rdt = self.r["dt"] * u.cm
        c["sc.EC_max"] = (lambda: s.gamma_max_EC_DT(o["dt"], rdt), None)
        c["sc.EC_break"] = (lambda: s.gamma_break_EC_DT(o["dt"], rdt), None)
        for n, un in (("l_Edd", None), ("m_dot", "g s-1"), ("R_g", "cm"), ("L_Edd", "erg s-1"), ("R_in_tilde", None), ("R_out_tilde", None)):
            c["disk." + n] = (lambda n=n: getattr(d, n), un)
        c["dt.epsilon_dt"] = (lambda: o["dt"].epsilon_dt, None)
        c["blr.epsilon_line"] = (lambda: o["blr"].epsilon_line, None)
        c["cmb.u_0"] = (lambda: o["cmb"].u_0, "erg cm-3")
        c["n_e.integrate"] = (lambda: o["n_e"].integrate(), "cm-3")
        return c

    def arg(self, rng, kind, n):
        """n values of an argument, plain numbers in cgs (Hz for the frequencies)"""
        s, p = self.spec, self.p
        dz = p["delta"] / (1 + p["z"])
        L = lambda a, b: 10 ** rng.uniform(np.log10(a), np.log10(max(b, 30 * a)), n)
        if kind == "gamma":
            g = L(s["gamma_min"] / 2, s["gamma_max"] * 2)
            return np.clip(g, 1.0, None)
        if kind == "nu" or kind == "nu_synch":
            return L(3.7e6 * p["B"] * s["gamma_min"] ** 2 * dz / 10, 3.7e6 * p["B"] * s["gamma_max"] ** 2 * dz * 10)
        if kind == "nu_psynch":
            return L(1e10, 2e3 * p["B"] * self.pspec["gamma_max"] ** 2 * dz * 10)
        if kind == "nu_ssc":
            return L(1e12, s["gamma_max"] * dz * 2.5e20)
        if kind.startswith("nu_ec"):
            return L(1e16, s["gamma_max"] * p["delta"] * 2.5e20)
        if kind == "nuth":
            return L(1e11, 1e17)
        if kind == "nutev":
            return L(1e24, 1e29)
        if kind == "nuebl":
            return L(2.5e24, 2.4e27)
        if kind == "rdisk":
            return L(self.disk["Rin"] * 1.01, self.disk["Rout"])
        if kind == "rdisk_u":
            return L(self.disk["Rin"], self.disk["Rout"] * 100)
        if kind.startswith("r"):
            R = {"rblr": self.blr["R"], "rdt": self.dt["R"], "rps": 1e18, "rdisk": 1e17}[kind]
            return R * L(1e-2, 30)
        raise KeyError(kind)

    def quantity(self, kind, v, rng=None):
        if kind == "gamma":
            return np.array(v, float)
        k = "len" if kind.startswith("r") else "freq"
        un = CGS[k] if rng is None else str(rng.choice(UNITS[k]))
        return (v * u.Unit(CGS[k])).to(un)
