"""workloads and reference solutions of the time evolution of the electrons

d n/dt + d(f n)/dg = r n + Q  solved along its characteristics
    dg/dt = f(g),   dn/dt = (r(g) - f'(g)) n + Q(g)
"""
import numpy as np
import astropy.units as u
from scipy.integrate import solve_ivp
from . import gen, ref

MEC2 = ref.ME * ref.C**2
GMAX = {"synch": 1}


class Term:
    """one energy change: f(g) = sum of a g^m; fn is what the product is given"""

    def __init__(self, name, a, m, fn=None):
        self.name, self.a, self.m = name, float(a), float(m)
        self.fn = fn or (lambda p, a=self.a, m=self.m: (a * np.asarray(p.gamma, float) ** m * MEC2) * u.Unit("erg s-1"))

    def f(self, g):
        return self.a * g**self.m

    def df(self, g):
        return self.a * self.m * g ** (self.m - 1)


class Problem:
    """random evolution problem; all the numbers in cgs"""

    def __init__(self, rng, gmin=(5, 300), gmax=(1e3, 1e6), energy=None, rel=None, absl=None, x=(0.1, 2.0), size=(12, 40)):
        from agnpy.emission_regions import Blob
        self.rng = rng
        self.size = int(rng.integers(*size))
        self.spec = gen.spectrum(rng, gmin=gmin, gmax=gmax, k=(1e-3, 1e3), edge=False)
        lo, hi = self.spec["gamma_min"], self.spec["gamma_max"]
        self.B = gen.logu(rng, 1e-3, 10)
        self.blob = Blob(R_b=gen.logu(rng, 1e14, 1e17) * u.cm, n_e=gen.build(self.spec), B=self.B * u.G, gamma_e_size=self.size)
        kinds = energy if energy is not None else list(rng.choice(["synch", "fermi", "adiabatic", "power", "gain"], int(rng.integers(0, 3)), replace=False))
        self.b = 4 / 3 * ref.SIGMA_T * ref.C * self.B**2 / (8 * np.pi) / MEC2
        tau = 1 / (self.b * hi) * gen.logu(rng, 0.3, 30) if "synch" in kinds else gen.logu(rng, 1e2, 1e7)
        self.terms = [self.term(k, tau, hi) for k in kinds]
        self.tau = min([tau] + ([1 / (self.b * hi)] if "synch" in kinds else []))
        self.r = None
        if rel if rel is not None else rng.random() < 0.5:
            s, g0 = float(rng.choice([0, 0, 0.5, -0.5])), np.sqrt(lo * hi)
            sgn = -1 if rng.random() < 0.7 else 1
            a = sgn / (self.tau * gen.logu(rng, 0.5, 10)) / max((lo / g0) ** s, (hi / g0) ** s)
            self.r = lambda g, a=a, s=s, g0=g0: a * (g / g0) ** s
            self.r_show = (a, s)
        self.Q = None
        if absl if absl is not None else rng.random() < 0.5:
            s = float(rng.uniform(0, 3))
            q0 = gen.logu(rng, 0.01, 3) * float(np.max(ref.n_of(self.spec, self.grid()) * self.grid() ** s)) / self.tau
            self.Q = lambda g, q0=q0, s=s: q0 * g**-s
            self.Q_show = (q0, s)
        self.T = float(rng.uniform(*x)) * self.tau
        fm = np.max(np.abs(self.f(self.grid()) / self.grid()))
        if fm * self.T > 2.5:  # keep the number of steps at bay
            self.T = 2.5 / fm

    def grid(self):
        return np.logspace(np.log10(self.spec["gamma_min"]), np.log10(self.spec["gamma_max"]), self.size)

    def term(self, kind, tau, hi):
        from agnpy.time_evolution import synchrotron_loss, fermi_acceleration
        from agnpy.synchrotron import Synchrotron
        rng = self.rng
        if kind == "synch":
            return Term("synch", -self.b, 2, synchrotron_loss(Synchrotron(self.blob)))
        if kind == "fermi":
            return Term("fermi", 1 / tau, 1, fermi_acceleration(gen_time(rng, tau)))
        t = tau * gen.logu(rng, 0.7, 5)
        if kind == "adiabatic":
            return Term("adiabatic", -1 / t, 1)
        if kind == "steep":
            m = float(rng.uniform(1.7, 3.2))
            return Term(kind, -1 / tau / hi ** (m - 1), m)
        m = float(rng.uniform(0.6, 1.6 if kind == "power" else 1.0))  # a gain with m > 1 diverges in a finite time
        lo = self.spec["gamma_min"]
        big = max(lo ** (m - 1), hi ** (m - 1))
        return Term(kind, (-1 if kind == "power" else 1) / t / big, m)

    def f(self, g):
        return sum([t.f(g) for t in self.terms], np.zeros_like(g))

    def df(self, g):
        return sum([t.df(g) for t in self.terms], np.zeros_like(g))

    def src(self, g, n):
        return (self.r(g) * n if self.r else 0 * n) + (self.Q(g) if self.Q else 0 * n)

    def show(self):
        return dict(spec=gen.show(self.spec), B=self.B, terms=[(t.name, t.a, t.m) for t in self.terms], T=self.T, size=self.size,
                    rel=getattr(self, "r_show", None), abs=getattr(self, "Q_show", None))

    # ---- what the product is given ----------------------------------------
    def rel_fn(self):
        return (lambda p: self.r(np.asarray(p.gamma, float)) * u.Unit("s-1")) if self.r else None

    def abs_fn(self):
        return (lambda p: self.Q(np.asarray(p.gamma, float)) * u.Unit("cm-3 s-1")) if self.Q else None

    def functions(self, form="dict"):
        if form == "list":
            e = [t.fn for t in self.terms]
        elif form == "single" and len(self.terms) == 1:
            e = self.terms[0].fn
        else:
            e = {t.name: t.fn for t in self.terms}
            form = "dict"
        r, q = self.rel_fn(), self.abs_fn()
        if form == "dict":
            r, q = ({"rel": r} if r else None), ({"abs": q} if q else None)
        elif form == "list":
            r, q = ([r] if r else None), ([q] if q else None)
        return dict(energy_change_functions=e, rel_injection_functions=r, abs_injection_functions=q)

    def limits(self, thr):
        """thresholds so that the steps are driven by thr for every kind of change"""
        n = ref.n_of(self.spec, self.grid())
        inj = 1e30
        return dict(max_energy_change_per_interval=thr, max_density_change_per_interval=10 * thr, max_injection_per_interval=inj), n

    # ---- reference -----------------------------------------------------------
    def exact(self, g0, n0, T, t0=None):
        """solution at T along the characteristics starting from (g0, n0) at t0"""
        g0, n0 = np.asarray(g0, float), np.asarray(n0, float)
        out = np.empty((2, g0.size))
        for i in range(g0.size):
            sc = max(abs(n0[i]), abs(float(self.Q(g0[i:i + 1])[0])) * T if self.Q else 0, 1e-290)

            def rhs(t, y):
                g = np.exp(y[0:1])
                n = y[1] * sc
                return [float(self.f(g)[0] / g[0]), float((-self.df(g)[0]) * y[1] + self.src(g, np.array([n]))[0] / sc)]
            t1 = 0.0 if t0 is None else float(t0[i])
            if T - t1 <= 0:
                out[:, i] = g0[i], n0[i]
                continue
            s = solve_ivp(rhs, (t1, T), [np.log(g0[i]), n0[i] / sc], rtol=1e-8, atol=1e-11, method="LSODA")
            out[:, i] = np.exp(s.y[0, -1]), s.y[1, -1] * sc
        return out

    def scheme(self, g0, n0, dts, method="euler"):
        """the same discrete scheme with infinitesimally narrow bins: an estimate
        of the error of a run with these time steps (never a verdict on its own)"""
        g, n = np.array(g0, float), np.array(n0, float)
        for dt in dts:
            f, d = self.f(g), self.df(g)
            src = self.src(g, n)
            gE = g + f * dt
            if method == "heun":
                f2, d2 = self.f(gE), self.df(gE) * (1 + d * dt)
                n = n / (1 + (d + d2) / 2 * dt) + src * dt
                g = g + (f + f2) / 2 * dt
            else:
                n = n / (1 + d * dt) + src * dt
                g = gE
        return g, n

    def per_bin(self, g0, n0, T, thr, thr_n):
        """the scheme with, for every bin, its own longest steps"""
        g, n, t = np.array(g0, float), np.array(n0, float), np.zeros(len(g0))
        for _ in range(200000):
            f, d = self.f(g), self.df(g)
            with np.errstate(all="ignore"):
                dt = np.minimum(np.where(f != 0, thr * g / np.abs(f), np.inf), np.where(d != 0, thr_n / np.abs(d) / (1 + thr_n), np.inf))
                if self.r:
                    r = self.r(g)
                    dt = np.minimum(dt, np.where(r < 0, -0.5 / r, np.inf))
            dt = np.minimum(dt, T - t)
            if np.all(dt <= 0):
                break
            n = n / (1 + d * dt) + self.src(g, n) * dt
            g = g + f * dt
            t = t + dt
        return g, n


def gen_time(rng, sec):
    return (sec * u.s).to(str(rng.choice(["s", "h", "d", "min", "yr"])))


class Recorder:
    """keeps what the callback was given and an independent copy of it, taken at once"""

    def __init__(self, blob=None):
        self.raw, self.copy, self.blob, self.ne, self.nev = [], [], blob, [], []

    def __call__(self, r):
        self.raw.append(r)
        self.copy.append(dict(
            t=float(r.total_time.to_value("s")), g=np.array(r.gamma, copy=True), n=np.array(r.density.to_value("cm-3"), copy=True),
            sub=np.array(r.density_subgroups, copy=True),
            en={k: np.array(v.to_value("erg s-1"), copy=True) for k, v in r.en_chg_rates.items()},
            rel={k: np.array(v.to_value("s-1"), copy=True) for k, v in r.rel_inj_rates.items()},
            ab={k: np.array(v.to_value("cm-3 s-1"), copy=True) for k, v in r.abs_inj_rates.items()}))
        if self.blob is not None:
            self.ne.append(self.blob.n_e)
            self.nev.append(np.array(self.blob.n_e(r.gamma).to_value("cm-3"), copy=True))
