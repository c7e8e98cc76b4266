"""C17: thermal SEDs of the accretion disk and of the dust torus."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C17"
RULE = "distinct (disk or torus, redshift, frequencies) with a non-null SED"
ASSUMPTIONS = ["default cosmology", "disk: same grids as the product (100 radii, 100 frequencies for the normalisation)",
               "the luminosity recovered on an independent grid within 5% for the disk (accuracy of its normalisation grid), 0.1% for the torus"]
MONITORS = ["disk", "disk_bare", "disk_luminosity", "torus", "torus_bare", "torus_luminosity", "wien", "linear", "batch"]


def F_disk(nu, z, M, mdot, Rin, Rout, d_L, mu_s=1):
    R = np.linspace(Rin, Rout, 100)
    T = ref.disk_T(R, M, mdot, Rin)
    T[0] = 0
    with np.errstate(all="ignore"):
        I = np.nan_to_num(ref.planck((nu * (1 + z))[None, :], T[:, None]))
    return mu_s * nu * 2 * np.pi * ref.trapz(R[:, None] / d_L**2 * I, R)


NORM_NU = np.logspace(3, 21, 100)


def disk(rng, mon, tier):
    from agnpy.targets import SSDisk
    mon.floor = 1e-100
    d = gen.disk_par(rng)
    x = gen.build_disk(rng, d)
    z = float(rng.choice([gen.logu(rng, 1e-3, 0.1), rng.uniform(0.05, 3.0)]))
    d_L = ref.d_L_cm(z)
    nu = gen.freqs(rng, 11, 17.5)
    nq = gen.nu_q(rng, nu)
    mu_s = float(rng.choice([1.0, rng.uniform(0.2, 1)]))
    mon.case(d=d, z=z, nu=list(nu), mu_s=mu_s)
    mdot = d["L"] / d["eta"] / ref.C**2
    a = (d["M"], mdot, d["Rin"], d["Rout"], d_L)
    shape = F_disk(nu, z, *a)
    LL = 2 * 4 * np.pi * d_L**2 * ref.trapz(F_disk(NORM_NU, z, *a) / NORM_NU, NORM_NU)
    want = shape * d["L"] / LL
    got = mon.val("sed", x.sed_flux(nq, z, mu_s) if rng.random() < 0.5 else x.sed_flux(nq, z), "erg cm-2 s-1")
    mon.close("disk", got, want, 1e-6)
    # a single frequency and the static evaluation
    i = int(rng.integers(nu.size))
    mon.close("batch", np.ravel(mon.val("sed", x.sed_flux(nq[i:i + 1], z), "erg cm-2 s-1")), got[i:i + 1], 1e-9)
    bare = mon.val("sed", SSDisk.evaluate_multi_T_bb_sed(nq, z, x.M_BH, x.m_dot, x.R_in, x.R_out, (d_L * u.cm).to(str(rng.choice(["cm", "Mpc"]))), mu_s), "erg cm-2 s-1")
    want = mu_s * shape * (1 + z)
    with np.errstate(all="ignore"):
        e1, e2 = np.abs(bare - want), np.abs(bare - mu_s * shape)
    mon.known("disk-redshift", "disk_bare", e1 <= 1e-6 * want + 1e-100, e2 <= 1e-6 * want + 1e-100, got=list(bare), want=list(want), z=z)
    # energy budget, on another grid: the two faces radiate L_disk
    fine = np.logspace(9, 19, 400)
    f = mon.val("sed", x.sed_flux(fine * u.Hz, z), "erg cm-2 s-1")
    mon.close("disk_luminosity", np.asarray(2 * 4 * np.pi * d_L**2 * ref.trapz(f / fine, fine)), np.asarray(d["L"]), 0.05)
    if rng.random() < 0.3:
        k = float(rng.uniform(0.1, 10))
        y = SSDisk(x.M_BH, x.L_disk, x.eta, x.R_in, x.R_out)
        b = mon.val("sed", SSDisk.evaluate_multi_T_bb_norm_sed(nq, z, k * x.L_disk, x.M_BH, x.m_dot, x.R_in, x.R_out, d_L * u.cm), "erg cm-2 s-1")
        mon.close("linear", b, k * got, 1e-7)


def torus(rng, mon, tier):
    from agnpy.targets import RingDustTorus
    mon.floor = 1e-100
    d = gen.dt_par(rng)
    x = gen.build_dt(rng, d)
    z = float(rng.choice([gen.logu(rng, 1e-3, 0.1), rng.uniform(0.05, 3.0)]))
    d_L = ref.d_L_cm(z)
    nu = 10 ** rng.uniform(10, 14.8, int(rng.integers(1, 9)))
    nq = gen.nu_q(rng, nu)
    mon.case(d=d, z=z, nu=list(nu))
    T = d["T"]
    I = ref.planck(nu * (1 + z), T)
    dq = (d_L * u.cm).to(str(rng.choice(["cm", "Mpc"])))
    bare = mon.val("sed", RingDustTorus.evaluate_bb_sed(nq, z, x.T_dt, x.R_dt, dq), "erg cm-2 s-1")
    want = np.pi * (d["R"] / d_L) ** 2 * nu * I * (1 + z)

    def chk(name, got, want):
        mon.known("torus-redshift", name, np.abs(got - want) <= 1e-6 * want + 1e-100, np.abs(got - want / (1 + z)) <= 1e-6 * want + 1e-100,
                  got=list(np.atleast_1d(got)), want=list(np.atleast_1d(want)), z=z)

    chk("torus_bare", bare, want)
    L = d["xi"] * d["L"]
    want = L / (4 * d_L**2 * ref.SIGMA_SB * T**4) * nu * I * (1 + z)
    got = mon.val("sed", x.sed_flux(nq, z), "erg cm-2 s-1")
    chk("torus", got, want)
    i = int(rng.integers(nu.size))
    mon.close("batch", np.ravel(mon.val("sed", x.sed_flux(nq[i], z), "erg cm-2 s-1")), got[i:i + 1], 1e-9)
    fine = np.logspace(9, 16, 600)
    f = mon.val("sed", x.sed_flux(fine * u.Hz, z), "erg cm-2 s-1")
    tot = 4 * np.pi * d_L**2 * ref.trapz(f / fine, fine)
    mon.known("torus-redshift", "torus_luminosity", abs(tot / L - 1) < 1e-3, abs(tot * (1 + z) / L - 1) < 1e-3, got=tot, want=L, z=z)
    # nu F_nu of a black body peaks at 3.92 k T / h in the frame of the source
    pk = fine[np.argmax(f)] * (1 + z)
    mon.ok("wien", abs(pk / (3.9207 * ref.KB * T / ref.H) - 1) < 0.03, got=pk, want=3.9207 * ref.KB * T / ref.H)
    k = float(rng.uniform(0.1, 10))
    b = mon.val("sed", RingDustTorus(k * x.L_disk, x.xi_dt, x.T_dt, x.R_dt).sed_flux(nq, z), "erg cm-2 s-1")
    mon.close("linear", b, k * got, 1e-9)


KINDS = {"disk": (disk, 360, 4000), "torus": (torus, 360, 5000)}
