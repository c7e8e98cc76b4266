"""C35: conversions between frequency, photon energy, magnetic field and length units."""
import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p
from lib import gen, ref

PID = "C35"
RULE = "distinct quantities converted"
ASSUMPTIONS = ["constants of astropy and of the reference agree to 1e-6"]
MONITORS = ["to_epsilon", "from_epsilon", "round_trip", "shape", "boost", "boost_chain", "default_mass", "mass_ratio", "B", "B_round_trip", "B_energy", "R_g", "constants",
            "refused", "input_kept", "linear"]
GAUSS = "cm(-1/2) g(1/2) s-1"


def shaped(rng, v):
    v = np.asarray(v)
    k = int(rng.integers(5))
    return [v, v[0], v.reshape(2, -1), v[::-1], np.append(v, v[:2])][k]


def freq(rng, mon, tier):
    from agnpy.utils import conversion as cv
    m, M = (ref.ME, m_e) if rng.random() < 0.5 else (ref.MP, m_p)
    nu = shaped(rng, 10 ** rng.uniform(5, 32, 6))
    un = str(rng.choice(["Hz", "GHz", "MHz", "1/s", "1/h"]))
    q = (nu * u.Hz).to(un)
    keep = q.copy()
    mon.case(un=un, m=m, nu=list(np.ravel(nu)), shape=list(np.shape(nu)))
    mon.feature(un, "proton" if M is m_p else "electron", f"ndim{np.ndim(nu)}")
    eq = cv.epsilon_equivalency(M)
    eps = q.to("", equivalencies=eq)
    want = ref.H * nu / (m * ref.C**2)
    mon.close("to_epsilon", np.asarray(eps.value), want, 1e-6)
    mon.ok("shape", np.shape(eps) == np.shape(nu) and np.shape(cv.nu_to_epsilon_prime(q)) == np.shape(nu))
    back = (want * u.Unit("")).to(un, equivalencies=eq)
    mon.close("from_epsilon", np.asarray(back.to_value("Hz")), nu, 1e-6)
    mon.close("round_trip", np.asarray(eps.to_value("Hz", equivalencies=eq)), nu, 1e-12)
    mon.close("round_trip", np.asarray((want * u.Unit("")).to("Hz", equivalencies=eq).to_value("", equivalencies=eq)), want, 1e-12)
    mon.ok("input_kept", np.array_equal(keep.value, q.value) and q.unit == keep.unit)
    # through another frame
    z, d = float(rng.choice([0, rng.uniform(0, 8)])), gen.logu(rng, 0.05, 200)
    e = cv.nu_to_epsilon_prime(q, z, d, M)
    mon.close("boost", mon.val("epsilon", e, None), want * (1 + z) / d, 1e-6)
    mon.close("boost", mon.val("epsilon", cv.nu_to_epsilon_prime(nu=q, z=z, delta_D=d, m=M), None), mon.val("epsilon", e, None), 1e-15)
    mon.close("boost", mon.val("epsilon", cv.nu_to_epsilon_prime(q, z=z, m=M), None), want * (1 + z), 1e-6)
    mon.close("boost", mon.val("epsilon", cv.nu_to_epsilon_prime(q, delta_D=d, m=M), None), want / d, 1e-6)
    mon.close("boost_chain", mon.val("epsilon", cv.nu_to_epsilon_prime(q * d / (1 + z), z, d, M), None), want, 1e-6)
    mon.close("default_mass", mon.val("epsilon", cv.nu_to_epsilon_prime(q, z, d), None), ref.H * nu / ref.MEC2 * (1 + z) / d, 1e-6)
    mon.close("default_mass", np.asarray(q.to_value("", equivalencies=cv.epsilon_equivalency())), ref.H * nu / ref.MEC2, 1e-6)
    mon.close("mass_ratio", np.asarray((cv.nu_to_epsilon_prime(q, z, d, m_e) / cv.nu_to_epsilon_prime(q, z, d, m_p)).to_value("")), np.full(np.shape(nu), ref.MP / ref.ME), 1e-6)
    k = gen.logu(rng, 1e-6, 1e6)
    mon.close("linear", np.asarray((cv.nu_to_epsilon_prime(k * q, z, d, M) / e).to_value("")), np.full(np.shape(nu), k), 1e-12)
    bad = [1 * u.kg, 2 * m_e, m_p * 1.0001, m_p - m_e][int(rng.integers(4))]
    mon.raises("refused", ValueError, lambda: cv.epsilon_equivalency(bad))
    mon.raises("refused", ValueError, lambda: cv.nu_to_epsilon_prime(q, z, d, bad))
    mon.raises("refused", u.UnitsError, lambda: cv.nu_to_epsilon_prime([1, 2] * u.K, z, d, M))


def field(rng, mon, tier):
    from agnpy.utils import conversion as cv
    B = shaped(rng, 10 ** rng.uniform(-9, 9, 6))
    un = str(rng.choice(["G", "mG", "T", "uG", "nT", "kG"]))
    q = (B * u.G).to(un)
    keep = q.copy()
    mon.case(un=un, B=list(np.ravel(B)))
    mon.feature(un)
    b = cv.B_to_cgs(q)
    mon.close("B", mon.val("B", b, GAUSS), B, 1e-9)
    mon.ok("shape", np.shape(b) == np.shape(B))
    mon.close("B_round_trip", np.asarray(b.to_value("G", equivalencies=cv.Gauss_cgs_equivalency)), B, 1e-9)
    mon.close("B_round_trip", mon.val("B", cv.B_to_cgs(b), GAUSS), B, 1e-9)
    # the energy density is that of the field in SI units
    from astropy.constants import mu0
    U = (b**2 / (8 * np.pi)).to_value("erg cm-3")
    si = ((B * u.G).to("T") ** 2 / (2 * mu0)).to_value("erg cm-3")
    mon.close("B_energy", np.asarray(U), np.asarray(si), 1e-6)
    mon.ok("input_kept", np.array_equal(keep.value, q.value) and q.unit == keep.unit)
    mon.raises("refused", u.UnitsError, lambda: cv.B_to_cgs(1 * u.cm))


def length(rng, mon, tier):
    from agnpy.utils import conversion as cv
    M = gen.logu(rng, 1, 1e11) * ref.MSUN
    r = shaped(rng, 10 ** rng.uniform(10, 25, 6))
    un, mu = str(rng.choice(["cm", "m", "pc", "lyr", "AU", "km"])), str(rng.choice(["g", "kg", "solMass"]))
    q, Mq = (r * u.cm).to(un), (M * u.g).to(mu)
    keep = q.copy()
    mon.case(un=un, mu=mu, M=M, r=list(np.ravel(r)))
    mon.feature(un, mu)
    x = cv.to_R_g_units(q, Mq)
    mon.close("R_g", mon.val("r", x, None), r / ref.R_g(M), 1e-6)
    mon.ok("shape", np.shape(x) == np.shape(r))
    mon.ok("input_kept", np.array_equal(keep.value, q.value) and q.unit == keep.unit)
    k = gen.logu(rng, 1e-3, 1e3)
    mon.close("linear", np.asarray((cv.to_R_g_units(k * q, Mq) / x).to_value("")), np.full(np.shape(r), k), 1e-12)
    mon.close("linear", np.asarray((cv.to_R_g_units(q, k * Mq) / x).to_value("")), np.full(np.shape(r), 1 / k), 1e-12)
    mon.raises("refused", u.UnitsError, lambda: cv.to_R_g_units(1 * u.s, Mq))
    mon.close("constants", [cv.mec2.to_value("erg"), cv.mpc2.to_value("erg")], [ref.MEC2, ref.MP * ref.C**2], 1e-6)
    mon.close("constants", [cv.lambda_c_e.to_value("cm"), cv.lambda_c_p.to_value("cm")], [ref.H / (ref.ME * ref.C), ref.H / (ref.MP * ref.C)], 1e-6)


KINDS = {"freq": (freq, 360, 6000), "field": (field, 240, 4000), "length": (length, 240, 4000)}
