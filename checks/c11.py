"""C11: proton synchrotron SED."""
import numpy as np
import astropy.units as u
from astropy.constants import m_p
from lib import gen, ref

PID = "C11"
RULE = "distinct (blob, proton distribution, frequencies, integrator) with a non-null SED"
ASSUMPTIONS = ["same integration grid as the product; tolerance 1e-6 (3e-5 with the log-log rule)"]
MONITORS = ["sed", "static", "static:default_grid", "mass_scaling", "luminosity", "peak"]


def case(rng, mon, tier):
    mon.floor = 1e-150
    from agnpy.emission_regions import Blob
    from agnpy.synchrotron import ProtonSynchrotron, nu_synch_peak
    fn, iname = gen.integrator(rng)
    integ = ref.INTEGRATORS[iname]
    rt = 1e-6 if iname == "trapz" else 3e-5
    if rng.random() < 0.15:
        s, g0, n0 = gen.interp_spec(rng, gmax=(1e6, 1e9))
        d = gen.build_interp(s, g0, n0, mass=m_p)
    else:
        s = gen.spectrum(rng, gmax=(1e6, 1e11))
        d = gen.build(s, mass=m_p)
    par = {"R_b": gen.logu(rng, 1e14, 1e18), "z": float(rng.uniform(0.01, 2)), "delta": gen.logu(rng, 1, 50), "B": gen.logu(rng, 0.1, 200),
           "size": int(rng.integers(80, 300)), "spec": s}
    par["d_L"] = ref.d_L_cm(par["z"])
    b = Blob(R_b=(par["R_b"] * u.cm).to(str(rng.choice(gen.LEN))), z=par["z"], delta_D=par["delta"], Gamma=10,
             B=(par["B"] * u.G).to(str(rng.choice(["G", "T", "mG"]))), n_p=d, gamma_p_size=par["size"])
    nu = gen.freqs(rng, 10, 27, int(rng.integers(2, 9)))
    mon.case(par=gen.pub(par), nu=list(nu), integ=iname)
    mon.feature(s["type"], iname)
    g = gen.blob_gamma(par)
    args = (par["z"], par["d_L"], par["delta"], par["B"], par["R_b"], s)
    want = ref.synch_sed(nu, *args, g, integ, m=ref.MP)
    p = ProtonSynchrotron(b, integrator=fn)
    gen.stir(rng, s, b, lambda: p.sed_flux(nu * u.Hz), proton=True, more=[(p, "integrator", gen.integrator(rng)[0])])
    got = mon.val("sed", p.sed_flux(gen.nu_q(rng, nu)), "erg cm-2 s-1")
    mon.close("sed", got, want, rt)
    mon.close("luminosity", mon.val("lum", p.sed_luminosity(nu * u.Hz), "erg s-1"), want * 4 * np.pi * par["d_L"] ** 2, rt)
    g2 = np.logspace(np.log10(s["gamma_min"]) - 0.2, np.log10(s["gamma_max"]) + 0.2, int(rng.integers(60, 260)))
    zz = (par["z"], b.d_L, par["delta"], b.B, b.R_b, b.n_p, *b.n_p.parameters)
    mon.close("static", mon.val("sed", ProtonSynchrotron.evaluate_sed_flux(nu * u.Hz, *zz, integrator=fn, gamma=g2), "erg cm-2 s-1"),
              ref.synch_sed(nu, *args, g2, integ, m=ref.MP), rt)
    mon.close("static:default_grid", mon.val("sed", ProtonSynchrotron.evaluate_sed_flux(nu * u.Hz, *zz), "erg cm-2 s-1"),
              ref.synch_sed(nu, *args, np.logspace(1, 9, 200), m=ref.MP), 1e-6)
    # protons radiate at m_e / m_p of the electrons' frequency, for the same Lorentz factor
    gg = 10 ** rng.uniform(1, 8, 4)
    mon.close("mass_scaling", mon.val("nu", nu_synch_peak(b.B, gg, mass=m_p), "Hz") * ref.MP, mon.val("nu", nu_synch_peak(b.B, gg), "Hz") * ref.ME, 1e-9)
    grid = np.logspace(8, 28, 41)
    sed = mon.val("sed", p.sed_flux(grid * u.Hz), "erg cm-2 s-1")
    mon.ok("peak", float(p.sed_peak_flux(grid * u.Hz).to_value("erg cm-2 s-1")) == sed.max() and float(p.sed_peak_nu(grid * u.Hz).to_value("Hz")) == grid[sed.argmax()])


KINDS = {"proton": (case, 780, 6000)}
