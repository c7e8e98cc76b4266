"""C20: EBL attenuation is the interpolation of the tabulated model."""
import os
import numpy as np
import astropy.units as u
from lib import gen, ref
from lib.harness import REPO

PID = "C20"
RULE = "distinct (model, redshift, energies)"
ASSUMPTIONS = ["the shipped tables are the reference: energies are the geometric centres of the bins in keV, duplicated redshifts taken once"]
MONITORS = ["node", "interpolation", "between", "outside", "range", "units", "scalar", "redshift_zero", "shape", "default"]

FILES = {"franceschini_2008": "ebl_franceschini.fits.gz", "franceschini_2017": "ebl_franceschini_2017.fits.gz", "dominguez_2011": "ebl_dominguez11.fits.gz",
         "finke_2010": "frd_abs.fits.gz", "saldana_lopez_2021": "ebl_saldana-lopez_2021.fits.gz"}
TAB = {}
KEV = 1.602176634e-9  # erg


def table(name):
    if name not in TAB:
        from astropy.io import fits
        with fits.open(os.path.join(REPO, "agnpy", "data", "ebl_models", FILES[name])) as f:
            e = np.sqrt(np.asarray(f["ENERGIES"].data["ENERG_LO"], float) * np.asarray(f["ENERGIES"].data["ENERG_HI"], float))
            z = np.asarray(f["SPECTRA"].data["PARAMVAL"], float)
            v = np.asarray(f["SPECTRA"].data["INTPSPEC"], float)
        keep = np.r_[True, np.diff(z) > 0]
        TAB[name] = (e, z[keep], v[keep])
    return TAB[name]


def setup(tier):
    for n in FILES:
        table(n)


MODEL = {}


def model(name):
    from agnpy.absorption import EBL
    if name not in MODEL:
        MODEL[name] = EBL(name)
    return MODEL[name]


def bilinear(name, e, z):
    E, Z, V = table(name)
    e = np.asarray(e, float)
    i = np.clip(np.searchsorted(E, e, side="right") - 1, 0, E.size - 2)
    j = int(np.clip(np.searchsorted(Z, z, side="right") - 1, 0, Z.size - 2))
    t = (e - E[i]) / (E[i + 1] - E[i])
    w = (z - Z[j]) / (Z[j + 1] - Z[j])
    return (V[j, i] * (1 - t) + V[j, i + 1] * t) * (1 - w) + (V[j + 1, i] * (1 - t) + V[j + 1, i + 1] * t) * w


def case(rng, mon, tier):
    name = str(rng.choice(sorted(FILES)))
    m = model(name)
    E, Z, V = table(name)
    mon.feature(name)
    lo, hi = E[0] * (1 + 1e-6), E[-1] * (1 - 1e-6)
    e = 10 ** rng.uniform(np.log10(lo), np.log10(hi), int(rng.integers(1, 20)))
    if rng.random() < 0.5:  # where the attenuation is not trivial: 10 GeV - 100 TeV
        e = 10 ** rng.uniform(np.log10(max(lo, 1e7)), np.log10(min(hi, 1e11)), e.size)
    z = float(rng.uniform(Z[0], min(Z[-1], rng.choice([0.5, 2, 20]))))
    mon.case(model=name, z=z, e=list(e))
    un = str(rng.choice(["Hz", "keV", "TeV", "erg", "J", "GHz"]))
    q = (e * u.keV).to(un, equivalencies=u.spectral())
    got = mon.val("absorption", m.absorption(q, z), None)
    want = bilinear(name, e, z)
    mon.close("interpolation", got, want, 2e-5, 2e-6, model=name, z=z)
    lo_v, hi_v = [], []
    for k in range(e.size):
        i = int(np.clip(np.searchsorted(E, e[k], side="right") - 1, 0, E.size - 2))
        j = int(np.clip(np.searchsorted(Z, z, side="right") - 1, 0, Z.size - 2))
        c = V[j:j + 2, i:i + 2]
        lo_v.append(c.min())
        hi_v.append(c.max())
    mon.ok("between", np.all((got >= np.array(lo_v) - 1e-6) & (got <= np.array(hi_v) + 1e-6)), got=list(got))
    mon.ok("range", np.all((got >= 0) & (got <= 1 + 1e-6)), got=list(got), model=name, z=z)
    mon.ok("shape", got.shape == e.shape)
    # order and grouping of the frequencies do not matter; units neither
    k = rng.permutation(e.size)
    mon.close("shape", mon.val("absorption", m.absorption(q[k], z), None), got[k], 1e-12)
    mon.close("units", mon.val("absorption", m.absorption(q.to("Hz", equivalencies=u.spectral()), z), None), got, 1e-8, 1e-9)
    s = mon.val("absorption", m.absorption(q[0], z), None)
    mon.close("scalar", np.ravel(s), got[:1], 1e-12)


def nodes(rng, mon, tier):
    name = str(rng.choice(sorted(FILES)))
    m = model(name)
    E, Z, V = table(name)
    j = int(rng.integers(Z.size))
    mon.case(model=name, j=j)
    mon.nontrivial = True
    i = np.arange(1, E.size - 1)
    got = mon.val("absorption", m.absorption(E[i] * u.keV, float(Z[j])), None)
    mon.close("node", got, V[j, i], 1e-5, 1e-6, model=name, z=Z[j])
    # beyond the table there is no answer, and not a made up one
    out = np.array([E[0] * 0.5, E[-1] * 2]) * u.keV
    mon.ok("outside", np.all(np.isnan(m.absorption(out, float(Z[j])))))
    mid = np.sqrt(E[3] * E[-3]) * np.ones(2) * u.keV
    mon.ok("outside", np.all(np.isnan(m.absorption(mid, float(Z[-1] * 1.1 + 0.01)))))
    if Z[0] > 0:
        mon.ok("outside", np.all(np.isnan(m.absorption(mid, float(Z[0] * 0.5)))))
    # the closer the source the weaker the attenuation
    mon.ok("redshift_zero", np.all(m.absorption(E[1:-1] * u.keV, float(Z[0])) >= m.absorption(E[1:-1] * u.keV, float(Z[Z.size // 2])) - 1e-3))


def default(rng, mon, tier):
    from agnpy.absorption import EBL
    e = 10 ** rng.uniform(7, 10, 5)
    mon.case(e=list(e))
    mon.close("default", mon.val("absorption", EBL().absorption(e * u.keV, 0.3), None), bilinear("dominguez_2011", e, 0.3), 2e-5, 2e-6)


KINDS = {"interpolation": (case, 750, 10000), "nodes": (nodes, 360, 2500), "default": (default, 2, 10)}
