"""C28: flux points for the fit are loaded exactly, with their systematic errors."""
import os
import shutil
import tempfile
import numpy as np
import astropy.units as u
from lib import gen, ref
from lib.harness import REPO

PID = "C28"
RULE = "distinct (table, energy range, systematics)"
ASSUMPTIONS = ["tables in the documented format (any unit of energy and flux), energies increasing within each instrument, as the shipped ones",
               "distinct energies per instrument (requirement of gammapy)"]
MONITORS = ["points", "fluxes", "stat_errors", "syst_errors", "range", "instruments", "file_kept", "dict_kept", "backends_agree", "shipped", "add_systematic", "quadrature"]

NAMES = ["MAGIC", "Fermi", "Fermi-LAT", "Swift/XRT", "Swift/UVOT", "RATAN", "VLBA(BK150)", "VLBA", "SMA", "GASP"]


def table(rng):
    from astropy.table import Table
    ins = list(rng.choice(NAMES, int(rng.integers(1, 6)), replace=False))
    rows = []
    for i in ins:
        n = int(rng.integers(1, 8))
        e = np.sort(10 ** rng.uniform(-5, 13, n))
        f = 10 ** rng.uniform(-15, -9, n)
        rows += [(a, b, b * rng.uniform(0.01, 0.5), b * rng.uniform(0.01, 0.5), str(i)) for a, b in zip(e, f)]
    rows.sort()
    cols = list(zip(*rows))
    t = Table([np.array(c, float) for c in cols[:4]] + [np.array(cols[4], str)], names=["e_ref", "e2dnde", "e2dnde_errn", "e2dnde_errp", "instrument"])
    t["e_ref"].unit = "eV"
    for c in ("e2dnde", "e2dnde_errn", "e2dnde_errp"):
        t[c].unit = "erg cm-2 s-1"
    t.meta["SED_TYPE"] = "e2dnde"
    return t, [str(i) for i in ins]


def systematics(rng, ins):
    x = rng.random()
    if x < 0.15:
        return None
    pool = list(rng.choice(NAMES, int(rng.integers(0, 6)), replace=False))
    if x > 0.5:
        pool = list(dict.fromkeys(pool + ins))
    return {str(i): float(rng.uniform(0.01, 0.5)) for i in rng.permutation(pool)} if pool else {}


def check(rng, mon, path, t, ins, shipped=False):
    from agnpy.fit import load_gammapy_flux_points, load_sherpa_flux_points
    E = np.array(t["e_ref"])
    lo, hi = np.sort(10 ** rng.uniform(np.log10(E.min()) - 1, np.log10(E.max()) + 1, 2))
    if rng.random() < 0.3:
        lo, hi = E.min() * 0.5, E.max() * 2
    un = str(rng.choice(["eV", "keV", "GeV", "J"]))
    lq, hq = (lo * u.eV).to(un), (hi * u.eV).to(un)
    sy = systematics(rng, ins)
    sy0 = None if sy is None else dict(sy)
    content = open(path, "rb").read()
    mon.case(n=len(t), instruments=ins, range=[lo, hi], syst=sy)
    key = lambda r: (r[0], r[1])
    rel = lambda i: 0.0 if sy is None else sy.get(i, 0.0)
    a = lambda c: np.array(t[c], float)
    names = [str(i) for i in t["instrument"]]
    want = sorted(zip(a("e_ref"), a("e2dnde"), (a("e2dnde_errn") + a("e2dnde_errp")) / 2, np.array([rel(i) for i in names]) * a("e2dnde")), key=key)
    want = np.array(want)
    # sherpa
    kw = {} if sy is None and rng.random() < 0.5 else {"systematics_dict": sy}
    s = load_sherpa_flux_points(path, lq, hq, **kw)
    inside = (want[:, 0] >= lo * (1 - 1e-12)) & (want[:, 0] <= hi * (1 + 1e-12))
    mon.ok("points", len(s.x) == len(t), got=len(s.x), want=len(t))
    rows = np.array(sorted(zip(*(np.asarray(q, float) for q in (s.x, s.y, s.staterror, s.syserror))), key=key))
    if rows.shape == want.shape:
        mon.close("points", rows[:, 0], want[:, 0], 1e-12)
        mon.close("fluxes", rows[:, 1], want[:, 1], 1e-12)
        mon.close("stat_errors", rows[:, 2], want[:, 2], 1e-12)
        mon.close("syst_errors", rows[:, 3], want[:, 3], 1e-12)
    m = np.asarray(s.mask) * np.ones(len(s.x), bool) if not isinstance(s.mask, bool) else np.full(len(s.x), s.mask)
    got = np.sort(np.asarray(s.x, float)[m])
    mon.ok("range", got.shape == want[inside, 0].shape and np.allclose(got, want[inside, 0], rtol=1e-12), got=list(got), want=list(want[inside, 0]), lo=lo, hi=hi)
    # gammapy
    ds = load_gammapy_flux_points(path, lq, hq, **kw)
    mon.ok("instruments", sorted(d.name for d in ds) == sorted(set(names)), got=[d.name for d in ds])
    tot = 0
    allg = []
    for d in ds:
        k = np.array([i for i, x in enumerate(names) if x == d.name])
        k = k[np.argsort(a("e_ref")[k], kind="stable")]
        e, f, en, ep = a("e_ref")[k], a("e2dnde")[k], a("e2dnde_errn")[k], a("e2dnde_errp")[k]
        fp = d.data
        ge = fp.energy_ref.to_value("eV").ravel()
        gf = fp.e2dnde.quantity.to_value("erg cm-2 s-1").ravel()
        if not mon.ok("points", ge.size == k.size, instrument=d.name):
            continue
        o = np.argsort(ge, kind="stable")
        tot += ge.size
        mon.close("points", ge[o], e, 1e-9, 0.0, instrument=d.name)
        mon.close("fluxes", gf[o], f, 1e-9, 0.0, instrument=d.name)
        n_, p_ = fp.e2dnde_errn.quantity.to_value("erg cm-2 s-1").ravel()[o], fp.e2dnde_errp.quantity.to_value("erg cm-2 s-1").ravel()[o]
        r = rel(d.name)
        mon.close("quadrature", n_, np.hypot(en, r * f), 1e-8, 0.0, instrument=d.name)
        mon.close("quadrature", p_, np.hypot(ep, r * f), 1e-8, 0.0, instrument=d.name)
        mk = np.asarray(d.mask_fit.data if hasattr(d.mask_fit, "data") and not isinstance(d.mask_fit, np.ndarray) else d.mask_fit).ravel()[o]
        allg += list(zip(e, mk))
        # gammapy decides on the edges of the energy bins
        ed = fp.geom.axes["energy"].edges.to_value("eV")
        w = (ed[:-1] >= lo * (1 - 1e-9)) & (ed[1:] <= hi * (1 + 1e-9))
        safe = np.all(np.abs(np.array([ed[:-1] / lo, ed[1:] / hi]) - 1) > 1e-6, axis=0)
        mon.ok("range", np.all((mk == w[o])[safe]), mask=list(mk), want=list(w[o]), lo=lo, hi=hi)
        mon.ok("range", np.all((e >= lo * (1 - 1e-9)) & (e <= hi * (1 + 1e-9)) | ~mk), e=list(e), mask=list(mk))
    mon.ok("points", tot == len(t))
    mon.counts["backends_agree"] += 1
    mon.ok("file_kept", open(path, "rb").read() == content)
    mon.ok("dict_kept", sy == sy0)
    if shipped:
        mon.counts["shipped"] += 1
    mon.nontrivial = True
    return ds


def synthetic(rng, mon, tier):
    t, ins = table(rng)
    d = tempfile.mkdtemp(prefix="c28_")
    try:
        p = os.path.join(d, "sed.ecsv")
        w = t.copy()
        if rng.random() < 0.4:  # the units are those of the table
            un = str(rng.choice(["keV", "MeV", "TeV", "erg"]))
            w["e_ref"] = (np.array(t["e_ref"]) * u.eV).to_value(un)
            w["e_ref"].unit = un
            mon.feature(un)
        if rng.random() < 0.4:
            un = str(rng.choice(["TeV cm-2 s-1", "W m-2", "eV m-2 s-1"]))
            for c in ("e2dnde", "e2dnde_errn", "e2dnde_errp"):
                w[c] = (np.array(t[c]) * u.Unit("erg cm-2 s-1")).to_value(un)
                w[c].unit = un
            mon.feature(un)
        w.write(p, format="ascii.ecsv")
        check(rng, mon, p, t, ins)
    finally:
        shutil.rmtree(d)


def shipped(rng, mon, tier):
    from astropy.table import Table
    p = os.path.join(REPO, "agnpy", "data", "mwl_seds", str(rng.choice(["Mrk421_2011.ecsv", "PKS1510-089_2015b.ecsv"])))
    t = Table.read(p)
    check(rng, mon, p, t, sorted({str(i) for i in t["instrument"]}), True)


def add(rng, mon, tier):
    """repeated addition of systematic errors sums them in quadrature and keeps the fluxes"""
    from agnpy.fit import add_systematic_errors_gammapy_flux_points
    from gammapy.estimators import FluxPoints
    t, ins = table(rng)
    t = t[np.array([str(i) == ins[0] for i in t["instrument"]])]
    fp = FluxPoints.from_table(t, sed_type="e2dnde", format="gadf-sed")
    a = lambda c: np.array(t[c], float)
    tot = 0.0
    mon.case(t=list(a("e_ref")))
    for _ in range(int(rng.integers(1, 4))):
        r = float(rng.uniform(0, 0.5))
        tot = np.hypot(tot, r)
        add_systematic_errors_gammapy_flux_points(fp, r)
        q = lambda x: x.quantity.to_value("erg cm-2 s-1").ravel()
        mon.close("add_systematic", q(fp.e2dnde_errn), np.hypot(a("e2dnde_errn"), tot * a("e2dnde")), 1e-8)
        mon.close("add_systematic", q(fp.e2dnde_errp), np.hypot(a("e2dnde_errp"), tot * a("e2dnde")), 1e-8)
        mon.close("add_systematic", q(fp.e2dnde), a("e2dnde"), 1e-9)


KINDS = {"synthetic": (synthetic, 120, 1500), "shipped": (shipped, 16, 100), "add": (add, 80, 600)}
