"""C16: energy density of the target photon fields, at rest and comoving with a blob."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C16"
RULE = "distinct (target, distances, blob) with a non-null energy density"
ASSUMPTIONS = ["same integration grids as the product: 50 cosines for the spherical shell, 100 between the edges of the disk",
               "distances at least 1e-3 away from the radius of the spherical shell"]
MONITORS = ["cmb", "ps", "disk", "blr", "dt", "cmb_comoving", "ps_comoving", "disk_comoving", "blr_comoving", "dt_comoving", "scalar", "far", "shell_exact", "linear"]


def _boost(G, mu):
    b = np.sqrt(1 - 1 / G**2)
    return G**2 * (1 - b * mu) ** 2


def expected(name, t, r, G=None, noise=0):
    r = np.asarray(r, float)
    L = t.get("L")
    if name == "cmb":
        v = np.full_like(r, t["u0"])
        return v if G is None else v * G**2 * (1 + (1 - 1 / G**2) / 3)
    if name == "ps":
        v = t["L0"] / (4 * np.pi * ref.C * r**2)
        return v if G is None else v * _boost(G, 1.0)
    if name == "dt":
        x2 = t["R"] ** 2 + r**2
        v = t["xi"] * L / (4 * np.pi * ref.C * x2)
        return v if G is None else v * _boost(G, r / np.sqrt(x2))
    if name == "blr":
        mu = np.linspace(-1, 1, 50)[:, None]
        x2 = r**2 + t["R"] ** 2 - 2 * r * t["R"] * mu
        y = 1 / x2
        if G is not None:
            y = y * _boost(G, (r - t["R"] * mu) / np.sqrt(x2))
        return t["xi"] * L / (8 * np.pi * ref.C) * ref.trapz(y, mu[:, 0])
    rg = ref.R_g(t["M"])
    out = np.empty(r.shape)
    for i, ri in np.ndenumerate(r):
        mu = ref.disk_mu(t["Rin"] / rg, t["Rout"] / rg, ri / rg)
        R = ri * np.sqrt(mu**-2 - 1)
        y = (np.maximum(1 - np.sqrt(t["Rin"] / R), 0) + noise * ref.disk_noise(ri, R)) / mu / (mu**-2 - 1) ** 1.5
        if G is not None:
            y = y * _boost(G, mu)
        out[i] = 3 * L * rg / (8 * np.pi * ref.C * t["eta"] * ri**3) * ref.trapz(y, mu)
    return out


def blr_unsigned(t, r, G):
    """value of the recorded finding: photons coming from ahead taken as coming from behind"""
    mu = np.linspace(-1, 1, 50)[:, None]
    x2 = r**2 + t["R"] ** 2 - 2 * r * t["R"] * mu
    y = _boost(G, np.abs(r - t["R"] * mu) / np.sqrt(x2)) / x2
    return t["xi"] * t["L"] / (8 * np.pi * ref.C) * ref.trapz(y, mu[:, 0])


def case(rng, mon, tier, name):
    par, b = gen.blob(rng, p_interp=0)
    t, target = gen.target(rng, name, par["z"])
    n = int(rng.integers(1, 7))
    r = np.array([gen.distance(rng, name, t) for _ in range(n)])
    if name == "blr":
        bad = np.abs(r / t["R"] - 1) < 1e-3
        r[bad] *= 1.01
    un = str(rng.choice(["cm", "pc", "m", "lyr"]))
    rq = (r * u.cm).to(un)
    keep = rq.copy()
    mon.case(name=name, t=t, r=list(r), G=par["Gamma"], unit=un)
    mon.feature(name)
    rt = 1e-5
    call = (lambda q, bl=None: target.u(bl)) if name == "cmb" else (lambda q, bl=None: target.u(q, bl))
    got = mon.val("u", call(rq), "erg cm-3")
    want = expected(name, t, r)
    # the emission of the inner edge of the disk is pure rounding
    noise = (lambda G=None: np.abs(expected(name, t, r, G, 1) - expected(name, t, r, G))) if name == "disk" else lambda G=None: 0.0
    if name == "cmb":
        got = np.broadcast_to(got, want.shape)
    mon.close(name, np.ravel(got), want, 1e-3 if name == "cmb" else rt, noise())
    gotb = mon.val("u", call(rq, b), "erg cm-3")
    if name == "cmb":
        gotb = np.broadcast_to(gotb, want.shape)
    wantb = expected(name, t, r, par["Gamma"])
    if name == "blr":
        inside = r < t["R"]
        gotb = np.ravel(gotb)
        mon.close("blr_comoving", gotb[~inside], wantb[~inside], rt)
        for i in np.nonzero(inside)[0]:
            mon.known("blr-comoving-inside", "blr_comoving", abs(gotb[i] / wantb[i] - 1) < rt,
                      abs(gotb[i] / blr_unsigned(t, r[i], par["Gamma"]) - 1) < rt, got=gotb[i], want=wantb[i], r=r[i], R=t["R"])
    else:
        mon.close(name + "_comoving", np.ravel(gotb), wantb, 1e-3 if name == "cmb" else rt, noise(par["Gamma"]))
    # one distance at a time gives the same
    i = int(rng.integers(n))
    mon.close("scalar", np.ravel(mon.val("u", call(rq[i]), "erg cm-3"))[:1], np.ravel(np.broadcast_to(got, want.shape))[i:i + 1], 1e-12)
    mon.ok("caller_array", np.all(rq == keep))
    if name == "blr":
        # closed form of the angular integral, away from the shell
        q = r / t["R"]
        far = (q < 0.5) | (q > 2)
        ex = t["xi"] * t["L"] / (8 * np.pi * ref.C) * np.log(np.abs((1 + q) / (1 - q))) / (r * t["R"]) * 2 / 2
        mon.close("shell_exact", np.ravel(got)[far], ex[far], 5e-3)
    if name in ("blr", "dt"):
        # far away: a point source of the reprocessed luminosity
        rf = t["R"] * 1e3
        f = mon.val("u", target.u(np.array([rf]) * u.cm), "erg cm-3")
        mon.close("far", np.ravel(f), np.array([t["xi"] * t["L"] / (4 * np.pi * ref.C * rf**2)]), 1e-3)
    if name in ("blr", "dt", "disk"):
        f = float(rng.uniform(0.1, 10))
        import copy
        tg = copy.copy(target)
        if name == "disk":
            from agnpy.targets import SSDisk
            tg = SSDisk(target.M_BH, target.L_disk * f, target.eta, target.R_in, target.R_out)
        else:
            tg.L_disk = target.L_disk * f
        mon.close("linear", np.ravel(mon.val("u", tg.u(rq), "erg cm-3")), f * np.ravel(got), 1e-10)


def _k(name):
    return lambda rng, mon, tier: case(rng, mon, tier, name)


KINDS = {n: (_k(n), 180, 2500) for n in gen.EC_TARGETS}
