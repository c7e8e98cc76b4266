"""C09: the results do not depend on the units in which the inputs are given."""
import numpy as np
import astropy.units as u
from lib import gen, ref, catalog

PID = "C09"
RULE = "distinct (physical configuration, pair of unit systems) with non-null results"
ASSUMPTIONS = ["agreement to 1e-6 plus the effect of relative changes of 1e-9 of the argument and of 1e-10 of the parameters (kinematic thresholds on a grid); 1e-4 for the disk, whose null inner edge is recovered from cosines close to 1"]
MONITORS = ["array", "scalar_quantities", "kept", "constructors"]
HEAVY = {"ec_disk", "ec_blr", "tau_disk", "tau_blr", "abs_disk", "abs_blr"}


def case(rng, mon, tier):
    w = catalog.World(rng)
    o1 = w.build()
    o2 = w.build(rng)
    mon.case(**w.show())
    c1, c2 = w.calls(o1), w.calls(o2)
    near = [(w.calls(w.build(eps=e)), s) for e, s in ((1e-10, 1e-9), (-1e-10, -1e-9))]
    for lab in rng.permutation(sorted(c1))[:9]:
        f1, kind, un = c1[lab]
        f2 = c2[lab][0]
        v = w.arg(rng, kind, int(rng.integers(1, 4)))
        a = mon.val(lab, f1(w.quantity(kind, v)), un)
        x2 = w.quantity(kind, v, rng)
        keep = np.array(getattr(x2, "value", x2), copy=True)
        b = mon.val(lab, f2(x2), un)
        mon.ok("kept", np.array_equal(keep, getattr(x2, "value", x2)))
        d = sum(np.abs(mon.val(lab, c[lab][0](w.quantity(kind, v * (1 + s))), un) - a) for c, s in near)
        if np.any(np.isnan(a)):
            mon.ok("array", np.array_equal(np.isnan(a), np.isnan(b)), label=lab)
            continue
        mon.close("array", b, a, 1e-4 if "disk" in lab else 1e-6, 5 * d + catalog.FLOOR.get(un, 1e-200), label=lab, x=list(v), unit=str(getattr(x2, "unit", "")))
    s1, s2 = w.scalars(o1), w.scalars(o2)
    for lab in s1:
        a, b = mon.val(lab, s1[lab][0](), s1[lab][1]), mon.val(lab, s2[lab][0](), s1[lab][1])
        mon.close("scalar_quantities", b, a, 1e-6, 0.0, label=lab)


def constructors(rng, mon, tier):
    """other ways of building the objects, whose derived parameters depend on quantities in any unit"""
    import agnpy.targets as T
    from agnpy.emission_regions import Blob
    from agnpy.synchrotron import nu_synch_peak
    U = catalog.UNITS
    q = lambda v, kind, on: (v * u.Unit(catalog.CGS[kind])).to(str(rng.choice(U[kind])) if on else catalog.CGS[kind])
    d, t, bl = gen.disk_par(rng), gen.dt_par(rng), gen.blr_par(rng)
    th, G, Rb, B, eps = gen.logu(rng, 0.001, 0.5), gen.logu(rng, 1.5, 50), gen.logu(rng, 1e14, 1e18), gen.logu(rng, 1e-4, 1e2), gen.logu(rng, 1e-9, 1e-3)
    W, n, up = gen.logu(rng, 1e44, 1e52), gen.logu(rng, 1e-6, 1e4), gen.logu(rng, 1e-8, 1e2)
    z, r, s = float(rng.uniform(0.01, 2)), gen.logu(rng, 1e15, 1e20), gen.spectrum(rng)
    nu = 10 ** rng.uniform(10, 16, 3)
    mon.case(d=d, t=t, th=th, G=G, Rb=Rb, B=B, W=W, n=n, up=up, spec=s, r=r)
    C, kw = gen.cls_of(s["type"]), {x: s[x] for x in gen.PAR_ORDER[s["type"]] if x != "k"}

    def norm(on):
        V = 4 / 3 * np.pi * Rb**3 * u.cm**3
        dens = lambda v, un: (v * u.Unit("cm-3")).to(str(rng.choice(["m-3", "pc-3"])) if on else "cm-3") if un == "n" else (v * u.Unit("erg cm-3")).to(str(rng.choice(["J m-3", "eV cm-3"])) if on else "erg cm-3")
        from astropy.constants import m_e
        return [C.from_total_density(dens(n, "n"), m_e, **kw).k.to_value("cm-3"), C.from_total_energy_density(dens(up, "u"), m_e, **kw).k.to_value("cm-3"),
                C.from_density_at_gamma_1(dens(n, "n"), m_e, **kw).k.to_value("cm-3"),
                C.from_total_energy((W * u.erg).to(str(rng.choice(["J", "eV", "kg m2 s-2"])) if on else "erg"), V.to(str(rng.choice(["m3", "pc3", "AU3"])) if on else "cm3"), m_e, **kw).k.to_value("cm-3")]

    def run(on):
        out = {}
        dt = T.RingDustTorus(q(t["L"], "lum", on), t["xi"], q(t["T"], "temp", on))
        out["torus radius"] = dt.R_dt.to_value("cm")
        out["torus sed"] = dt.sed_flux(q(nu, "freq", on), z).to_value("erg cm-2 s-1")
        disk = T.SSDisk(q(d["M"], "mass", on), q(d["L"], "lum", on), d["eta"], d["Rin_t"], d["Rout_t"], R_g_units=True)
        out["disk radii"] = [disk.R_in.to_value("cm"), disk.R_out.to_value("cm")]
        out["disk sed"] = disk.sed_flux(q(nu, "freq", on), z).to_value("erg cm-2 s-1")
        blr = T.SphericalShellBLR(q(bl["L"], "lum", on), bl["xi"], bl["line"], q(bl["R"], "len", on))
        out["blr"] = [float(blr.epsilon_line), float(np.ravel(blr.u(q(r, "len", on)).to_value("erg cm-3"))[0])]
        b = Blob(R_b=q(Rb, "len", on), B=q(B, "B", on), z=z)
        a = (th * u.rad).to(str(rng.choice(["deg", "arcmin", "mas", "hourangle"])) if on else "rad")
        b.set_delta_D(G, a)
        out["viewing angle"] = [b.delta_D, b.theta_s.to_value("rad")]
        out["distribution"] = norm(on)
        out["peak"] = nu_synch_peak(q(B, "B", on), np.array([1e2, 1e4])).to_value("Hz")
        out["cmb"] = T.CMB(z).u(blob=b).to_value("erg cm-3")
        return out

    a, c = run(False), run(True)
    for k in a:
        mon.close("constructors", np.ravel(np.asarray(c[k], float)), np.ravel(np.asarray(a[k], float)), 1e-6 if k != "viewing angle" else 1e-4, 1e-300, what=k)


KINDS = {"constructors": (constructors, 120, 2000), "units": (case, 180, 2500)}
