"""C01: the particle distributions evaluate to their documented law."""
import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p
from lib import gen, ref

PID = "C01"
RULE = "distinct (distribution parameters, query shape) with a non-zero density observed"
ASSUMPTIONS = [
    "a query closer than 2e-10 (relative) to a bound, but not equal to it, is not judged (documented rounding slack)",
    "log-density above 1e-250 so that float64 does not underflow",
]
MONITORS = ["law:array", "law:scalar", "law:int", "law:nd", "outside_zero", "edge_value", "static=call", "follows_parameters"]


def _queries(rng, s):
    lo, hi = s["gamma_min"], s["gamma_max"]
    g = 10 ** rng.uniform(np.log10(lo), np.log10(hi), int(rng.integers(3, 30)))
    out = np.array([lo / 2, lo * (1 - 1e-6), hi * (1 + 1e-6), hi * 3, lo * 0.999, hi * 1.001, lo * (1 - gen.logu(rng, 2e-10, 1e-3)), hi * (1 + gen.logu(rng, 2e-10, 1e-3))])
    return g, out


def case(rng, mon, tier):
    s = gen.spectrum(rng)
    unit = str(rng.choice(["cm-3", "m-3", "pc-3"]))
    mass = m_e if rng.random() < 0.7 else m_p
    d = gen.build(s, mass=mass, unit=unit)
    mon.case(spec=s, unit=unit, mass=str(mass.name))
    mon.feature(s["type"], unit)
    inside, outside = _queries(rng, s)
    nodes = [v for k, v in s.items() if k in ("gamma_b", "gamma_0", "gamma_c") and s["gamma_min"] < v < s["gamma_max"]]
    g = np.concatenate([inside, outside, nodes])
    order = rng.permutation(g.size)
    g = g[order] if rng.random() < 0.6 else np.sort(g)
    if rng.random() < 0.3:
        g = g[::-1]  # a non contiguous view
    want = ref.n_of(s, g)
    got = mon.val("n", d(g), "cm-3")
    mon.close("law:array", got, want, 1e-8)
    z = mon.val("n", d(outside), "cm-3")
    mon.ok("outside_zero", np.all(z == 0), got=list(z), at=list(outside))
    edges = np.array([s["gamma_min"], s["gamma_max"]])
    ew = ref.n_of(s, edges)
    mon.close("edge_value", mon.val("n", d(edges), "cm-3"), ew, 1e-8)
    # grids whose extremes fall short of / beyond the bounds by rounding only
    grid = np.logspace(np.log10(s["gamma_min"]), np.log10(s["gamma_max"]), int(rng.integers(2, 300)))
    gw = ref.n_of(s, np.clip(grid, *edges))
    mon.close("edge_value", mon.val("n", d(grid), "cm-3"), gw, 1e-8)
    for x in [float(inside[0]), np.float64(inside[1]), edges[0], float(outside[0])]:
        v = mon.val("n", d(x), "cm-3")
        mon.ok("law:scalar", v.size == 1 and np.isclose(v, ref.n_of(s, x), rtol=1e-8, atol=0), x=x, got=v, want=ref.n_of(s, x))
    ints = np.unique(np.round(inside).astype(int))
    ints = ints[(np.abs(ints / edges[0] - 1) > 1e-9) & (np.abs(ints / edges[1] - 1) > 1e-9)]
    if ints.size:
        mon.close("law:int", mon.val("n", d(ints), "cm-3"), ref.n_of(s, ints.astype(float)), 1e-8)
        i0 = int(ints[0])
        mon.close("law:int", np.ravel(mon.val("n", d(i0), "cm-3")), np.ravel(ref.n_of(s, float(i0))), 1e-8)
    n2 = (g.size // 2) * 2
    g2 = g[:n2].reshape(2, -1)
    mon.close("law:nd", mon.val("n", d(g2), "cm-3"), ref.n_of(s, g2), 1e-8)
    col = g.reshape(-1, 1, 1)
    mon.close("law:nd", mon.val("n", d(col), "cm-3"), ref.n_of(s, col), 1e-8)
    mon.close("static=call", mon.val("n", type(d).evaluate(g, *d.parameters), "cm-3"), want, 1e-8)
    # the law follows the parameters after they are reassigned
    s2 = gen.spectrum(rng, types=[s["type"]])
    for k in gen.PAR_ORDER[s["type"]]:
        setattr(d, k, s2[k] * u.Unit("cm-3") if k == "k" else s2[k])
    gi, go = _queries(rng, s2)
    gg = np.concatenate([gi, go])
    mon.close("follows_parameters", mon.val("n", d(gg), "cm-3"), ref.n_of(s2, gg), 1e-8)


KINDS = {"law": (case, 2100, 20000)}
