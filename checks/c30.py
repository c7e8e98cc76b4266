"""C30: the angles and distances of the photon targets are those of explicit 3-vectors."""
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C30"
RULE = "distinct geometries (shell / ring points, heights, directions)"
ASSUMPTIONS = ["points at least 1e-6 (relative) apart; cosines to 1e-7 (square roots of differences)"]
MONITORS = ["cos_psi", "cos_psi_bounds", "x_shell", "mu_star", "x_ring", "x_ring_mu_s", "phi_mu_ring", "x_shell_mu_s", "phi_mu_shell", "aligned_limit", "perpendicular"]


def vec(mu, phi):
    s = np.sqrt(np.clip(1 - mu**2, 0, None))
    return np.stack(np.broadcast_arrays(s * np.cos(phi), s * np.sin(phi), mu), -1)


def mus(rng, n):
    m = rng.uniform(-1, 1, n)
    k = rng.random(n)
    m[k < 0.1] = 1.0
    m[(k > 0.1) & (k < 0.15)] = -1.0
    m[(k > 0.15) & (k < 0.2)] = 0.0
    return m


def tolerance(x, S):
    """rounding of the cosine dz/x amplified into its sine"""
    a = 4e-16 * (1 + (S / x) ** 2)
    return 3 * np.sqrt(a)


def case(rng, mon, tier):
    import agnpy.utils.geometry as g
    n = int(rng.integers(1, 30))
    mu, phi = mus(rng, n), rng.uniform(0, 2 * np.pi, n)
    R = gen.logu(rng, 1e14, 1e20)
    r = R * gen.logu(rng, 1e-3, 1e3)
    if rng.random() < 0.2:
        mu[0] = rng.uniform(0, 1)
        r = R * mu[0] if mu[0] > 1e-3 else r
    ms = float(mus(rng, 1)[0]) if rng.random() < 0.6 else float(np.cos(gen.logu(rng, 1e-8, 1e-1)))
    d = rng.uniform(-5, 5, n)
    uu = r * 10**d
    mon.case(R=R, r=r, mu_s=ms, mu=list(mu[:3]), phi=list(phi[:3]))
    mon.nontrivial = True
    gd = vec(np.array(ms), 0.0)  # direction of the gamma ray / blob
    want = vec(mu, phi) @ gd
    got = mon.val("cos", g.cos_psi(ms, mu, phi), None)
    mon.close("cos_psi", got, want, 0, 1e-12)
    mon.ok("cos_psi_bounds", np.all(np.isfinite(got)) and np.all(np.abs(got) <= 1 + 1e-12))
    # rounding must not make an angle undefined
    e = mon.val("cos", g.cos_psi(ms, np.array([1.0, np.nextafter(1, 2), -1.0, np.nextafter(-1, -2)]), np.zeros(4)), None)
    mon.close("cos_psi_bounds", e, [ms, ms, -ms, -ms], 0, 1e-7)
    # shell seen from the axis
    P = R * vec(mu, 0.0)
    D = np.array([0, 0, r]) - P
    x = np.linalg.norm(D, axis=-1)
    far = x > 1e-6 * R
    un = [str(v) for v in rng.choice(gen.LEN, 2)]
    if rng.random() < 0.5:
        Rq, rq, f = (R * u.cm).to(un[0]), (r * u.cm).to(un[1]), "cm"
        uq = (uu * u.cm).to(str(rng.choice(gen.LEN)))
    else:
        Rq, rq, uq, f = R, r, uu, None
    cm = lambda v: mon.val("length", v, f)
    mon.close("x_shell", cm(g.x_re_shell(mu, Rq, rq))[far], x[far], 1e-7, 1e-9 * R)
    amp = 1e-15 * ((R + r) / x) ** 2
    st = mon.val("mu_star", g.mu_star_shell(mu, Rq, rq), None)
    w = D[:, 2] / x
    tol = 1e-7 + 3 * np.minimum(np.sqrt(10 * amp), 10 * amp / np.maximum(np.abs(w), 1e-30))
    mon.ok("mu_star", np.all((np.abs(st - w) <= tol)[far]), got=list(st), want=list(w), mu=list(mu))
    mon.counts["perpendicular"] += 1
    xr = np.hypot(R, r)
    mon.close("x_ring", cm(g.x_re_ring(Rq, rq)), np.asarray(xr), 1e-12)
    # off axis: gamma ray at a distance uu from its origin on the axis
    pos = np.array([0, 0, r]) + uu[:, None] * gd
    ring = R * np.stack([np.cos(phi), np.sin(phi), np.zeros(n)], -1)
    D = pos - ring
    x = np.linalg.norm(D, axis=-1)
    S = R + r + uu
    far = x > 1e-4 * S
    mon.ok("x_ring_mu_s", np.all((np.abs(cm(g.x_re_ring_mu_s(Rq, rq, phi, uq, ms)) - x) <= 1e-7 * x + 1e-15 * S**2 / x)[far]))
    ph, m = g.phi_mu_re_ring(Rq, rq, phi, uq, ms)
    V = vec(np.clip(mon.val("mu", m, None), -1, 1), mon.val("phi", ph, "rad") if hasattr(ph, "unit") and ph.unit == u.rad else np.asarray(ph, float))
    mon.ok("phi_mu_ring", np.all((np.abs(V - D / x[:, None]).max(-1) <= 1e-6 + tolerance(x, S))[far]), got=V.tolist()[:2], want=(D / x[:, None]).tolist()[:2])
    sh = R * vec(mu, phi)
    D = pos - sh
    x = np.linalg.norm(D, axis=-1)
    far = x > 1e-4 * S
    mon.ok("x_shell_mu_s", np.all((np.abs(cm(g.x_re_shell_mu_s(Rq, rq, phi, mu, uq, ms)) - x) <= 1e-7 * x + 1e-15 * S**2 / x)[far]))
    ph, m = g.phi_mu_re_shell(Rq, rq, phi, mu, uq, ms)
    V = vec(np.clip(mon.val("mu", m, None), -1, 1), np.asarray(u.Quantity(ph).value, float))
    mon.ok("phi_mu_shell", np.all((np.abs(V - D / x[:, None]).max(-1) <= 1e-6 + tolerance(x, S))[far]), got=V.tolist()[:2], want=(D / x[:, None]).tolist()[:2])
    # a gamma ray along the axis: the off-axis geometry becomes the on-axis one
    a = cm(g.x_re_shell_mu_s(Rq, rq, phi, mu, uq, 1.0))
    b = cm(g.x_re_shell(mu, Rq, rq + uq))
    mon.ok("aligned_limit", np.all((np.abs(a - b) <= 1e-7 * b + 1e-15 * S**2 / np.maximum(b, 1e-4 * S))[b > 1e-4 * S]))


KINDS = {"geometry": (case, 1500, 25000)}
