"""Reference models, written from the documented formulas in plain float64 cgs.

Nothing here calls agnpy: the constants come from astropy, the arithmetic is
ours.  All functions take and return bare floats / ndarrays (cgs, Hz, erg)."""
import numpy as np
import astropy.constants as K

ME = K.m_e.cgs.value
MP = K.m_p.cgs.value
C = K.c.cgs.value
H = K.h.cgs.value
E = K.e.gauss.value
SIGMA_T = K.sigma_T.cgs.value
KB = K.k_B.cgs.value
SIGMA_SB = K.sigma_sb.cgs.value
G = K.G.cgs.value
MSUN = K.M_sun.cgs.value
MEC2 = ME * C**2
MPC2 = MP * C**2
EV = 1.602176634e-12  # erg
DAY = 86400.0


# ------------------------------------------------------------------ integrals
def trapz(y, x, axis=0):
    y = np.moveaxis(np.asarray(y, float), axis, 0)
    x = np.asarray(x, float)
    dx = np.diff(x).reshape((-1,) + (1,) * (y.ndim - 1))
    return np.sum(0.5 * (y[1:] + y[:-1]) * dx, axis=0)


def loglog(y, x, axis=0):
    """integral of the piecewise power law through the points (sign kept)"""
    y = np.moveaxis(np.asarray(y, float), axis, 0)
    x = np.asarray(x, float)
    xl = x[:-1].reshape((-1,) + (1,) * (y.ndim - 1))
    L = np.log(x[1:] / x[:-1]).reshape(xl.shape)
    yl, yu = y[:-1], y[1:]
    with np.errstate(all="ignore"):
        live = (yl != 0) & (yu != 0) & (np.sign(yl) == np.sign(yu)) & (L != 0)
        m = np.where(live, np.log(np.where(live, np.abs(yu), 1.0)) - np.log(np.where(live, np.abs(yl), 1.0)), 0.0) / L
        a = (m + 1) * L
        f = np.where(np.abs(a) < 1e-12, L * (1 + a / 2), np.expm1(a) / np.where(m + 1 == 0, 1, m + 1))
        v = np.where(live, yl * xl * f, 0.0)
        # no power law joins values of opposite sign: straight line
        v = np.where(np.sign(yl) * np.sign(yu) < 0, 0.5 * (yl + yu) * xl * np.expm1(L), v)
    return np.sum(v, axis=0)


INTEGRATORS = {"trapz": trapz, "loglog": loglog}


# ------------------------------------------------------- particle distributions
EDGE = 1e-10  # relative slack at the bounds (rounding of the caller's grid)


def n_of(spec, gamma):
    """documented law n(gamma) in cm-3; zero outside of the bounds"""
    g = np.asarray(gamma, float)
    inside = (g >= spec["gamma_min"] * (1 - EDGE)) & (g <= spec["gamma_max"] * (1 + EDGE))
    t = spec["type"]
    with np.errstate(all="ignore"):
        if t == "PowerLaw":
            v = spec["k"] * g ** -spec["p"]
        elif t == "BrokenPowerLaw":
            x = g / spec["gamma_b"]
            v = spec["k"] * np.where(g <= spec["gamma_b"], x ** -spec["p1"], x ** -spec["p2"])
        elif t == "LogParabola":
            x = g / spec["gamma_0"]
            v = spec["k"] * x ** -(spec["p"] + spec["q"] * np.log10(x))
        elif t == "ExpCutoffPowerLaw":
            v = spec["k"] * g ** -spec["p"] * np.exp(-g / spec["gamma_c"])
        elif t == "ExpCutoffBrokenPowerLaw":
            x = g / spec["gamma_b"]
            v = spec["k"] * np.where(g <= spec["gamma_b"], x ** -spec["p1"], x ** -spec["p2"]) * np.exp(-g / spec["gamma_c"])
        elif t == "Interpolated":
            lg = np.log10(np.clip(g, spec["gamma_min"], spec["gamma_max"]))
            v = spec["norm"] * 10 ** spec["spline"](lg)
        else:
            raise KeyError(t)
    return np.where(inside, v, 0.0)


def dlnn_dlng(spec, gamma):
    """logarithmic slope of the documented law"""
    g = np.asarray(gamma, float)
    t = spec["type"]
    if t == "PowerLaw":
        return np.full_like(g, -spec["p"])
    if t == "BrokenPowerLaw":
        return np.where(g <= spec["gamma_b"], -spec["p1"], -spec["p2"])
    if t == "LogParabola":
        return -(spec["p"] + 2 * spec["q"] * np.log10(g / spec["gamma_0"]))
    if t == "ExpCutoffPowerLaw":
        return -spec["p"] - g / spec["gamma_c"]
    if t == "ExpCutoffBrokenPowerLaw":
        return np.where(g <= spec["gamma_b"], -spec["p1"], -spec["p2"]) - g / spec["gamma_c"]
    if t == "Interpolated":
        return spec["spline"].derivative()(np.log10(g))
    raise KeyError(t)


def ssa_of(spec, gamma):
    """gamma^2 d/dgamma (n / gamma^2) = n/gamma (dln n/dln gamma - 2)"""
    g = np.asarray(gamma, float)
    n = n_of(spec, g)
    out = np.zeros_like(g)
    ins = n != 0
    out[ins] = n[ins] / g[ins] * (dlnn_dlng(spec, g[ins]) - 2)
    return out


# ----------------------------------------------------------------- synchrotron
def R(x):
    """Aharonian et al. 2010, Eq. D7"""
    x13 = np.cbrt(x)
    return (1.808 * x13 / np.sqrt(1 + 3.4 * x13**2)
            * (1 + 2.21 * x13**2 + 0.347 * x13**4) / (1 + 1.353 * x13**2 + 0.217 * x13**4)
            * np.exp(-x))


def eps_prime(nu, z=0.0, delta=1.0, m=ME):
    return H * nu * (1 + z) / (delta * m * C**2)


def synch_power(B, eps, gamma, m=ME):
    """per unit dimensionless photon energy and unit time, divided by eps: sqrt(3) e^3 B R(x) / h"""
    nu = eps * m * C**2 / H
    nu_c = 3 * E * B * gamma**2 / (4 * np.pi * m * C)
    return np.sqrt(3) * E**3 * B / H * R(nu / nu_c)


def synch_sed(nu, z, d_L, delta, B, R_b, spec, gamma, integ=trapz, m=ME, ssa=False):
    nu = np.atleast_1d(np.asarray(nu, float))
    eps = eps_prime(nu, z, delta, m)
    V = 4 / 3 * np.pi * R_b**3
    Ne = V * n_of(spec, gamma)
    I = integ(Ne[:, None] * synch_power(B, eps[None, :], gamma[:, None], m), gamma)
    sed = delta**4 / (4 * np.pi * d_L**2) * eps * I
    if ssa:
        sed = sed * attenuation(tau_ssa(nu, z, delta, B, R_b, spec, gamma, integ))
    return sed


def tau_ssa(nu, z, delta, B, R_b, spec, gamma, integ=trapz):
    nu = np.atleast_1d(np.asarray(nu, float))
    eps = eps_prime(nu, z, delta)
    S = ssa_of(spec, gamma)
    I = integ(S[:, None] * synch_power(B, eps[None, :], gamma[:, None]), gamma)
    lam = H / (ME * C)
    kappa = -1 / (8 * np.pi * ME * eps**2) * (lam / C) ** 3 * I
    return 2 * kappa * R_b


def attenuation(tau):
    """3 u(tau)/tau of a homogeneous sphere; 1 for a transparent one"""
    tau = np.asarray(tau, float)
    out = np.ones_like(tau)
    thick = tau > 0.05
    t = tau[thick]
    out[thick] = 3 / t * (0.5 + np.exp(-t) / t - (1 - np.exp(-t)) / t**2)
    s = tau[~thick]  # series: 1 - 3/8 t + t^2/10 - t^3/48 + t^4/280
    out[~thick] = 1 - 3 / 8 * s + s**2 / 10 - s**3 / 48 + s**4 / 280
    return np.where(tau < 1e-3, 1.0, out)  # transparent below this, to 4e-4


def synch_delta_sed(nu, z, d_L, delta, B, R_b, spec):
    nu = np.atleast_1d(np.asarray(nu, float))
    eps = eps_prime(nu, z, delta)
    g = np.sqrt(eps / (B / 4.414e13))
    UB = B**2 / (8 * np.pi)
    V = 4 / 3 * np.pi * R_b**3
    return delta**4 / (6 * np.pi * d_L**2) * C * SIGMA_T * UB * g**3 * V * n_of(spec, g)


# -------------------------------------------------------------------- Compton
def F_c(q, Ge):
    with np.errstate(all="ignore"):
        return 2 * q * np.log(q) + (1 + 2 * q) * (1 - q) + 0.5 * (Ge * q) ** 2 / (1 + Ge * q) * (1 - q)


def iso_kernel(g, eps, eps_s):
    with np.errstate(all="ignore"):
        Ge = 4 * g * eps
        q = (eps_s / g) / (Ge * (1 - eps_s / g))
        ok = (q >= 1 / (4 * g**2)) & (q <= 1)
        return np.where(ok, F_c(np.where(ok, q, 0.5), Ge), 0.0)


def ssc_sed(nu, z, d_L, delta, B, R_b, spec, gamma, integ=trapz, ssa=False, nu_syn=None):
    nu = np.atleast_1d(np.asarray(nu, float))
    nu_syn = np.logspace(5, 30, 200) if nu_syn is None else nu_syn
    eps = eps_prime(nu_syn, z, delta)
    eps_s = eps_prime(nu, z, delta)
    syn = synch_sed(nu_syn, z, d_L, delta, B, R_b, spec, gamma, integ, ssa=ssa)
    u_syn = u_synch_diff(R_b, d_L, delta, eps, syn)
    Ne = 4 / 3 * np.pi * R_b**3 * n_of(spec, gamma)
    out = np.empty(nu.size)
    for i, es in enumerate(eps_s):
        k = iso_kernel(gamma[:, None], eps[None, :], es)
        I1 = integ((Ne / gamma**2)[:, None] * k * (u_syn / eps**2)[None, :], gamma)
        out[i] = 0.75 * C * SIGMA_T * es**2 * integ(I1, eps)
    return delta**4 / (4 * np.pi * d_L**2) * out


def u_synch_diff(R_b, d_L, delta, eps, sed):
    return 0.75 * 3 * d_L**2 * sed / (C * R_b**2 * delta**4 * eps)


def cospsi(mu_s, mu, phi):
    return mu * mu_s + np.sqrt(np.clip(1 - mu**2, 0, None)) * np.sqrt(np.clip(1 - mu_s**2, 0, None)) * np.cos(phi)


def xi_kernel(g, eps_s, eps, cosp):
    """Dermer 2009 Eq. 26-27, head-on approximation in the source frame"""
    with np.errstate(all="ignore"):
        om = 1 - cosp
        y = 1 - eps_s / g
        eb = g * eps * om
        gmin = eps_s / 2 * (1 + np.sqrt(1 + 2 / (eps * eps_s * om)))
        v = y + 1 / y - 2 * eps_s / (g * eb * y) + (eps_s / (g * eb * y)) ** 2
        return np.where((om > 0) & (g >= gmin), v, 0.0)


def _Ng(spec, gamma, delta, R_b):
    return 4 / 3 * np.pi * R_b**3 * n_of(spec, gamma / delta) / gamma**2


def ec_iso(nu, z, d_L, delta, mu_s, R_b, eps0, u0, spec, gamma, mu, phi, integ=trapz):
    nu = np.atleast_1d(np.asarray(nu, float))
    w = _Ng(spec, gamma, delta, R_b)
    cp = cospsi(mu_s, mu[:, None], phi[None, :])
    out = np.empty(nu.size)
    for i, es in enumerate(eps_prime(nu, z)):
        k = xi_kernel(gamma[:, None, None], es, eps0, cp[None])
        Ig = integ(w[:, None, None] * k, gamma)
        out[i] = es**2 * trapz(trapz(Ig, mu), phi)
    return 3 * C * SIGMA_T * u0 * delta**3 / (2**7 * np.pi**2 * d_L**2 * eps0**2) * out


def ec_ps(nu, z, d_L, delta, mu_s, R_b, eps0, L0, r, spec, gamma, integ=trapz):
    nu = np.atleast_1d(np.asarray(nu, float))
    w = _Ng(spec, gamma, delta, R_b)
    out = np.empty(nu.size)
    for i, es in enumerate(eps_prime(nu, z)):
        out[i] = es**2 * integ(w * xi_kernel(gamma, es, eps0, mu_s), gamma)
    return 3 * SIGMA_T * L0 * delta**3 / (2**7 * np.pi**2 * d_L**2 * r**2 * eps0**2) * out


def R_g(M):
    return G * M / C**2


def disk_eps(L, M, eta, Rt):
    M8 = M / (1e8 * MSUN)
    lE = L / (1.26e46 * M8)
    return 2.7e-4 * (lE / (M8 * eta)) ** 0.25 * Rt**-0.75


def disk_mu(Rin_t, Rout_t, r_t, size=100):
    return np.linspace(1 / np.sqrt(1 + (Rout_t / r_t) ** 2), 1 / np.sqrt(1 + (Rin_t / r_t) ** 2), size)


def disk_noise(r, R):
    """rounding of 1 - sqrt(R_in / R) when R comes from the cosine of the angle under which R is seen from r"""
    return 2e-15 * (1 + (r / R) ** 2)


def ec_disk(nu, z, d_L, delta, mu_s, R_b, M, L, eta, Rin, Rout, r, spec, gamma, mu_size, phi, integ=trapz, noise=False):
    """noise: with the rounding of the radius recovered from a cosine close to one, which decides the
    sign of the (null) emission of the inner edge"""
    nu = np.atleast_1d(np.asarray(nu, float))
    rg = R_g(M)
    rt, ri, ro = r / rg, Rin / rg, Rout / rg
    mu = disk_mu(ri, ro, rt, mu_size)
    Rt = rt * np.sqrt(mu**-2 - 1)
    eps = disk_eps(L, M, eta, Rt)
    ph = np.maximum(1 - np.sqrt(ri / Rt), 0) + (disk_noise(rt, Rt) if noise else 0)
    w = _Ng(spec, gamma, delta, R_b)
    cp = cospsi(mu_s, mu[:, None], phi[None, :])
    ang = ph / eps**2 / mu / (mu**-2 - 1) ** 1.5
    mdot = L / (eta * C**2)
    out = np.empty(nu.size)
    for i, es in enumerate(eps_prime(nu, z)):
        k = xi_kernel(gamma[:, None, None], es, eps[None, :, None], cp[None])
        Ig = integ(w[:, None, None] * k * ang[None, :, None], gamma)
        out[i] = es**2 * trapz(trapz(Ig, mu), phi)
    return 9 * SIGMA_T * G * M * mdot * delta**3 / (2**9 * np.pi**3 * d_L**2 * r**3) * out


def ec_blr(nu, z, d_L, delta, mu_s, R_b, L, xi, eps_l, R_l, r, spec, gamma, mu, phi, integ=trapz):
    nu = np.atleast_1d(np.asarray(nu, float))
    w = _Ng(spec, gamma, delta, R_b)
    # photon leaves (R_l sin, R_l mu) and reaches (0, r): direction cosine along the axis
    x2 = R_l**2 + r**2 - 2 * r * R_l * mu
    mu_star = (r - R_l * mu) / np.sqrt(x2)
    cp = cospsi(mu_s, mu_star[:, None], phi[None, :])
    out = np.empty(nu.size)
    for i, es in enumerate(eps_prime(nu, z)):
        k = xi_kernel(gamma[:, None, None], es, eps_l, cp[None])
        Ig = integ(w[:, None, None] * k / x2[None, :, None], gamma)
        out[i] = es**2 * trapz(trapz(Ig, mu), phi)
    return 3 * SIGMA_T * xi * L * delta**3 / (2**9 * np.pi**3 * d_L**2 * eps_l**2) * out


def ec_dt(nu, z, d_L, delta, mu_s, R_b, L, xi, eps_d, R_d, r, spec, gamma, phi, integ=trapz):
    nu = np.atleast_1d(np.asarray(nu, float))
    w = _Ng(spec, gamma, delta, R_b)
    x2 = R_d**2 + r**2
    mu = r / np.sqrt(x2)
    cp = cospsi(mu_s, mu, phi)
    out = np.empty(nu.size)
    for i, es in enumerate(eps_prime(nu, z)):
        k = xi_kernel(gamma[:, None], es, eps_d, cp[None])
        out[i] = es**2 * trapz(integ(w[:, None] * k, gamma), phi)
    return 3 * SIGMA_T * xi * L * delta**3 / (2**8 * np.pi**3 * d_L**2 * x2 * eps_d**2) * out


# ------------------------------------------------------------------ absorption
def sigma_gg(s):
    s = np.asarray(s, float)
    out = np.zeros_like(s)
    ok = s > 1
    b = np.sqrt(1 - 1 / s[ok])
    # (1+b)/(1-b) = s (1+b)^2, free of cancellation
    out[ok] = 3 / 16 * SIGMA_T / s[ok] * ((3 - b**4) * np.log(s[ok] * (1 + b) ** 2) - 2 * b * (2 - b**2))
    return out




def tau_ps(nu, z, mu_s, eps0, L0, r, u_size=100):
    nu = np.atleast_1d(nu)
    uu = np.logspace(-5, 5, u_size) * r
    sn = np.sqrt(max(0.0, 1 - mu_s**2))
    px, pz = uu * sn, r + uu * mu_s
    x = np.hypot(px, pz)
    cp = (px * sn + pz * mu_s) / x
    e1 = eps_prime(nu, z)
    # 1 - cos(psi) without cancellation: |d x g|^2 = (r sin)^2 / x^2
    s2 = (r * sn / x) ** 2
    om = np.where(cp > 0, s2 / (1 + cp), 1 - cp)
    s = e1[None] * eps0 * om[:, None] / 2
    I = trapz((om / x**2)[:, None] * sigma_gg(s), uu)
    return L0 / (4 * np.pi * eps0 * ME * C**3) * I


def tau_disk(nu, z, mu_s, M, L, eta, Rin, Rout, r, R_size, l_size, phi):
    nu = np.atleast_1d(nu)
    rg = R_g(M)
    rt = r / rg
    Rt = np.linspace(Rin / rg, Rout / rg, R_size)
    lt = np.logspace(0, 5, l_size) * rt
    eps = disk_eps(L, M, eta, Rt)
    ph = 1 - np.sqrt(Rin / rg / Rt)
    mu = lt[None, :] / np.hypot(lt[None, :], Rt[:, None])  # (R, l)
    out = np.empty(nu.size)
    for i, e1 in enumerate(eps_prime(nu, z)):
        cp = cospsi(mu_s, mu[:, None, :], phi[None, :, None])
        s = eps[:, None, None] * e1 * (1 - cp) / 2
        w = 1 / lt**2 / Rt[:, None] ** 2 / (1 + Rt[:, None] ** 2 / lt**2) ** 1.5 * (ph / eps)[:, None]
        I = w[:, None, :] * sigma_gg(s) * (1 - cp)
        out[i] = trapz(trapz(trapz(I, Rt), phi), lt)
    return 3 * L / ((4 * np.pi) ** 2 * eta * ME * C**3 * rg) * out


def _shell_I(e1, eps_l, R_l, pos, ghat, mu, phi):
    """integrand (mu, phi, path) of the shell opacity from explicit 3-vectors"""
    sn = np.sqrt(np.clip(1 - mu**2, 0, None))
    sx = (R_l * sn[:, None] * np.cos(phi)[None, :])[:, :, None]
    sy = (R_l * sn[:, None] * np.sin(phi)[None, :])[:, :, None]
    sz = (R_l * mu[:, None] * np.ones_like(phi)[None, :])[:, :, None]
    dx, dy, dz = pos[0] - sx, pos[1] - sy, pos[2] - sz
    x2 = dx**2 + dy**2 + dz**2
    cp = (dx * ghat[0] + dy * ghat[1] + dz * ghat[2]) / np.sqrt(x2)
    return (1 - cp) / x2 * sigma_gg(e1 * eps_l * (1 - cp) / 2)


def tau_blr_mu_s(nu, z, mu_s, L, xi, eps_l, R_l, r, u_size, mu, phi):
    """gamma ray flying along mu_s, started on the axis at r"""
    nu = np.atleast_1d(nu)
    uu = np.logspace(-5, 5, u_size) * r
    sn = np.sqrt(max(0.0, 1 - mu_s**2))
    pos = (uu * sn, np.zeros_like(uu), r + uu * mu_s)
    out = np.empty(nu.size)
    for i, e1 in enumerate(eps_prime(nu, z)):
        I = _shell_I(e1, eps_l, R_l, pos, (sn, 0.0, mu_s), mu, phi)
        out[i] = trapz(trapz(trapz(I, mu), phi), uu)
    return L * xi / ((4 * np.pi) ** 2 * eps_l * ME * C**3) * out


def tau_blr(nu, z, mu_s, L, xi, eps_l, R_l, r, l_size, mu, phi):
    """on-axis path l >= r (direction mu_s enters the collision angle only)"""
    nu = np.atleast_1d(nu)
    l = np.logspace(0, 5, l_size) * r
    x2 = R_l**2 + l[None, :] ** 2 - 2 * l[None, :] * R_l * mu[:, None]
    ms = (l[None, :] - R_l * mu[:, None]) / np.sqrt(x2)
    cp = cospsi(mu_s, ms[:, None, :], phi[None, :, None])
    out = np.empty(nu.size)
    for i, e1 in enumerate(eps_prime(nu, z)):
        I = (1 - cp) / x2[:, None, :] * sigma_gg(e1 * eps_l * (1 - cp) / 2)
        out[i] = trapz(trapz(trapz(I, mu), phi), l)
    return L * xi / ((4 * np.pi) ** 2 * eps_l * ME * C**3) * out


def tau_dt_mu_s(nu, z, mu_s, L, xi, eps_d, R_d, r, u_size, phi):
    nu = np.atleast_1d(nu)
    uu = np.logspace(-5, 5, u_size) * r
    sn = np.sqrt(max(0.0, 1 - mu_s**2))
    dx = (uu * sn)[None, :] - R_d * np.cos(phi)[:, None]
    dy = -R_d * np.sin(phi)[:, None] * np.ones_like(uu)[None, :]
    dz = (r + uu * mu_s)[None, :] * np.ones_like(phi)[:, None]
    x2 = dx**2 + dy**2 + dz**2
    cp = (dx * sn + dz * mu_s) / np.sqrt(x2)
    out = np.empty(nu.size)
    for i, e1 in enumerate(eps_prime(nu, z)):
        I = (1 - cp) / x2 * sigma_gg(e1 * eps_d * (1 - cp) / 2)
        out[i] = trapz(trapz(I, phi), uu)
    return L * xi / (8 * np.pi**2 * eps_d * ME * C**3) * out


def tau_dt(nu, z, mu_s, L, xi, eps_d, R_d, r, l_size, phi):
    nu = np.atleast_1d(nu)
    l = np.logspace(0, 5, l_size) * r
    x2 = R_d**2 + l**2
    cp = cospsi(mu_s, (l / np.sqrt(x2))[None, :], phi[:, None])
    out = np.empty(nu.size)
    for i, e1 in enumerate(eps_prime(nu, z)):
        I = (1 - cp) / x2[None, :] * sigma_gg(e1 * eps_d * (1 - cp) / 2)
        out[i] = trapz(trapz(I, phi), l)
    return L * xi / (8 * np.pi**2 * eps_d * ME * C**3) * out


def tau_synch(nu, z, d_L, delta, B, R_b, spec, gamma, nu_s_size=200, margin=1e-2):
    """opacity of the (self-absorbed) synchrotron photons of a blob, path 2 R_b"""
    nu = np.atleast_1d(nu)
    nuB = E * B / (2 * np.pi * ME * C)
    lo = nuB * spec["gamma_min"] ** 2 * margin
    hi = nuB * spec["gamma_max"] ** 2 * 1e2
    nu_s = np.logspace(np.log10(lo), np.log10(hi), nu_s_size)
    eps = H * nu_s / MEC2
    sed = synch_sed(nu_s * delta / (1 + z), z, d_L, delta, B, R_b, spec, gamma, trapz, ssa=True)
    n = u_synch_diff(R_b, d_L, delta, eps, sed) / (eps * MEC2)
    e1 = eps_prime(nu, z, delta)
    return 2 * R_b * trapz(n[:, None] * sigma_gg(eps[:, None] * e1[None] / 2), eps)


# --------------------------------------------------------------------- thermal
def planck(nu, T):
    x = H * nu / (KB * T)
    with np.errstate(all="ignore"):
        return 2 * H * nu**3 / C**2 / np.expm1(x)


def disk_T(Rr, M, mdot, Rin):
    ph = 1 - np.sqrt(Rin / Rr)
    return (3 * G * M * mdot * ph / (8 * np.pi * Rr**3 * SIGMA_SB)) ** 0.25


# ---------------------------------------------------------------- cosmology
def d_L_cm(z, cosmology=None):
    from astropy.cosmology import default_cosmology
    cosmo = cosmology or default_cosmology.get()
    return cosmo.luminosity_distance(z).to_value("cm")
