"""Independent reference models (oracles).  Nothing here imports elli.

Conventions shared with the code under test (they are observable and documented):
time dependence exp(-i w t), eps = (n + i k)^2, rho = tan(psi) exp(-i delta),
Jones matrices ordered [[pp, ps], [sp, ss]], x-z plane of incidence, angles in degrees.
"""

import numpy as np


# ----------------------------------------------------------------------------
# isotropic multilayer: admittance (impedance) recursion, one wavelength at a time
def _kz(eps, kx):
    """z component (units k0) of the forward wave: Im > 0, or Re > 0 when real."""
    q = np.sqrt(complex(eps) - complex(kx) ** 2)
    if abs(q.imag) > 1e-12 * max(1.0, abs(q)):
        return q if q.imag > 0 else -q
    return q if q.real >= 0 else -q


def iso_stack(eps0, layers, eps_s, lbda, theta):
    """Reference for an isotropic stack.

    eps0, eps_s: permittivities, layers: [(d, eps)], lbda: wavelength, theta in degrees.
    Returns dict rp rs tp ts Rp Rs Tp Ts (all scalars).
    Amplitudes of p are referred to |E| (not E_x), as in the Jones convention.
    """
    n0 = np.sqrt(complex(eps0))
    kx = n0 * np.sin(np.deg2rad(theta))
    q0 = _kz(eps0, kx)
    qs = _kz(eps_s, kx)
    res = {}
    for pol in "ps":
        # tangential field ratio  H = Y E,  p: (Ex, Hy) Y = eps/q ; s: (Ey, -Hx) Y = q
        Y = lambda eps, q: (complex(eps) / q) if pol == "p" else q
        y = Y(eps_s, qs)  # admittance looking into the exit
        t = 1.0 + 0j  # tangential E at exit / tangential E here
        for d, eps in reversed(layers):
            q = _kz(eps, kx)
            yl = Y(eps, q)
            rho = (yl - y) / (yl + y)  # E_back/E_fwd at the bottom of the layer
            ph = np.exp(2j * np.pi * q * d / lbda)
            g = rho * ph * ph  # at the top
            t = t * ph * (1 + rho) / (1 + g)
            y = yl * (1 - g) / (1 + g)
        y0 = Y(eps0, q0)
        r_t = (y0 - y) / (y0 + y)  # tangential
        t_t = t * (1 + r_t)
        if pol == "s":
            r, tr = r_t, t_t
            T = abs(t_t) ** 2 * (Y(eps_s, qs)).real / y0.real
        else:
            r = -r_t  # sign convention: r_p refers to H (r_p = r_s up to sign at 0 deg)
            ns = np.sqrt(complex(eps_s))
            tr = t_t * (q0 / n0) / (qs / ns)
            T = abs(t_t) ** 2 * (Y(eps_s, qs)).real / y0.real
        res["r" + pol], res["t" + pol] = r, tr
        res["R" + pol], res["T" + pol] = abs(r) ** 2, T
    return res


# ----------------------------------------------------------------------------
# general 4x4: eigenmode / reflection-operator (scattering) recursion
def berreman(eps, kx):
    """d/dz (Ex, Ey, Hx, Hy) = i k0 M (...) from Maxwell's curl equations."""
    e = eps
    M = np.zeros((4, 4), complex)
    # Ez = (-kx Hy - ezx Ex - ezy Ey)/ezz ; Hz = kx Ey
    ez = np.array([-e[2, 0], -e[2, 1], 0, -kx]) / e[2, 2]
    ex_, ey_, hx_, hy_ = np.eye(4)
    dx = e[0, 0] * ex_ + e[0, 1] * ey_ + e[0, 2] * ez
    dy = e[1, 0] * ex_ + e[1, 1] * ey_ + e[1, 2] * ez
    M[0] = hy_ + kx * ez  # dEx/dz
    M[1] = -hx_  # dEy/dz
    M[2] = -dy + kx * (kx * ey_)  # dHx/dz = i kx Hz - i Dy
    M[3] = dx  # dHy/dz
    return M


def _modes(eps, kx):
    """Returns (q+, W+, q-, W-): two forward, two backward modes."""
    iso = (
        np.allclose(eps, eps[0, 0] * np.eye(3), rtol=0, atol=1e-13 * abs(eps[0, 0]))
    )
    if iso:
        q = _kz(eps[0, 0], kx)
        e = eps[0, 0]
        Wp = np.array([[1, 0], [0, 1], [0, -q], [e / q, 0]], complex)
        Wm = np.array([[1, 0], [0, 1], [0, q], [-e / q, 0]], complex)
        return np.array([q, q]), Wp, np.array([-q, -q]), Wm
    q, W = np.linalg.eig(berreman(eps, kx))
    flux = np.real(W[0] * W[3].conj() - W[1] * W[2].conj())
    score = np.where(np.abs(q.imag) > 1e-9 * np.abs(q).max(), q.imag, 0)
    fwd = [i for i in range(4) if score[i] > 0]
    bwd = [i for i in range(4) if score[i] < 0]
    rest = [i for i in range(4) if score[i] == 0]
    rest.sort(key=lambda i: -flux[i])
    while len(fwd) < 2:
        fwd.append(rest.pop(0))
    bwd += rest
    return q[fwd], W[:, fwd], q[bwd], W[:, bwd]


def aniso_stack(eps0, layers, eps_s, lbda, theta):
    """Reference for a general stack.

    eps0 scalar, layers [(d, 3x3)], eps_s 3x3 (or scalar).
    Returns dict r (2x2 [[pp,ps],[sp,ss]]), R (|r|^2), and, for every incident
    polarization, the transmitted z-flux Tflux = (p, s); t only for isotropic exit.
    """
    n0 = np.sqrt(complex(eps0))
    kx = n0 * np.sin(np.deg2rad(theta))
    eps_s = np.asarray(eps_s, complex)
    if eps_s.ndim == 0:
        eps_s = eps_s * np.eye(3)
    _, Wp, _, _ = _modes(eps_s, kx)
    Y = Wp[2:] @ np.linalg.inv(Wp[:2])  # H_t = Y E_t
    Yx = Y
    T = np.eye(2, dtype=complex)  # E_t(exit) = T E_t(here)
    for d, eps in reversed(layers):
        eps = np.asarray(eps, complex)
        if eps.ndim == 0:
            eps = eps * np.eye(3)
        qp, A, qm, B = _modes(eps, kx)
        # at bottom: E = A1 a + B1 b, H = A2 a + B2 b, H = Y E
        S = -np.linalg.solve(B[2:] - Y @ B[:2], A[2:] - Y @ A[:2])  # b = S a
        Pp = np.diag(np.exp(2j * np.pi * qp * d / lbda))
        Pm = np.diag(np.exp(-2j * np.pi * qm * d / lbda))
        G = Pm @ S @ Pp  # at top
        Etop = A[:2] + B[:2] @ G
        Htop = A[2:] + B[2:] @ G
        Ebot = (A[:2] + B[:2] @ S) @ Pp
        inv = np.linalg.inv(Etop)
        T = T @ Ebot @ inv
        Y = Htop @ inv
    q0 = _kz(eps0, kx)
    c0 = q0 / n0
    # incident p: Ex = c0, Hy = n0 ; s: Ey = 1, Hx = -q0
    Ei = np.array([[c0, 0], [0, 1]], complex)
    Hi = np.array([[0, -q0], [n0, 0]], complex)
    # reflected p: Ex = -c0, Hy = n0 ; s: Ey = 1, Hx = +q0
    Er = np.array([[-c0, 0], [0, 1]], complex)
    Hr = np.array([[0, q0], [n0, 0]], complex)
    r = -np.linalg.solve(Hr - Y @ Er, Hi - Y @ Ei)
    Et = T @ (Ei + Er @ r)
    Ht = Yx @ Et
    flux = np.real(Et[0] * Ht[1].conj() - Et[1] * Ht[0].conj())
    inc = np.real(
        Ei[0] * Hi[1].conj() - Ei[1] * Hi[0].conj()
    )
    res = {"r": r, "R": np.abs(r) ** 2, "Tflux": flux / inc}
    if np.allclose(eps_s, eps_s[0, 0] * np.eye(3)):
        qs = _kz(eps_s[0, 0], kx)
        cs = qs / np.sqrt(complex(eps_s[0, 0]))
        t = np.array([[Et[0, 0] / cs, Et[0, 1] / cs], [Et[1, 0], Et[1, 1]]])
        res["t"] = t
        # power carried into each exit polarization
        wp = np.real(Et[0] * Ht[1].conj())
        ws = np.real(-Et[1] * Ht[0].conj())
        res["T"] = np.array([wp, ws]) / inc
    return res


# ----------------------------------------------------------------------------
# rotations (column vectors, right handed)
def rot(axis, deg):
    axis = np.asarray(axis, float)
    a = np.deg2rad(deg)
    x, y, z = axis / np.linalg.norm(axis)
    c, s = np.cos(a), np.sin(a)
    C = 1 - c
    return np.array(
        [
            [c + x * x * C, x * y * C - z * s, x * z * C + y * s],
            [y * x * C + z * s, c + y * y * C, y * z * C - x * s],
            [z * x * C - y * s, z * y * C + x * s, c + z * z * C],
        ]
    )


def fold_delta(delta, lower, upper):
    """Delta (deg) folded into the range: 360 ranges are a shift, (0,180) folds the sign."""
    d = np.mod(np.asarray(delta, float), 360.0)
    if (lower, upper) == (0, 180):
        return np.where(d > 180, 360 - d, d)
    return np.mod(d - lower, 360) + lower


def ang_diff(a, b, period=360.0):
    return np.abs((np.asarray(a) - np.asarray(b) + period / 2) % period - period / 2)


def close(a, b, rtol=1e-9, atol=1e-10):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def maxerr(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} != {b.shape}"
    if a.size == 0:
        return 0.0
    return float(np.max(np.abs(a - b)))


# ----------------------------------------------------------------------------
# vectorised variant of iso_stack: every eps is an array over the wavelengths
def _kz_v(eps, kx):
    q = np.sqrt(eps + 0j - (kx + 0j) ** 2)
    lossy = np.abs(q.imag) > 1e-12 * np.maximum(1.0, np.abs(q))
    flip = np.where(lossy, q.imag < 0, q.real < 0)
    return np.where(flip, -q, q)


def iso_stack_v(eps0, layers, eps_s, lbda, theta):
    """Like iso_stack for arrays of wavelengths.  All eps broadcast against lbda."""
    lbda = np.atleast_1d(np.asarray(lbda, float))
    one = np.ones_like(lbda)
    eps0, eps_s = np.asarray(eps0) * one + 0j, np.asarray(eps_s) * one + 0j
    n0, ns = np.sqrt(eps0), np.sqrt(eps_s)
    kx = n0 * np.sin(np.deg2rad(theta))
    q0, qs = _kz_v(eps0, kx), _kz_v(eps_s, kx)
    lay = []
    for d, eps in reversed(layers):
        eps = np.asarray(eps) * one + 0j
        q = _kz_v(eps, kx)
        lay.append((eps, q, np.exp(2j * np.pi * q * d / lbda)))
    res = {}
    for pol in "ps":
        adm = (lambda e, q: e / q) if pol == "p" else (lambda e, q: q)
        y = ys = adm(eps_s, qs)
        t = one + 0j
        for eps, q, ph in lay:
            yl = adm(eps, q)
            rho = (yl - y) / (yl + y)
            g = rho * ph * ph
            t = t * ph * (1 + rho) / (1 + g)
            y = yl * (1 - g) / (1 + g)
        y0 = adm(eps0, q0)
        r_t = (y0 - y) / (y0 + y)
        t_t = t * (1 + r_t)
        res["T" + pol] = np.abs(t_t) ** 2 * ys.real / y0.real
        if pol == "s":
            res["rs"], res["ts"] = r_t, t_t
        else:
            res["rp"], res["tp"] = -r_t, t_t * (q0 / n0) / (qs / ns)
    res["Rp"], res["Rs"] = np.abs(res["rp"]) ** 2, np.abs(res["rs"]) ** 2
    return res
