"""Independent float64 reference models (oracles) for DRDMannTurb.

Nothing here imports the code under test.  Formulas come from the papers the package cites (Mann 1994; Keith,
Khristenko & Wohlmuth 2021; Syed & Mann 2024; Kaimal 1972) and from the package's own documentation.
"""

import numpy as np
from scipy.special import beta as _beta
from scipy.special import betainc as _betainc

# --------------------------------------------------------------------------- eddy lifetimes


def mann_tau(x):
    """(kL)^(-2/3) / sqrt(2F1(1/3, 17/6; 4/3; -(kL)^-2)), through the incomplete beta function.

    2F1(1/3, 17/6; 4/3; -x^-2) = (1/3) x^(2/3) B(1/3, 5/2) I_{1/(1+x^2)}(1/3, 5/2)   (Euler integral).
    """
    x = np.asarray(x, dtype=float)
    with np.errstate(divide="ignore", invalid="ignore"):
        f = x ** (2 / 3) / 3 * _beta(1 / 3, 5 / 2) * _betainc(1 / 3, 5 / 2, 1 / (1 + x * x))
        return x ** (-2 / 3) / np.sqrt(f)


def mann_approx_coeffs():
    """Least-squares line of log tau against log kL on logspace(-3, 3, 50)."""
    x = np.log(np.logspace(-3, 3, 50))
    y = np.log(mann_tau(np.exp(x)))
    a, b = np.polyfit(x, y, 1)
    return a, b


def taunet(k, weights, nu, acts=None):
    """tau(k) = |a|^(nu - 2/3) / (1 + |a|^2)^(nu/2), a = |k| + NN(|k|), bias-free MLP with ReLU."""
    x = np.abs(np.asarray(k, dtype=float))
    h = x
    for i, w in enumerate(weights[:-1]):
        h = h @ np.asarray(w, float).T
        h = np.maximum(h, 0) if acts is None else acts[i](h)
    a = x + h @ np.asarray(weights[-1], float).T
    m = np.sqrt((a * a).sum(-1))
    with np.errstate(divide="ignore", invalid="ignore"):
        return m ** (nu - 2 / 3) / (1 + m * m) ** (nu / 2)


# --------------------------------------------------------------------------- energy spectra and the RDT tensor


def e_vk(kL):
    """Von Karman energy spectrum shape k^4 / (1 + k^2)^(17/6)."""
    return kL**4 / (1 + kL * kL) ** (17 / 6)


def e_pq(kL, p, q):
    return kL**p / (1 + kL * kL) ** q


def rdt_D(k1, k2, k3, beta):
    """Zeta coefficients of the rapid-distortion operator (Mann 1994, eq. 3.15-3.20), with its k1 -> 0 limit."""
    k30 = k3 + beta * k1
    s = k1 * k1 + k2 * k2
    kk = s + k3 * k3
    kk0 = s + k30 * k30
    with np.errstate(divide="ignore", invalid="ignore"):
        c1 = beta * k1**2 * (kk0 - 2 * k30**2 + beta * k1 * k30) / (kk * s)
        ang = np.arctan2(beta * k1 * np.sqrt(s), kk0 - k30 * k1 * beta)
        c2_over_k1 = k2 * kk0 / s**1.5 * ang / k1
        z1 = c1 - k2 * c2_over_k1
        z2 = k2 * c1 / k1 + c2_over_k1 * k1
        z3 = kk0 / kk
    z1 = np.where(k1 == 0, -beta, z1)
    z2 = np.where(k1 == 0, 0.0, z2)
    return k30, kk0, z1, z2, z3


def rdt_phi(k1, k2, k3, beta, energy):
    """Sheared spectral tensor D Phi_iso(k0) D^T, shape (3, 3, ...); zero where k = 0.

    ``energy(k0)`` is the isotropic energy spectrum E(|k0|).
    """
    k1, k2, k3, beta = np.broadcast_arrays(*(np.asarray(a, float) for a in (k1, k2, k3, beta)))
    zero = (k1 == 0) & (k2 == 0) & (k3 == 0)
    beta = np.where(zero, 0.0, beta)
    k30, kk0, z1, z2, z3 = rdt_D(k1, k2, k3, beta)
    k0 = np.array([k1, k2, k30])
    with np.errstate(divide="ignore", invalid="ignore"):
        amp = energy(np.sqrt(kk0)) / (4 * np.pi * kk0)
        iso = np.empty((3, 3) + k1.shape)
        for i in range(3):
            for j in range(3):
                # the diagonal as a sum of squares: 1 - k0i**2 / kk0 cancels where the lifetime is large
                iso[i, j] = amp * (k0[i - 1] ** 2 + k0[i - 2] ** 2 if i == j else -k0[i] * k0[j]) / kk0
    # on the k3 axis (k1 = k2 = 0) the third component carries nothing, whatever the zetas are
    axis = (k1 == 0) & (k2 == 0)
    D = np.zeros((3, 3) + k1.shape)
    D[0, 0] = 1.0
    D[1, 1] = 1.0
    D[0, 2] = np.where(axis, 0.0, z1)
    D[1, 2] = np.where(axis, 0.0, z2)
    D[2, 2] = np.where(axis, 1.0, z3)
    phi = np.einsum("ia...,ab...,jb...->ij...", D, iso, D)
    phi[:, :, zero] = 0.0
    return phi


def rdt_phi_ode(k1, k2, k3, beta, energy, steps=4000):
    """The same tensor by integrating the RDT equations (no closed form): used to validate ``rdt_phi``.

    dZ_j/dt = (2 k_j k_1 / k^2 - delta_j1) Z_3, dk_3/dt = -k_1 from k0 = (k1, k2, k3 + beta k1) over t in [0, beta].
    """
    k1, k2, k3, beta = (np.asarray(a, float) for a in (k1, k2, k3, beta))
    k30 = k3 + beta * k1

    def rhs(t, Z):
        kz = k30 - t * k1
        kk = k1 * k1 + k2 * k2 + kz * kz
        f = 2 * k1 / kk
        out = np.empty_like(Z)
        out[0] = (f * k1 - 1) * Z[2]
        out[1] = f * k2 * Z[2]
        out[2] = f * kz * Z[2]
        return out

    Z = np.zeros((3, 3) + k1.shape)
    for i in range(3):
        Z[i, i] = 1.0
    h = beta / steps
    for n in range(steps):
        t = n * h
        a = rhs(t, Z)
        b = rhs(t + h / 2, Z + h / 2 * a)
        c = rhs(t + h / 2, Z + h / 2 * b)
        d = rhs(t + h, Z + h * c)
        Z = Z + h / 6 * (a + 2 * b + 2 * c + d)
    kk0 = k1 * k1 + k2 * k2 + k30 * k30
    k0 = np.array([k1, k2, k30])
    amp = energy(np.sqrt(kk0)) / (4 * np.pi * kk0)
    iso = np.array([[amp * ((i == j) - k0[i] * k0[j] / kk0) for j in range(3)] for i in range(3)])
    return np.einsum("ia...,ab...,jb...->ij...", Z, iso, Z)


def kernel_energy(E0, L):
    """E(k) = E0 k^(-5/3) (kL)^(17/3) / (1 + (kL)^2)^(17/6)."""
    return lambda k: E0 * L ** (17 / 3) * k**4 / (1 + (k * L) ** 2) ** (17 / 6)


# --------------------------------------------------------------------------- one-point spectra and coherence


def signed_log_grid(p1, p2, n):
    g = np.logspace(p1, p2, n)
    return np.concatenate((-g[::-1], [0.0], g))


def trapz2(f, g2, g3):
    return np.trapezoid(np.trapezoid(f, g3, axis=-1), g2, axis=-1)


COMPONENTS = ((0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1))  # 11, 22, 33, 13, 23, 12


def one_point_spectra(k1, g, tau, L, Gamma, sigma, shape=e_vk):
    """k1 * int int Phi_ij dk2 dk3 by the trapezoidal rule on the signed grid ``g``; order 11, 22, 33, 13, 23, 12.

    ``tau(k)`` maps an (..., 3) array of wave vectors to the dimensionless lifetime (before Gamma).
    Returns (full integral, positive-part integral).
    """
    k1 = np.asarray(k1, float)
    full = np.empty((6, len(k1)))
    pos = np.empty((6, len(k1)))
    K2, K3 = np.meshgrid(g, g, indexing="ij")
    for n, a in enumerate(k1):
        K1 = np.full_like(K2, a)
        beta = Gamma * tau(np.stack([K1, K2, K3], -1))
        phi = rdt_phi(K1, K2, K3, beta, lambda k: sigma * L ** (5 / 3) * shape(k * L))
        for c, (i, j) in enumerate(COMPONENTS):
            full[c, n] = a * trapz2(phi[i, j], g, g)
            pos[c, n] = a * trapz2(np.maximum(phi[i, j], 0), g, g)
    return full, pos


def coherence(k1, seps, g, tau, L, Gamma, sigma, shape=e_vk):
    """|S_ii(r)|^2 / |S_ii(0)|^2, S_ii(r) = int int Phi_ii exp(i k2 r) dk2 dk3 on the signed grid ``g``."""
    out = np.empty((3, len(seps), len(k1)))
    K2, K3 = np.meshgrid(g, g, indexing="ij")
    for n, a in enumerate(np.asarray(k1, float)):
        K1 = np.full_like(K2, a)
        beta = Gamma * tau(np.stack([K1, K2, K3], -1))
        phi = rdt_phi(K1, K2, K3, beta, lambda k: sigma * L ** (5 / 3) * shape(k * L))
        for i in range(3):
            s0 = trapz2(phi[i, i], g, g)
            inner = np.trapezoid(phi[i, i], g, axis=-1)
            for m, r in enumerate(seps):
                out[i, m, n] = abs(np.trapezoid(inner * np.exp(1j * g * r), g)) ** 2 / s0**2
    return out


# --------------------------------------------------------------------------- field generation


def grid_frequencies(shape, lengths):
    """Angular wavenumbers of a periodic grid with ``shape`` points over ``lengths``."""
    return [2 * np.pi / L * np.fft.fftfreq(n) * n for n, L in zip(shape, lengths)]


def mann_kernel(freqs, L, E0, Gamma, sheared=True, tau=None, shape=None):
    """Any square root is fine as an oracle only up to rotation; this is the package's documented factor
    i D_tau(k) sqrt(E/(4 pi)) / k0^2 [k0 x], whose product with its adjoint is ``rdt_phi``."""
    K1, K2, K3 = np.meshgrid(*freqs, indexing="ij")
    kn = np.sqrt(K1**2 + K2**2 + K3**2)
    if sheared:
        with np.errstate(divide="ignore", invalid="ignore"):
            t = mann_tau(kn * L) if tau is None else tau(np.stack([K1, K2, K3], -1))
        beta = np.where(kn == 0, 0.0, Gamma * t)
    else:
        beta = np.zeros_like(kn)
    k30, kk0, z1, z2, z3 = rdt_D(K1, K2, K3, beta)
    axis = (K1 == 0) & (K2 == 0)
    z1 = np.where(axis, 0.0, z1)
    z2 = np.where(axis, 0.0, z2)
    z3 = np.where(axis, 1.0, z3)
    if shape is None:
        c = np.sqrt(E0 * L ** (17 / 3) / (4 * np.pi) / (1 + L * L * kk0) ** (17 / 6))
    else:
        with np.errstate(divide="ignore", invalid="ignore"):
            c = np.sqrt(E0 * L ** (5 / 3) * shape(np.sqrt(kk0) * L) / (4 * np.pi)) / kk0
        c = np.where(kk0 == 0, 0.0, c)
    z = np.zeros_like(c)
    X = np.array([[z, -k30, K2], [k30, z, -K1], [-K2, K1, z]]) * c
    G = np.empty_like(X)
    G[0] = X[0] + z1 * X[2]
    G[1] = X[1] + z2 * X[2]
    G[2] = z3 * X[2]
    return 1j * G


def vector_filter(noise, G, lengths):
    """irfftn(G sqrt(N) rfftn(noise)) / sqrt(volume) for a (n1, n2, n3, 3) noise array."""
    n = noise.shape[:3]
    h = np.stack([np.fft.rfftn(noise[..., c]) for c in range(3)], 0)
    g = G[..., : n[2] // 2 + 1] * np.sqrt(np.prod(n))
    out = np.einsum("kl...,l...->k...", g, h)
    res = np.stack([np.fft.irfftn(out[c], s=n, axes=(0, 1, 2)) for c in range(3)], -1)
    return res / np.sqrt(np.prod(lengths))


# --------------------------------------------------------------------------- mean profiles


def log_profile(z, zref, uref, z0):
    return uref * np.log(z / z0 + 1) / np.log(zref / z0)


def power_profile(z, zref, uref, a):
    return uref * (z / zref) ** a


# --------------------------------------------------------------------------- low-frequency model


def lf_shape(kappa2, L, zi):
    return kappa2**1.5 / ((L**-2 + kappa2) ** (7 / 3) * (1 + kappa2 * zi**2))


def lf_c(sigma2, L, zi):
    """sigma2 / (2 int_0^inf shape dkappa) by trapezoid in log kappa."""
    lo, hi = np.log(1 / L) - 18, np.log(max(1 / L, 1 / zi)) + 18
    x = np.linspace(lo, hi, 40001)
    k = np.exp(x)
    return sigma2 / (2 * np.trapezoid(lf_shape(k * k, L, zi) * k, x))


def lf_kappa2(k1, k2, psi):
    return 2 * ((k1 * np.cos(psi)) ** 2 + (k2 * np.sin(psi)) ** 2)


def lf_fields(noise, dx, dy, sigma2, L, psi, zi):
    """Periodic 2D field from white noise: u1^ = i k2 phi n^, u2^ = -i k1 phi n^."""
    n1, n2 = noise.shape
    k1 = 2 * np.pi * np.fft.fftfreq(n1, dx)[:, None]
    k2 = 2 * np.pi * np.fft.fftfreq(n2, dy)[None, :]
    k = np.sqrt(k1**2 + k2**2)
    E = lf_c(sigma2, L, zi) * lf_shape(lf_kappa2(k1, k2, psi), L, zi)
    with np.errstate(divide="ignore", invalid="ignore"):
        phi = np.sqrt(E / (np.pi * k**3)) * 2 * np.pi / np.sqrt(dx * dy)
    phi[0, 0] = 0
    nh = np.fft.fft2(noise)
    return np.real(np.fft.ifft2(1j * k2 * phi * nh)), np.real(np.fft.ifft2(-1j * k1 * phi * nh))


def lf_one_d(k1, sigma2, L, psi, zi, limit=5.0):
    """F11(k1), F22(k1): int_{-limit}^{limit} E/(pi k) k_{2,1}^2/k^2 dk2 (trapezoid in log k2)."""
    x = np.linspace(np.log(1e-6 * min(abs(k1), 1 / L)), np.log(limit), 60001)
    k2 = np.exp(x)
    E = lf_c(sigma2, L, zi) * lf_shape(lf_kappa2(k1, k2, psi), L, zi)
    k = np.hypot(k1, k2)
    w = E / np.pi / k**3 * k2
    return 2 * np.trapezoid(w * k2**2, x), 2 * np.trapezoid(w * k1**2, x)


# --------------------------------------------------------------------------- synthetic spectra


def kaimal(k1, zref, ustar):
    n = np.asarray(k1, float) * zref / (2 * np.pi)
    out = np.zeros((len(n), 3, 3))
    out[:, 0, 0] = 52.5 * n / (1 + 33 * n) ** (5 / 3)
    out[:, 1, 1] = 8.5 * n / (1 + 9.5 * n) ** (5 / 3)
    out[:, 2, 2] = 1.05 * n / (1 + 5.3 * n ** (5 / 3))
    out[:, 0, 2] = -7 * n / (1 + 9.6 * n) ** (12 / 5)
    return out * ustar**2


def von_karman(k1, L, C):
    k = np.asarray(k1, float)
    d = L**-2 + k * k
    out = np.zeros((len(k), 3, 3))
    out[:, 0, 0] = k * 9 / 55 * C * d ** (-5 / 6)
    out[:, 1, 1] = out[:, 2, 2] = k * 3 / 110 * C * (3 * L**-2 + 8 * k * k) * d ** (-11 / 6)
    return out
