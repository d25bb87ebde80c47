"""C15: spectra of the low-frequency model: estimator, theory, and their agreement."""

import warnings

import numpy as np

from checks import c14
from checks.c14 import quiet_gen
from vf import ref
from vf.work import loguniform

RULE = """A case is one low-frequency configuration with one or more generated fields (or a field put there by hand: single
waves at every wavenumber including the highest, white noise), or one theoretical spectrum over ten decades of
wavenumber.  Oracles: numpy's FFT of the same field summed over the transverse wavenumber; Parseval's identity with the
field's variance; the theoretical integral by a dense logarithmic rule in float64; the ensemble mean of estimates
against the theory."""
ASSUMPTIONS = [
    "theory compared to 5e-3 plus the integrator's absolute tolerance 2e-8 over two half-lines",
    "ensemble means compared within 8 standard errors plus the discretisation of the transverse integral",
]


def config(r, isotropic=True):
    """Atmospheric scales: the theory's default limit of 5 per metre would cut a small facility's spectrum short."""
    return c14.config(r, isotropic, facility=False)


def estimate(u, L1):
    n1, n2 = u.shape
    p = (np.abs(np.fft.fft2(u)) ** 2).sum(1) * L1 / ((n1 * n2) ** 2 * 2 * np.pi)
    return 2 * np.pi * np.arange(1, n1 // 2 + 1) / L1, p[1 : n1 // 2 + 1]


def judge(m, g, c, what):
    L1 = c["L1_factor"] * c["L_2d"]
    before = g.u1.copy(), g.u2.copy()
    k, F1, F2 = g.compute_spectrum()
    m.equal(g.u1, before[0], "the field is not modified")
    for u, F in ((before[0], F1), (before[1], F2)):
        kw, Fw = estimate(u, L1)
        m.near(k, kw, "wavenumbers of the estimate", rtol=1e-9)
        if not m.near(F, Fw, what, rtol=1e-8, atol=1e-12 * Fw.max()):
            return
        # Parseval: twice the one-sided sum (the highest wavenumber once) plus the x-mean part is the mean square
        n1 = u.shape[0]
        dk = 2 * np.pi / L1
        total = dk * (2 * F[: n1 // 2 - 1].sum() + F[n1 // 2 - 1]) + np.mean(u.mean(0) ** 2)
        m.near(np.array(total), np.array(np.mean(u**2)), "Parseval", rtol=1e-8)


def check(m):
    for i in range(m.n(30, 200)):
        name = f"estimate/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        c = config(r, isotropic=bool(r.random() < 0.6))
        with m.case(name, **c):
            g = quiet_gen(c, seed=int(r.integers(1 << 31)))
            for _ in range(2):
                g.generate()
                judge(m, g, c, "estimate of a generated field")
            n1, n2 = g.u1.shape
            # fields put there by hand
            x = np.arange(n1)[:, None] / n1
            y = np.arange(n2)[None, :] / n2
            for j1 in {1, n1 // 2, int(r.integers(1, n1 // 2 + 1))}:
                j2 = int(r.integers(0, n2 // 2))
                g.u1 = np.cos(2 * np.pi * (j1 * x + j2 * y) + 0.3) * np.ones((n1, n2))
                g.u2 = r.normal(0, 1, (n1, n2))
                judge(m, g, c, "estimate of a single wave")

    for i in range(m.n(40, 300)):
        name = f"theory/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        c = config(r)
        with m.case(name, **c):
            g = quiet_gen(c)
            k1 = np.sort(loguniform(r, (0.02 if i % 2 else 1e-5) / c["L_2d"], min(0.5, 3e3 / c["L_2d"]), 5))
            k1[0] = r.choice([k1[0], 1 / c["L_2d"]])
            keep = k1.copy()
            lim = 5.0
            if r.random() < 0.3:
                lim = float(loguniform(r, 20 / min(c["z_i"], c["L_2d"]), 50))
            if lim == 5.0:
                F1, F2 = g.analytical_spectrum(k1)
            else:
                F1, F2 = g.analytical_spectrum(k1, k2_limit=lim)
            m.equal(k1, keep, "wavenumbers are not modified")
            want = np.array([ref.lf_one_d(k, c["sigma2"], c["L_2d"], c["psi"], c["z_i"], lim) for k in k1])
            m.near(F1, want[:, 0], "theoretical F11", rtol=5e-3, atol=3e-8)
            m.near(F2, want[:, 1], "theoretical F22", rtol=5e-3, atol=3e-8)
            if i % 4 == 0:  # wave numbers given as integers (per metre: far beyond the model's scales, but admissible)
                ki = np.sort(r.choice(np.arange(1, 8), 3, replace=False))
                lim_i = float(loguniform(r, 0.5, 20))
                kl = [int(x) for x in ki]
                Fi = g.analytical_spectrum(kl if i % 8 else ki, k2_limit=lim_i)
                wi = np.array([ref.lf_one_d(float(k), c["sigma2"], c["L_2d"], c["psi"], c["z_i"], lim_i) for k in ki])
                # these values lie below the integrator's absolute tolerance: they are compared with the float answer
                Ff = g.analytical_spectrum(ki.astype(float), k2_limit=lim_i)
                for j in range(2):
                    m.near(np.asarray(Fi[j]), np.asarray(Ff[j]), "integer wave numbers mean the same", rtol=1e-9)
                    m.near(np.asarray(Fi[j]), wi[:, j], "theory at integer wave numbers", rtol=5e-3, atol=3e-8)
            # even in k1, one value per wavenumber whatever its neighbours
            G1, G2 = g.analytical_spectrum(-k1[::-1], k2_limit=lim)
            m.near(G1[::-1], F1, "F11 is even and pointwise", rtol=1e-9)
            m.near(G2[::-1], F2, "F22 is even and pointwise", rtol=1e-9)
            if i % 5 == 0:  # the integral runs over |k2| up to the limit, whatever its sign
                G = g.analytical_spectrum(k1[:2], k2_limit=-lim)
                m.near(np.array(G), np.array([F1[:2], F2[:2]]), "sign of the limit", rtol=1e-9)

    # the integral of the isotropic (psi = 45 degrees) spectra over k1 is the requested variance
    for i in range(m.n(4, 25)):
        name = f"variance/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        c = dict(config(r), psi=np.pi / 4)
        with m.case(name, **c):
            g = quiet_gen(c)
            x = np.linspace(np.log(1e-4 / c["L_2d"]), np.log(4.0), 160)
            F1, F2 = g.analytical_spectrum(np.exp(x))
            for nm, F in (("F11", F1), ("F22", F2)):
                total = 2 * np.trapezoid(F * np.exp(x), x)
                # sigma2 is the integral of the shape over both signs of the wavenumber
                m.near(np.array(total), np.array(c["sigma2"] / 2), f"integral of {nm}", rtol=2e-2)

    # estimates average to the theory
    for i in range(m.n(3, 12)):
        name = f"ensemble/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        e = int(r.integers(5, 7))
        f = float(r.uniform(16, 30))
        c = dict(config(r), L1_factor=f, L2_factor=f, exp1=e, exp2=e)
        c["z_i"] = float(c["L_2d"] * loguniform(r, 0.3, 1.0))
        c["psi"] = float(r.uniform(0.5, 1.1))
        with m.case(name, **c):
            g = quiet_gen(c, seed=int(r.integers(1 << 31)))
            M = m.n(60, 200)
            acc = []
            for _ in range(M):
                g.generate()
                k, F1, F2 = g.compute_spectrum()
                acc.append([F1, F2])
            acc = np.array(acc)
            mean, err = acc.mean(0), acc.std(0) / np.sqrt(M)
            kmax = np.pi * 2**e / (f * c["L_2d"])
            sel = slice(1, 2 ** (e - 1) // 2)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                T = np.array(g.analytical_spectrum(k[sel], k2_limit=kmax))
            for j in range(2):
                m.near(mean[j][sel], T[j], f"ensemble mean of F{j + 1}{j + 1}", atol=8 * err[j][sel] + 0.25 * T[j])
                s = mean[j][sel].sum()
                se = np.sqrt((err[j][sel] ** 2).sum())
                m.near(np.array(s), np.array(T[j].sum()), f"ensemble energy of F{j + 1}{j + 1}", atol=8 * se + 0.08 * T[j].sum())
