"""C02: incompressibility - of every kernel, every periodic 3D sample and every 2D field."""

import os

import numpy as np

from vf import ref, work
from vf.work import loguniform

RULE = """A case is one kernel on one grid (k . G = 0), one periodic 3D sample of a vector field generator (spectral
divergence of the returned array), or one 2D low-frequency field; non-trivial when the field is not all zero.  Nyquist
planes of even grids are excluded (the sign of that wave number is not defined on the grid)."""
ASSUMPTIONS = ["3D samples are single precision: divergence below 2e-5 of |k||u|", "kernel: below 1e-6 of |k||G|"]


def spectral_divergence(m, u, lengths, what, tol):
    """u: (n1, n2, n3, 3) periodic samples over ``lengths``."""
    n = u.shape[:3]
    k = ref.grid_frequencies(n, lengths)
    K = np.meshgrid(*k, indexing="ij")
    h = [np.fft.fftn(u[..., c]) for c in range(3)]
    keep = np.ones(n, bool)
    for ax in range(3):
        if n[ax] % 2 == 0:
            idx = [slice(None)] * 3
            idx[ax] = n[ax] // 2
            keep[tuple(idx)] = False
    kn = np.sqrt(sum(a * a for a in K))
    div = np.abs(sum(a * b for a, b in zip(K, h)))[keep]
    amp = np.sqrt(sum(np.abs(b) ** 2 for b in h))
    # rounding of the transforms is relative to the rms amplitude of the whole field, not of the mode
    lim = (amp + np.sqrt(np.mean(amp**2)))[keep] * kn[keep]
    m.near(div, np.zeros_like(div), what, atol=tol * lim + 1e-300)
    m.true(np.any(u), what + ": field is not zero")
    m.near(u.mean(axis=(0, 1, 2)), np.zeros(3), "sample has no mean", atol=tol * np.abs(u).max())


def check(m):
    import drdmannturb as d
    import torch
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    for i in range(m.n(120, 900)):
        name = f"kernel/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        L = float(loguniform(r, 1e-2, 1e3))
        Gamma = float(loguniform(r, 1e-2, 15))
        f = []
        for _ in range(3):
            n = int(r.integers(1, 9)) if i % 10 or _ else int(r.integers(40, 150))
            x = loguniform(r, 1e-3, 1e3, n) / L * r.choice([-1.0, 1.0], n)
            if r.random() < 0.7:
                x[r.integers(n)] = 0.0
            f.append(x)
        model = str(r.choice(["Mann", "Mann", "VK", "DRD"]))
        with m.case(name, model=model, L=L, Gamma=Gamma):
            if model == "VK":
                K = d.VonKarmanCovariance(ndim=3, length_scale=L, E0=1.0)
            elif model == "Mann":
                K = d.MannCovariance(ndim=3, length_scale=L, E0=1.0, Gamma=Gamma)
            else:
                ops = work.make_ops("TAUNET", L, Gamma, 1.0, learn_nu=True, integ=dict(ops_num_points=3),
                                    use_learnable_spectrum=bool(r.random() < 0.5))
                work.shake_network(ops, r)
                K = d.NNCovariance(ndim=3, length_scale=L, E0=1.0, Gamma=Gamma, ops=ops, h_ref=1.0)
            G = K.precompute_Spectrum(f)
            k = np.array(np.meshgrid(*f, indexing="ij"))
            div = np.einsum("i...,ij...->j...", k, G)
            size = np.sqrt((k**2).sum(0)) * np.sqrt((np.abs(G) ** 2).sum((0, 1)))
            m.near(np.abs(div), np.zeros(div.shape), "kernel is divergence free", atol=1e-6 * size + 1e-300)
            m.true(np.any(G) or not np.any(k), "kernel is not zero")

    # the divergence a model reports for a spectral tensor: the tensor's contraction with the wave vector over a third of its trace
    for i in range(m.n(20, 150)):
        name = f"tensor/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        L, Gamma = float(loguniform(r, 0.1, 10)), float(loguniform(r, 0.05, 8))
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime, L=L, Gamma=Gamma):
            ops = work.make_ops(lifetime, L, Gamma, 1.0, integ=dict(ops_log_min=-2, ops_log_max=1.5, ops_num_points=int(r.integers(3, 9))))
            work.shake_network(ops, r)
            for _ in range(2):
                k1 = loguniform(r, 1e-2, 30, int(r.integers(1, 5))) / L
                with work.quiet(), torch.no_grad():
                    ops(torch.tensor(k1))
                    if not (hasattr(ops, "k123") and hasattr(ops, "Phi")):
                        m.skipped("the model does not expose its last tensor")
                        break
                    k = np.stack([x.numpy() for x in ops.k123])
                    own = torch.stack(ops.Phi).numpy()
                    div = ops.get_div(ops.Phi).numpy()
                    tau = Gamma * work.ref_tau(lifetime, L, ops)(np.moveaxis(k, 0, -1))
                    P = ref.rdt_phi(*k, tau, lambda q: L ** (5 / 3) * ref.e_vk(q * L))
                    exact = ops.get_div(tuple(torch.tensor(P[a, b]) for a, b in ref.COMPONENTS)).numpy()
                T = np.zeros((3, 3) + own.shape[1:])
                for c, (a, b) in enumerate(ref.COMPONENTS):
                    T[a, b] = T[b, a] = own[c]
                kn = np.sqrt((k**2).sum(0))
                third = np.einsum("ii...->...", T) / 3
                m.near(div, np.einsum("i...,ij...->j...", k, T) / third, "reported divergence of the model's tensor", rtol=1e-9, atol=1e-9 * kn)
                for fac in (10.0 ** r.uniform(-30, 30), 10.0 ** r.uniform(-3, 3)):  # in whatever units the tensor is
                    m.near(ops.get_div(tuple(torch.tensor(x * fac) for x in own)).numpy(), div, "reported divergence does not depend on the units", rtol=1e-9, atol=1e-9 * kn)
                m.near(exact, np.zeros_like(exact), "reported divergence of the documented tensor", atol=1e-6 * kn)
                # where no component is floored (see C04) the model's own tensor has none
                free = np.all(np.abs(own) > 1e-11, axis=0) & (own[4] > 1e-11) & (own[5] > 1e-11) & np.all(own[:3] > 1e-6 * third, axis=0)
                m.near(np.where(free, div, 0.0), np.zeros_like(div), "the model's tensor is divergence free", atol=1e-5 * kn)
                m.counts["wave vectors without a floor"] = m.counts.get("wave vectors without a floor", 0) + int(free.sum())

    for i in range(m.n(70, 500)):
        name = f"sample/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        L = float(loguniform(r, 0.05, 100))
        n = r.integers(2, 20, 3)
        n[2] = max(n[2], 3)
        lev = r.integers(1, 5, 3)
        dims = (2.0**lev + 1) * L * loguniform(r, 0.1, 3.0, 3)
        model = str(r.choice(["Mann", "VK"]))
        with m.case(name, model=model, L=L, n=n):
            K = d.MannCovariance(ndim=3, length_scale=L, E0=1.3, Gamma=float(loguniform(r, 0.05, 8))) if model == "Mann" else d.VonKarmanCovariance(ndim=3, length_scale=L, E0=0.7)
            rf = d.VectorGaussianRandomField(vdim=3, ndim=3, grid_level=lev, grid_dimensions=dims, grid_shape=n, sampling_method="vf_fftw", Covariance=K)
            rf.reseed(int(r.integers(1 << 30)))
            u = rf.sample(rf.sample_noise(tuple(n) + (3,)))
            if m.true(u.shape == tuple(n) + (3,), f"sample has shape {u.shape}", trivial=True):
                spectral_divergence(m, u, dims / (2.0**lev + 1) * n, "3D sample is divergence free", 2e-5)

    for i in range(m.n(25, 200)):
        name = f"plane/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg = work.lf_config(r)
        with m.case(name, **cfg):
            np.random.seed(int(r.integers(1 << 30)))
            g = LowFreqGenerator(dict(cfg))
            g.generate()
            u1, u2 = g.u1_full, g.u2_full
            n1, n2 = u1.shape
            k1 = 2 * np.pi * np.fft.fftfreq(n1, g.comp_dx)[:, None]
            k2 = 2 * np.pi * np.fft.fftfreq(n2, g.comp_dy)[None, :]
            h1, h2 = np.fft.fft2(u1), np.fft.fft2(u2)
            div = np.abs(k1 * h1 + k2 * h2)
            keep = np.ones(u1.shape, bool)
            if n1 % 2 == 0:
                keep[n1 // 2] = False
            if n2 % 2 == 0:
                keep[:, n2 // 2] = False
            amp = np.sqrt(np.abs(h1) ** 2 + np.abs(h2) ** 2)
            lim = (amp + np.sqrt(np.mean(amp**2))) * np.hypot(k1, k2)
            m.near(div[keep], np.zeros(keep.sum()), "2D field is divergence free", atol=1e-9 * lim[keep] + 1e-300)
            m.true(np.any(u1) and np.any(u2), "2D field is not zero")
            m.near(np.array([u1.mean(), u2.mean()]), np.zeros(2), "2D field has no mean", atol=1e-9 * np.abs(u1).max())
