"""C03: a generator built from a saved fit realises the fitted model in physical units."""

import os

import numpy as np

from vf import ref, work
from vf.work import loguniform

RULE = """A case is one saved network model (random scales, network weights, exponent nu, with or without learned
p and q, string or Path argument), one reference height and one friction velocity.  The spectral tensor the generator
uses, the fields it generates, and the one-point spectra implied by its tensor are compared with the saved model
evaluated independently in float64."""
ASSUMPTIONS = ["the network is evaluated in single precision: 3e-4 of the trace per mode, 2e-4 of the rms for fields"]


def problem(r, learn_spectrum, learn_nu, strong=False):
    L = float(loguniform(r, 0.1, 3))
    G = float(loguniform(r, 0.3, 6) if r.random() < 0.85 else loguniform(r, 6, 20))
    if strong:
        G = float(loguniform(r, 20, 200))
    s = float(loguniform(r, 0.05, 10))
    nn = dict(nlayers=int(r.integers(1, 4)), hidden_layer_size=int(r.integers(2, 9)))
    prob = dict(learn_nu=learn_nu, use_learnable_spectrum=learn_spectrum)
    # settings of the fit that say nothing about the model it found
    prob.update(nepochs=int(r.integers(1, 90)), learning_rate=float(loguniform(r, 1e-3, 2)), tol=float(loguniform(r, 1e-6, 1)),
                wolfe_iter_count=int(r.integers(1, 60)), init_with_noise=bool(r.random() < 0.2), noise_magnitude=1e-2)
    phys = dict(Uref=float(loguniform(r, 1, 40)), zref=float(loguniform(r, 0.5, 200)), ustar=float(loguniform(r, 0.05, 5)))
    loss = dict(alpha_pen1=float(r.choice([0, 1])), alpha_pen2=float(r.choice([0, 0.5])), beta_reg=float(r.choice([0, 1e-3])))
    pb = work.make_problem("TAUNET", L, G, s, ncomp=int(r.choice([3, 4, 6])), nn=nn, prob=prob, phys=phys, loss=loss)
    work.shake_network(pb.OPS, r, 0.4)
    # the fitted scales differ from the initial ones
    v = np.array(pb.parameters, dtype=float).copy()
    v[:3] += r.normal(0, 0.4, 3)
    p = q = None
    if learn_spectrum:
        p, q = float(r.uniform(1.2, 6.0)), float(r.uniform(1.2, 4.0))
        v[3:5] = p, q
    pb.parameters = v
    return pb


def model_of(pb):
    """(L, Gamma, sigma, weights, nu, shape) of the model the problem holds, read from its parameter vector."""
    v = np.asarray(pb.parameters, float)
    L, G, s = np.exp(v[:3])
    w, nu = work.network_of(pb.OPS.tauNet)
    shape = ref.e_vk
    if pb.prob_params.use_learnable_spectrum:
        p, q = float(v[3]), float(v[4])
        shape = lambda x: ref.e_pq(x, p, q)  # noqa: E731
    return L, G, s, w, nu, shape


def check(m):
    from pathlib import Path

    import drdmannturb as d
    import torch

    for i in range(m.n(40, 300)):
        name = f"tensor/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        ls, ln = bool(r.random() < 0.5), bool(r.random() < 0.5)
        h = float(loguniform(r, 0.5, 200))
        us = float(loguniform(r, 0.05, 5))
        dtype = ("float32", "float64")[i % 3 == 1]
        eps = 1e-5 if dtype == "float32" else 1e-11
        with work.default_dtype(dtype), m.case(name, learn_spectrum=ls, learn_nu=ln, height=h, ustar=us, dtype=dtype):
            pb = problem(r, ls, ln)
            L, G, s, w, nu, shape = model_of(pb)
            out = work.scratch("model")
            pb.save_model(Path(out) if r.random() < 0.5 else out)
            files = os.listdir(out)
            if not m.true(len(files) == 1, f"saved model files: {files}", trivial=True):
                continue
            path = os.path.join(out, files[0])
            levels = r.integers(1, 4, 3)
            dims = (2.0**levels + 1) * L * h * loguniform(r, 0.4, 2.0, 3)
            cfg = dict(friction_velocity=us, reference_height=h, grid_dimensions=dims, grid_levels=levels,
                       path_to_parameters=Path(path) if r.random() < 0.5 else path, seed=int(r.integers(1 << 30)),
                       blend_num=int(r.choice([0, 1, 5])))
            gen = d.FluctuationFieldGenerator(model="DRD", **cfg)
            E0 = s * us**2 * h ** (-2 / 3)
            Lp = L * h
            # --- spectral tensor at arbitrary wave vectors
            f = []
            for _ in range(3):
                x = loguniform(r, 1e-2 if i % 3 else 1e-6, 1e2 if i % 2 else 1e5, 5) / Lp * r.choice([-1.0, 1.0], 5)
                x[0] = 0.0
                f.append(x)
            if r.random() < 0.1:
                f = [np.unique(r.integers(-9, 10, int(r.integers(1, 6)))) for _ in range(3)]
            K1, K2, K3 = np.meshgrid(*f, indexing="ij")
            kn = np.sqrt(K1**2 + K2**2 + K3**2)
            tau = ref.taunet(np.stack([K1, K2, K3], -1) * Lp, w, nu)
            beta = np.where(kn > 0, G * np.where(kn > 0, tau, 0), 0)
            phi, lo, hi = (ref.rdt_phi(K1, K2, K3, beta * (1 + e), lambda k: E0 * Lp ** (5 / 3) * shape(k * Lp)) for e in (0, -eps, eps))
            Gk = gen.Covariance.precompute_Spectrum(f)
            got = np.einsum("ia...,ja...->ij...", Gk, np.conj(Gk))
            tr, slack = np.einsum("ii...->...", phi), np.abs(np.einsum("ii...->...", hi - lo))  # effect of rounding the lifetime
            m.near(got, phi, "generator's spectral tensor is the fitted one", rtol=3e-4 if dtype == "float32" else 3e-9, scale=tr[None, None], atol=slack[None, None] + 1e-300)
            # --- generated blocks
            a = work.profile_args(r)
            nb = int(r.integers(1, 3))
            field = gen.generate(nb, **a)
            want = ref_blocks(cfg, Lp, G, [(nb, a)], lambda fr: ref.mann_kernel(
                fr, Lp, E0, G, tau=lambda k: ref.taunet(k * Lp, w, nu), shape=shape))
            m.near(field, want, "generated field is the fitted model's", atol=2e-4 * max(1.0, a["uref"]))

    # grids of production size: the tensor of every wave vector, not only of the first ones
    for i in range(m.n(2, 8)):
        name = f"large/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        with m.case(name):
            pb = problem(r, bool(i % 2), True)
            L, G, s, w, nu, shape = model_of(pb)
            out = work.scratch("model")
            pb.save_model(out)
            h, us = float(loguniform(r, 0.5, 50)), 0.7
            Lp, E0 = L * h, s * us**2 * h ** (-2 / 3)
            gen = d.FluctuationFieldGenerator(model="DRD", friction_velocity=us, reference_height=h, grid_dimensions=np.array([9.0, 7.0, 6.0]) * Lp,
                                              grid_levels=np.array([1, 1, 1]), path_to_parameters=os.path.join(out, os.listdir(out)[0]), seed=1, blend_num=0)
            n = [int(x) for x in ((r.integers(60, 90), r.integers(34, 50), r.integers(30, 45)) if i % 2 else (r.integers(120, 140), r.integers(50, 60), r.integers(40, 50)))]
            r.shuffle(n)
            f = ref.grid_frequencies(n, np.array(n) * Lp * loguniform(r, 0.1, 1.0, 3))
            K = np.array(np.meshgrid(*f, indexing="ij"))
            kn = np.sqrt((K**2).sum(0))
            beta = np.where(kn > 0, G * np.where(kn > 0, ref.taunet(np.moveaxis(K, 0, -1) * Lp, w, nu), 0), 0)
            phi = ref.rdt_phi(*K, beta, lambda k: E0 * Lp ** (5 / 3) * shape(k * Lp))
            Gk = gen.Covariance.precompute_Spectrum(f)
            got = np.einsum("ia...,ja...->ij...", Gk, np.conj(Gk))
            m.near(got, phi, "spectral tensor on a large grid", rtol=3e-4, scale=np.einsum("ii...->...", phi)[None, None], atol=1e-300)

    # a path is used again for another fit: the generator realises what the file holds when it is built
    for i in range(m.n(8, 60)):
        name = f"rewritten/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        with m.case(name):
            out = work.scratch("model")
            path = os.path.join(out, "fit.pkl")
            ls = bool(r.random() < 0.5)
            gens = []
            for step in range(2):
                pb = problem(r, ls if r.random() < 0.7 else not ls, True, i % 4 == 2)
                own = work.scratch("model")
                pb.save_model(own)
                stamp = os.stat(path) if step else None
                with open(os.path.join(own, os.listdir(own)[0]), "rb") as f, open(path, "wb") as h:
                    h.write(f.read())
                if step and r.random() < 0.5:
                    os.utime(path, ns=(stamp.st_atime_ns, stamp.st_mtime_ns))
                h0 = float(loguniform(r, 0.5, 300))
                L, G, s, w, nu, shape = model_of(pb)
                gen = d.FluctuationFieldGenerator(model="DRD", friction_velocity=1.3, reference_height=h0,
                                                  grid_dimensions=np.array([9.0, 7.0, 6.0]) * h0, grid_levels=np.array([1, 1, 1]),
                                                  path_to_parameters=path, seed=1, blend_num=0)
                gens.append((gen, h0, L, G, s, w, nu, shape))
            for gen, h0, L, G, s, w, nu, shape in gens:
                f = [loguniform(r, 1e-2, 1e2, 4) / (L * h0) * r.choice([-1.0, 1.0], 4) for _ in range(3)]
                K = np.array(np.meshgrid(*f, indexing="ij"))
                Lp = L * h0
                beta = G * ref.taunet(np.moveaxis(K, 0, -1) * Lp, w, nu)
                phi, lo, hi = (ref.rdt_phi(*K, beta * (1 + e), lambda k: s * 1.3**2 * h0 ** (-2 / 3) * Lp ** (5 / 3) * shape(k * Lp)) for e in (0, -1e-5, 1e-5))
                slack = np.abs(np.einsum("ii...->...", hi - lo))
                Gk = gen.Covariance.precompute_Spectrum(f)
                got = np.einsum("ia...,ja...->ij...", Gk, np.conj(Gk))
                m.near(got, phi, "tensor of the fit the file held", rtol=3e-4, scale=np.einsum("ii...->...", phi)[None, None], atol=slack[None, None] + 1e-300)

    # one-point spectra of the generator's tensor = those of the fitted model, in units of height and friction velocity
    for i in range(m.n(10, 60)):
        name = f"spectra/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        ls = bool(r.random() < 0.5)
        h, us = float(loguniform(r, 0.5, 100)), float(loguniform(r, 0.1, 3))
        with m.case(name, learn_spectrum=ls, height=h, ustar=us):
            pb = problem(r, ls, True)
            out = work.scratch("model")
            pb.save_model(out)
            path = os.path.join(out, os.listdir(out)[0])
            gen = d.FluctuationFieldGenerator(model="DRD", friction_velocity=us, reference_height=h,
                                              grid_dimensions=np.array([20.0, 20.0, 20.0]) * h, grid_levels=np.array([1, 1, 1]),
                                              path_to_parameters=path, seed=1, blend_num=0)
            g = ref.signed_log_grid(-3.0, 3.0, 12)
            k1 = loguniform(r, 0.05, 30, 4)
            S = pb.eval(torch.tensor(k1, dtype=torch.get_default_dtype()))
            Gk = gen.Covariance.precompute_Spectrum([k1 / h, g / h, g / h])
            P = np.einsum("ia...,ja...->ij...", Gk, np.conj(Gk)).real
            for c, (a, b) in enumerate(ref.COMPONENTS[:4]):
                F = k1 / h * ref.trapz2(P[a, b], g / h, g / h) / us**2
                m.near(F, S[c], f"one-point spectrum {a + 1}{b + 1} of the generator equals the fitted one", rtol=2e-3, atol=2e-5 * np.abs(k1))


def ref_blocks(cfg, L, Gamma, calls, kernel):
    """The documented block pipeline in float64 (sliding noise window, central crop, unit rms, mean profile)."""
    lev = np.asarray(cfg["grid_levels"])
    N = 2**lev + 1
    dims = np.asarray(cfg["grid_dimensions"], float)
    h = dims / N
    nb = int(np.ceil(3 * Gamma * L / h[0]))
    my, mz = int(np.ceil(L / h[1])), int(np.ceil(L / h[2]))
    ext = max(0, cfg["blend_num"] - 1)
    shape = (int(N[0]) + 2 * nb + ext, int(N[1]) + 2 * my, int(N[2]) + 2 * mz, 3)
    std = np.sqrt(np.prod(h))
    prng = np.random.RandomState(cfg["seed"])
    lengths = h * shape[:3]
    G = kernel(ref.grid_frequencies(shape[:3], lengths))
    noise, out = None, []
    z = np.linspace(0, dims[2], int(N[2]))
    for n, a in calls:
        for _ in range(n):
            if noise is None:
                noise = prng.normal(0, 1, shape) * std
            else:
                noise = np.concatenate((noise[N[0]:], prng.normal(0, 1, (int(N[0]),) + shape[1:]) * std))
            u = ref.vector_filter(noise, G, lengths)[nb : nb + N[0], my : my + N[1], : N[2]]
            u = u / np.sqrt(np.mean(u**2))
            u[..., 0] += work.ref_profile(z, a)
            out.append(u)
    return np.concatenate(out)
