"""C04: one-point spectra are k1 times the integral of the documented spectral tensor."""

import numpy as np

from vf import ref, work
from vf.work import loguniform

RULE = """A case is one model (one of five lifetimes, von Karman or learnable energy spectrum, random scales, network
weights and quadrature grid, single or double precision) evaluated at a random set of k1 (unsorted, repeated, single);
oracle: the same trapezoidal rule on the float64 reference tensor, the closed-form von Karman spectra in the isotropic
limit, and Cauchy-Schwarz / sign / scaling laws."""
ASSUMPTIONS = [
    "the floor of 1e-12 put under the tensor contributes at most k1 * 1e-12 * (area of the quadrature grid)",
    "components 23 and 12: either the exact value (0) or the integral of the positive part (listed finding)",
]


def build(r, lifetime, dtype, huge=False):
    L = float(loguniform(r, 0.1, 20))
    G = float(loguniform(r, 0.05, 8))
    s = float(loguniform(r, 0.01, 30) if r.random() < 0.9 else loguniform(r, 30, 1e8)) * (1e8 if huge else 1)
    lo, hi = float(r.uniform(-4, -2)), float(r.uniform(1.5, 3.2))
    integ = dict(ops_log_min=lo, ops_log_max=hi, ops_num_points=int(r.integers(5, 26)))
    learn = bool(r.random() < 0.35)
    kw = {}
    if learn:
        kw = dict(use_learnable_spectrum=True, p_exponent=float(r.uniform(1.5, 5) if r.random() < 0.6 else r.uniform(0.3, 1.5)), q_exponent=float(r.uniform(1.6, 4)))
        if r.random() < 0.15:
            kw.update(p_exponent=int(r.integers(2, 6)), q_exponent=int(r.integers(2, 5)))
    if lifetime == "TAUNET":
        kw["learn_nu"] = bool(r.random() < 0.5)
    ops = work.make_ops(lifetime, L, G, s, integ=integ, nn=dict(nlayers=int(r.integers(1, 4)), hidden_layer_size=int(r.integers(1, 9))), **kw)
    work.shake_network(ops, r, 0.4)
    shape = ref.e_vk
    if learn:
        p, q = kw["p_exponent"], kw["q_exponent"]
        shape = lambda x: ref.e_pq(x, p, q)  # noqa: E731
    g = ref.signed_log_grid(lo, hi, integ["ops_num_points"])
    return ops, L, G, s, shape, g, learn


def check(m):
    import drdmannturb as d
    import torch

    for i in range(m.n(220, 1600)):
        name = f"model/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        dtype = "float64" if r.random() < 0.5 else "float32"
        k1 = loguniform(r, 1e-6 if dtype == "float64" and i % 4 == 0 else 1e-3, 1e5 if dtype == "float64" and i % 7 == 2 else 3e2, int(r.choice([1, 2, 3, 6])))
        if len(k1) > 2 and r.random() < 0.3:
            k1[-1] = k1[0]
        with work.default_dtype(dtype):
            tk = torch.tensor(k1, dtype=getattr(torch, dtype))
            with m.case(name, lifetime=lifetime, dtype=dtype, k1=k1):
                ops, L, G, s, shape, g, learn = build(r, lifetime, dtype, dtype == "float64" and i % 7 == 2)
                keep = tk.clone()
                with work.quiet():
                    F = ops(tk).detach().numpy()
                m.true(torch.equal(tk, keep), "wave numbers are not modified", trivial=True)
                if not m.true(F.shape == (6, len(k1)), f"six components per wave number, got {F.shape}", trivial=True):
                    continue
                kk = tk.double().numpy()
                full, pos = ref.one_point_spectra(kk, g, work.ref_tau(lifetime, L, ops), L, G, s, shape)
                floor = 1.05e-12 * kk * (g[-1] - g[0]) ** 2
                rt = 1e-6 if dtype == "float64" else 2e-3
                scale = np.maximum(np.abs(full), 1e-3 * full[:3].max(0))
                m.near(F[:4], full[:4], "spectra 11, 22, 33, 13 are k1 times the integrated tensor", rtol=rt, scale=scale[:4], atol=floor)
                for c, lab in ((4, "23"), (5, "12")):
                    d0 = np.abs(F[c] - full[c]) <= floor + rt * scale[:3].max(0)
                    d1 = np.abs(F[c] - pos[c]) <= floor + rt * (pos[c] + scale[:3].max(0) * (dtype == "float32"))
                    if np.all(d0):
                        continue
                    if m.true(np.all(d1), f"spectrum {lab}: neither 0 (exact) nor the positive part of the tensor", {"got": F[c].tolist(), "exact": full[c].tolist(), "positive": pos[c].tolist()}):
                        m.known("cross-clipped", f"spectrum {lab} integrates only the positive part of the tensor")
                m.true(np.all(F[:3] > 0), "auto-spectra are positive")
                m.true(np.all(F[3] ** 2 <= F[0] * F[2] * (1 + 1e-3) + 1e-20), "cospectrum satisfies Cauchy-Schwarz")
                # the amplitude is a pure factor
                if r.random() < 0.3:
                    with torch.no_grad():
                        ops.logMagnitude += np.log(7.0)
                    with work.quiet():
                        F7 = ops(tk).detach().numpy()
                    m.near(F7[:4], 7 * F[:4], "spectra are proportional to the amplitude", rtol=rt, atol=7 * floor)

    # the quadrature itself: any integrand on the model's grid, real or complex
    for i in range(m.n(12, 100)):
        name = f"quadrature/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        lifetime = work.LIFETIMES[i % 5]
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime):
            ops, *_, g, _ = build(r, lifetime, "float64")
            n1 = int(r.choice([1, 2, 5]))
            with work.quiet(), torch.no_grad():
                ops(torch.tensor(loguniform(r, 1e-2, 1e2, n1)))
            w = 1 / (1 + (np.abs(g)[:, None] ** 2 + np.abs(g)[None, :] ** 2) ** 1.5)
            f, h = (r.normal(size=(n1, len(g), len(g))) * w for _ in range(2))
            want = ref.trapz2(f, g, g), ref.trapz2(h, g, g)
            atol = 1e-9 * ref.trapz2(np.abs(f) + np.abs(h), g, g).max()
            m.near(ops.quad23(torch.tensor(f)), want[0], "integral over the transverse wave numbers", atol=atol)
            m.near(ops.quad23_complex(torch.tensor(f + 1j * h)), want[0] + 1j * want[1], "integral of a complex function", atol=atol)

    # the tensor of the last evaluation, asked for any number of times, is the one that was integrated
    for i in range(m.n(15, 120)):
        name = f"tensor/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime):
            ops, *_, g, _ = build(r, lifetime, "float64")
            k1 = loguniform(r, 1e-2, 1e2, int(r.choice([1, 2, 5])))
            with work.quiet(), torch.no_grad():
                F = ops(torch.tensor(k1)).numpy().copy()
                for again in range(int(r.integers(2, 5))):
                    if r.random() < 0.4:  # neither of these is an evaluation of the spectra
                        ops.EddyLifetime(torch.tensor(loguniform(r, 0.01, 10, (4, 3))))
                    if r.random() < 0.2:
                        ops.SpectralCoherence(torch.tensor(loguniform(r, 0.01, 10, 2)), torch.tensor([0.3]))
                    Phi = ops.PowerSpectra()
                    got = np.stack([k1 * ref.trapz2(x.numpy(), g, g) for x in Phi])
                    m.near(got, F, f"spectra from the tensor, call {again}", rtol=1e-9, atol=1e-12 * np.abs(F).max())
                div = ops.get_div(Phi).numpy()
            a, b, c, ac, bc, ab = (x.numpy() for x in Phi)
            K = np.meshgrid(k1, g, g, indexing="ij")
            want = np.stack([K[0] * a + K[1] * ab + K[2] * ac, K[0] * ab + K[1] * b + K[2] * bc, K[0] * ac + K[1] * bc + K[2] * c]) / ((a + b + c) / 3)
            big = np.sqrt(sum(x * x for x in K))
            m.near(div, want, "divergence of the tensor", rtol=1e-7, scale=np.abs(want) + big)

    # order and batching of the wave numbers do not matter
    for i in range(m.n(20, 150)):
        name = f"batch/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime):
            ops, *_ = build(r, lifetime, "float64")
            k = torch.tensor(loguniform(r, 1e-2, 1e2, 7))
            with work.quiet(), torch.no_grad():
                A = ops(k).numpy()
                B = np.concatenate([ops(x[None]).numpy() for x in k], axis=1)
                perm = torch.tensor(r.permutation(7))
                C = ops(k[perm]).numpy()
            m.near(B, A, "one wave number at a time", rtol=1e-9, atol=1e-14)
            m.near(C, A[:, perm.numpy()], "reordered wave numbers", rtol=1e-9, atol=1e-14)

    # a sequence of evaluations on one model: look-alike vectors (equal length, end points, sum, storage), long
    # vectors, scales that move in between; each answer is the reference's for what was asked then
    for i in range(m.n(30, 250)):
        name = f"sequence/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime):
            ops, L, G, s, shape, g, _ = build(r, lifetime, "float64")
            n = int(r.choice([1, 3, 5, 8, int(r.integers(20, 70)), int(r.integers(65, 300)), int(r.integers(513, 600))]))
            if n > 20:
                while len(g) > 15:
                    ops, L, G, s, shape, g, _ = build(r, lifetime, "float64")
            t = torch.tensor(loguniform(r, 1e-2, 1e2, n))
            sc = np.array([L, G, s])
            for step in range(4):
                kind = str(r.choice(["again", "interior", "in place", "fresh", "scales"])) if step else "first"
                if kind == "interior":  # same length, end points and sum
                    perm = np.concatenate(([0], 1 + r.permutation(max(0, n - 2)), [n - 1])) if n > 1 else [0]
                    t = t[torch.tensor(perm)]
                    if r.random() < 0.5 and n > 2:
                        t = t.clone()
                        t[1:-1] *= float(loguniform(r, 0.2, 5))
                elif kind == "in place":
                    t *= float(loguniform(r, 0.2, 5))
                elif kind == "fresh":
                    t = torch.tensor(loguniform(r, 1e-2, 1e2, n))
                elif kind == "scales":
                    move = r.normal(0, 0.5, 3)
                    sc = sc * np.exp(move)
                    # an update in place, as an optimiser does it, or new values, as when a parameter vector is set
                    swap = r.random() < 0.5
                    with torch.no_grad():
                        for par, x in zip((ops.logLengthScale, ops.logTimeScale, ops.logMagnitude), move):
                            if swap:
                                par.data = par.detach() + x
                            else:
                                par += x
                q = t
                with work.quiet(), torch.no_grad():
                    F = ops(q).double().numpy()
                kk = q.double().numpy()
                full, _ = ref.one_point_spectra(kk, g, work.ref_tau(lifetime, sc[0], ops), *sc, shape)
                scale = np.maximum(np.abs(full), 1e-3 * full[:3].max(0))
                if m.true(F.shape == (6, n), f"six components per wave number, got {F.shape}", trivial=True):
                    m.near(F[:4], full[:4], f"evaluation in a sequence: {kind}", rtol=1e-6, scale=scale[:4], atol=1.05e-12 * kk * (g[-1] - g[0]) ** 2)

    # isotropic limit: closed-form von Karman spectra, and the bundled generator of them
    for i in range(m.n(5, 25)):
        name = f"isotropic/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        L, s = float(loguniform(r, 0.5, 3)), float(loguniform(r, 0.1, 10))
        lifetime = ("CONST", "MANN", "TWOTHIRD", "MANN_APPROX", "TAUNET")[i % 5]
        with m.case(name, lifetime=lifetime, L=L, sigma=s):
            ops = work.make_ops(lifetime, L, 1e-7, s, integ=dict(ops_log_min=-3, ops_log_max=3, ops_num_points=100))
            k1 = torch.logspace(-1, 1.0, 6) / L
            with work.quiet(), torch.no_grad():
                F = ops(k1).numpy()
            want = ref.von_karman(k1.numpy(), L, s)
            bundled = d.generate_von_karman_spectra(k1, L=L, C=s)["ops"].numpy()
            for c in range(3):
                m.near(F[c], want[:, c, c], f"isotropic limit of spectrum {c + 1}{c + 1}", rtol=0.025, atol=1.05e-12 * 4e6 * k1.numpy())
                m.near(bundled[:, c, c], want[:, c, c], "bundled von Karman spectra", rtol=1e-4)
            m.near(F[3], 0 * F[3], "isotropic limit of the cospectrum", atol=1e-3 * F[0].max())

    # the problem object evaluates the same model
    for i in range(m.n(10, 40)):
        name = f"problem/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        L, G, s = float(loguniform(r, 0.2, 3)), float(loguniform(r, 0.3, 5)), float(loguniform(r, 0.1, 10))
        with m.case(name, lifetime=lifetime, L=L, Gamma=G, sigma=s):
            npt = int(r.integers(6, 20))
            pb = work.make_problem(lifetime, L, G, s, ncomp=int(r.choice([3, 4, 6])), integ=dict(ops_num_points=npt))
            k1 = torch.logspace(-1, 1.5, 5)
            with work.quiet():
                F = pb.eval(k1)
            g = ref.signed_log_grid(-3, 3, npt)
            full, _ = ref.one_point_spectra(k1.double().numpy(), g, work.ref_tau(lifetime, L, pb.OPS), L, G, s)
            m.true(isinstance(F, np.ndarray), "evaluation returns an array", trivial=True)
            m.near(F[:4], full[:4], "problem evaluates the model with the scales it was given", rtol=2e-3,
                   scale=np.maximum(np.abs(full[:4]), 1e-3 * full[:3].max(0)), atol=1.05e-12 * 4e6 * k1.numpy())
