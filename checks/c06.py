"""C06: spectral coherence is the normalised squared cross-spectrum of the documented tensor."""

import os

import numpy as np

from vf import ref, work
from vf.work import loguniform

RULE = """A case is one model (five lifetimes, two energy spectra, random scales and quadrature grid, both ways of
switching coherence on, single or double precision) evaluated at random wave numbers and separations, in a random order
of calls; oracle: the trapezoidal rule on the float64 reference tensor, and the bounds 0 <= coherence <= 1, unity at zero
separation, evenness in the separation and independence of the amplitude."""
ASSUMPTIONS = ["single precision: absolute error 2e-4 of a number in [0, 1]; double precision: 1e-7"]


def build(r, lifetime, own_grid):
    L = float(loguniform(r, 0.1, 20))
    G = float(loguniform(r, 0.05, 8))
    s = float(loguniform(r, 0.05, 20))
    lo, hi = float(r.uniform(-4, -2)), float(r.uniform(1.0, 2.5))
    n = int(r.integers(5, 26))
    integ = dict(coh_log_min=lo, coh_log_max=hi, coh_num_points=n, ops_log_min=-2, ops_log_max=2, ops_num_points=int(r.integers(4, 9)))
    kw = {}
    shape = ref.e_vk
    if r.random() < 0.35:
        p, q = float(r.uniform(2.0, 5)), float(r.uniform(1.8, 4))
        kw = dict(use_learnable_spectrum=True, p_exponent=p, q_exponent=q)
        shape = lambda x: ref.e_pq(x, p, q)  # noqa: E731
    ops = work.make_ops(lifetime, L, G, s, integ=integ, use_coherence=own_grid, **kw)
    work.shake_network(ops, r, 0.4)
    return ops, L, G, s, shape, ref.signed_log_grid(lo, hi, n)


def check(m):
    import torch

    for i in range(m.n(90, 700)):
        name = f"model/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        dtype = "float64" if r.random() < 0.5 else "float32"
        own = bool(r.random() < 0.5)
        with work.default_dtype(dtype), m.case(name, lifetime=lifetime, dtype=dtype, own_grid=own):
            ops, L, G, s, shape, g = build(r, lifetime, own)
            k1 = loguniform(r, 1e-8 if i % 7 == 3 and dtype == "float64" else 1e-2, 1e2, int(r.choice([1, 3, 5]))) / L
            seps = np.concatenate(([0.0], loguniform(r, 1e-2, 5.0, int(r.choice([1, 3, 4]))) * L * r.choice([-1, 1])))
            r.shuffle(seps)
            tk, ts = (torch.tensor(x, dtype=getattr(torch, dtype)) for x in (k1, seps))
            tk0, ts0 = tk.clone(), ts.clone()
            with work.quiet(), torch.no_grad():
                if r.random() < 0.4:  # other evaluations before must not matter
                    ops(torch.tensor([0.3, 4.0], dtype=tk.dtype))
                    ops.SpectralCoherence(tk[:1] * 2, ts[:1] + 1)
                C = ops.SpectralCoherence(tk, ts)
            m.true(torch.equal(tk, tk0) and torch.equal(ts, ts0), "inputs are not modified", trivial=True)
            if not m.true(tuple(C.shape) == (3, len(seps), len(k1)), f"shape (3, separations, wave numbers), got {tuple(C.shape)}", trivial=True):
                continue
            want = ref.coherence(tk.double().numpy(), ts.double().numpy(), g / L, work.ref_tau(lifetime, L, ops), L, G, s, shape)
            tol = 1e-7 if dtype == "float64" else 2e-4
            m.near(C, want, "coherence", atol=tol)
            C = C.double().numpy()
            m.true(np.all(C >= 0) and np.all(C <= 1 + 1e-5), "coherence lies in [0, 1]")
            m.near(C[:, seps == 0], np.ones((3, 1, len(k1))), "coherence at zero separation is 1", atol=1e-5)
            with work.quiet(), torch.no_grad():
                D = ops.SpectralCoherence(tk, -ts)
                m.near(D, C, "coherence is even in the separation", atol=tol)
                ops.logMagnitude += np.log(11.0)
                m.near(ops.SpectralCoherence(tk, ts), C, "coherence does not depend on the amplitude", atol=max(tol, 1e-6))

    # moving parameters: the model coherence follows the current scales
    for i in range(m.n(25, 200)):
        name = f"moved/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime):
            ops, L, G, s, shape, g = build(r, lifetime, False)
            k1 = loguniform(r, 1e-1, 1e1, 3) / L
            seps = np.array([0.0, 0.3, 1.0]) * L
            with work.quiet(), torch.no_grad():
                ops.SpectralCoherence(torch.tensor(k1), torch.tensor(seps))
                a, b = float(r.uniform(-1, 1)), float(r.uniform(-1, 1))
                ops.logLengthScale += a
                ops.logTimeScale += b
                C = ops.SpectralCoherence(torch.tensor(k1), torch.tensor(seps))
            L2, G2 = L * np.exp(a), G * np.exp(b)
            want = ref.coherence(k1, seps, g / L2, work.ref_tau(lifetime, L2, ops), L2, G2, s, shape)
            m.near(C, want, "coherence follows the current scales", atol=1e-7)

    # a sequence of evaluations: look-alike arguments, long vectors, moving scales, in-place changes
    for i in range(m.n(15, 150)):
        name = f"sequence/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime):
            own = bool(r.random() < 0.5)
            ops, L, G, s, shape, g = build(r, lifetime, own)
            n, ns = int(r.choice([1, 3, 5, int(r.integers(17, 80))])), int(r.choice([1, 3, 5, int(r.integers(17, 40))]))
            if n > 5 and ns > 5:
                ns = 3
            if i < 4:
                n, ns = ((int(r.integers(130, 260)), 2), (3, int(r.integers(70, 140))), (int(r.integers(33, 64)), 3), (65, 5))[i]
            far = 1e2 if i % 3 else 1e4
            tk, ts = torch.tensor(loguniform(r, 1e-2, far, n) / L), torch.tensor(r.normal(0, 2, ns) * L)
            g0, L0 = g / L, L
            for step in range(4):
                kind = str(r.choice(["again", "order", "in place", "fresh", "scales"])) if step else "first"
                if kind == "order":
                    for t in (tk, ts):
                        if len(t) > 2:
                            t[1:-1] = t[1:-1][torch.tensor(r.permutation(len(t) - 2))]
                elif kind == "in place":
                    tk *= float(loguniform(r, 0.3, 3))
                    ts *= float(loguniform(r, 0.3, 3))
                elif kind == "fresh":
                    ts = torch.tensor(r.normal(0, 2, ns) * L)
                    tk = torch.cat((tk[:1], torch.tensor(loguniform(r, 1e-2, 1e2, n - 1) / L))) if n > 1 else tk
                elif kind == "scales":
                    a, b = r.normal(0, 0.5, 2)
                    L, G = L * np.exp(a), G * np.exp(b)
                    with torch.no_grad():
                        ops.logLengthScale += a
                        ops.logTimeScale += b
                with work.quiet(), torch.no_grad():
                    C = ops.SpectralCoherence(tk, ts).numpy()
                # the grid is scaled by the length scale: at construction, or (without a grid of its own) at the call
                want = ref.coherence(tk.numpy(), ts.numpy(), g0 if own else g / L, work.ref_tau(lifetime, L, ops), L, G, s, shape)
                m.near(C, want, f"coherence in a sequence: {kind}", atol=1e-7)

    # through a calibration: frequencies become wave numbers, rows and columns keep their meaning
    for i in range(m.n(16, 80)):
        name = f"calibrated/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = ("MANN", "TAUNET", "CONST", "TWOTHIRD")[i % 4]
        zero = bool(r.random() < 0.4)
        U, fac = float(loguniform(r, 2, 30)), float(r.choice([1.0, 2 * np.pi, 1 / (2 * np.pi)]))
        dtype = "float64" if i % 5 == 1 else "float32"
        with work.default_dtype(dtype), m.case(name, lifetime=lifetime, zero_frequency=zero, Uref=U, factor=fac, dtype=dtype):
            L = float(loguniform(r, 0.3, 5) if i % 2 else loguniform(r, 5, 500))  # from wind-tunnel to boundary-layer scales
            pb = work.make_problem(lifetime, L, 2.0, 1.0, ncomp=4, phys=dict(Uref=U, wavenumber_conversion_factor=fac),
                                   loss=dict(gamma_coherence=float(r.choice([0.0, 1.0]))), integ=dict(ops_num_points=6, coh_num_points=10))
            k = torch.logspace(-1, 1, 5) / min(L, 10)
            data = synthetic(k)
            for _ in range(int(r.integers(1, 3))):  # one calibration, or another with a second file
                f = np.maximum(np.sort(loguniform(r, (0.05, 0.002)[i // 2 % 2], 20, int(r.integers(2, 9)))) * U / fac / L, 3e-6)
                if i % 4 == 3:  # hardly more than none
                    f[1] = 5e-6
                if zero:
                    f[0] = 0.0
                nsep = int(r.integers(4, 8))
                seps = np.sort(loguniform(r, 0.02, 3, nsep)) * L
                if i % 2:  # the file numbers its frequencies and separations in an order of its own
                    r.shuffle(f)
                    r.shuffle(seps)
                path = coherence_file(f, seps, r)
                with work.quiet():
                    pb.calibrate({"k1": k, "ops": data}, coherence_data_file=path)
                got = np.stack([np.asarray(x.detach()) for x in (pb.model_coherence_u, pb.model_coherence_v, pb.model_coherence_w)])
                L2, G2, s2 = np.exp(np.asarray(pb.parameters[:3], float))
                sel = np.linspace(0, nsep - 1, 4, dtype=int)
                g = ref.signed_log_grid(-3, 3, 10) / L2
                want = np.ones((3, 4, len(f)))
                nz = f > 1e-6
                want[:, :, nz] = ref.coherence((fac * f / U)[nz], seps[sel], g, work.ref_tau(lifetime, L2, pb.OPS), L2, G2, s2)
                m.near(got, want, "model coherence after calibration", atol=5e-4 if dtype == "float32" else 1e-7)


def synthetic(k):
    import torch

    n = len(k)
    D = torch.zeros((n, 3, 3), dtype=k.dtype)
    for a, amp in zip(range(3), (1.0, 0.7, 0.5)):
        D[:, a, a] = amp * k / (1 + k) ** (5 / 3)
    D[:, 0, 2] = -0.3 * k / (1 + k) ** 2
    D[:, 0, 1] = 0.05 * k / (1 + k) ** 2
    D[:, 1, 2] = 0.04 * k / (1 + k) ** 2
    return D


def coherence_file(f, seps, r, values=None, shuffle=True, drop=(), idx=None, name="coh", repeat=0):
    """A coherence data file in the documented layout (comments, header row, one line per (separation, frequency))."""
    si, fi = idx or (range(len(seps)), range(len(f)))
    if values is None:
        values = r.uniform(0.01, 1, (3, len(seps), len(f)))
    rows = []
    for a, x in zip(range(len(seps)), si):
        for b, y in zip(range(len(f)), fi):
            if (a, b) not in drop:
                rows.append(f"{x} {y} {seps[a]:.12g} {f[b]:.12g} " + " ".join(f"{v:.12g}" for v in values[:, a, b]))
    rows += [rows[j] for j in r.integers(len(rows), size=repeat)]
    if shuffle:
        r.shuffle(rows)
    path = os.path.join(work.scratch(name), "coherence.dat")
    with open(path, "w") as h:
        h.write("# coherence\n# data\nsep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\n" + "\n".join(rows) + "\n")
    return path
