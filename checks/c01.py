"""C01: covariance kernels are square roots of the documented spectral tensor at every wave vector."""

import numpy as np

from vf import ref
from vf.work import loguniform

RULE = """A case is one kernel (isotropic or sheared; random length scale, amplitude, time scale) evaluated on one
frequency grid (FFT grids of even/odd/unit size, or arbitrary axes with zeros and negative values over many decades);
non-trivial when the tensor is not all zero.  Oracle: D Phi_iso(k0) D^T in float64 with the lifetime from the
incomplete beta function, including the k1 -> 0 limit."""
ASSUMPTIONS = ["|k| L between 1e-8 and 1e4, Gamma <= 20 (the range over which the closed form is accurate to better than 1e-4)"]

RTOL = 1e-4


def axis(r, L, kind):
    if kind == "fft":
        n = int(r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9]))
        return 2 * np.pi / (L * loguniform(r, 0.2, 50)) * np.fft.fftfreq(n) * n
    n = int(r.integers(1, 9))
    x = loguniform(r, 1e-4, 1e4, n) / L * r.choice([-1.0, 1.0], n)
    if r.random() < 0.7:
        x[r.integers(n)] = 0.0
    if kind == "sym":
        x = np.concatenate((x, -x))
    return x


def compare(m, G, f, L, E0, Gamma, sheared):
    n = tuple(len(a) for a in f)
    if not m.true(np.shape(G) == (3, 3) + n, f"kernel has shape {np.shape(G)}", trivial=True):
        return
    if not m.true(np.all(np.isfinite(G)), "kernel is finite everywhere", trivial=True):
        return
    K1, K2, K3 = np.meshgrid(*f, indexing="ij")
    kn = np.sqrt(K1**2 + K2**2 + K3**2)
    with np.errstate(divide="ignore", invalid="ignore"):
        beta = np.where(kn > 0, Gamma * ref.mann_tau(np.where(kn > 0, kn, 1) * L), 0.0) if sheared else np.zeros_like(kn)
    phi = ref.rdt_phi(K1, K2, K3, beta, ref.kernel_energy(E0, L))
    got = np.einsum("ia...,ja...->ij...", G, np.conj(G))
    tr = np.einsum("ii...->...", phi)
    m.near(got, phi, "kernel times its adjoint equals the spectral tensor", rtol=RTOL, scale=tr[None, None], atol=1e-300)
    if np.any(kn == 0):
        m.true(np.all(G[:, :, kn == 0] == 0), "no energy at zero wave number", trivial=True)
    if sheared and np.any((K1 == 0) & (kn > 0)):
        m.counts["k1=0 modes"] = m.counts.get("k1=0 modes", 0) + int(((K1 == 0) & (kn > 0)).sum())


def check(m):
    import drdmannturb as d

    for i in range(m.n(260, 2500)):
        name = f"kernel/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        L = float(loguniform(r, 1e-2, 1e4))
        E0 = float(loguniform(r, 1e-4, 1e3))
        Gamma = float(r.choice([0.0, 1e-6])) if r.random() < 0.1 else float(loguniform(r, 1e-2, 20))
        sheared = bool(r.random() < 0.75)
        kind = str(r.choice(["fft", "any", "sym"]))
        f = [axis(r, L, kind) for _ in range(3)]
        if r.random() < 0.08:  # integer wave numbers and parameters
            L, E0, Gamma = int(r.integers(1, 30)), int(r.integers(1, 9)), int(r.integers(1, 6))
            f = [np.unique(r.integers(-9, 10, int(r.integers(1, 6)))) for _ in range(3)]
            kind = "int"
        with m.case(name, model="Mann" if sheared else "VK", L=L, E0=E0, Gamma=Gamma, axes=kind, n=[len(a) for a in f]):
            if sheared:
                K = d.MannCovariance(ndim=3, length_scale=L, E0=E0, Gamma=Gamma)
            else:
                K = d.VonKarmanCovariance(ndim=3, length_scale=L, E0=E0)
            keep = [a.copy() for a in f]
            G = K.precompute_Spectrum(f)
            compare(m, G, f, L, E0, Gamma, sheared)
            for a, b in zip(f, keep):
                m.true(np.array_equal(a, b), "frequencies are not modified", trivial=True)
            if kind == "sym":
                # G(-k) is the conjugate of G(k): the filter maps real noise to real fields
                idx = [np.concatenate((np.arange(len(a) // 2, len(a)), np.arange(len(a) // 2))) for a in f]
                m.near(G[np.ix_([0, 1, 2], [0, 1, 2], *idx)], np.conj(G), "kernel at -k is the conjugate", rtol=1e-9,
                       scale=np.abs(G).max(axis=(0, 1), keepdims=True), atol=1e-300)
            if sheared and Gamma == 0.0:
                V = d.VonKarmanCovariance(ndim=3, length_scale=L, E0=E0).precompute_Spectrum(f)
                m.near(G, V, "no shear: isotropic kernel", rtol=1e-9, scale=np.abs(V).max(axis=(0, 1), keepdims=True), atol=1e-300)

    # one kernel object serves many grids: large ones, refined ones, ones alike in size, ends or spacing
    for i in range(m.n(24, 200)):
        name = f"sequence/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        L, E0, Gamma = float(loguniform(r, 1e-1, 1e3)), float(loguniform(r, 1e-2, 1e2)), float(loguniform(r, 0.1, 10))
        sheared = i % 3 != 0
        n = [int(x) for x in r.integers(2, 9, 3)]
        if i % 4 == 1:
            n[int(r.integers(3))] = int(r.integers(40, 180))
        elif i % 4 == 2:
            n = [int(x) for x in r.integers(17, 34, 3)]
        step = loguniform(r, 0.02, 5, 3) / L
        grids = [[s * np.fft.fftfreq(a) * a for s, a in zip(step, n)]]
        for _ in range(3):
            last = grids[-1]
            kind = int(r.integers(5))
            if kind == 0:  # same shape, other spacing
                nxt = [a * float(loguniform(r, 0.3, 3)) for a in last]
            elif kind == 1:  # same ends, same size, other inside
                nxt = [np.concatenate((a[:1], a[1:-1] * 0.7 + 0.01 / L, a[-1:])) if len(a) > 2 else a for a in last]
            elif kind == 2:  # transposed
                nxt = [last[1], last[2], last[0]]
            elif kind == 3:  # one axis replaced
                nxt = [a.copy() for a in last]
                j = int(r.integers(3))
                nxt[j] = -nxt[j] * float(loguniform(r, 0.5, 2))
            else:
                nxt = [r.permutation(a) for a in last]
            grids.append(nxt)
        with m.case(name, model="Mann" if sheared else "VK", L=L, E0=E0, Gamma=Gamma, n=n):
            K = d.MannCovariance(ndim=3, length_scale=L, E0=E0, Gamma=Gamma) if sheared else d.VonKarmanCovariance(ndim=3, length_scale=L, E0=E0)
            got = []
            for f in grids:
                if i % 2:
                    f = [np.array(a, order="F") for a in f]
                got.append(K.precompute_Spectrum(f))
                compare(m, got[-1], f, L, E0, Gamma, sheared)
            for G, f in zip(got, grids):  # results handed out earlier are still what they were
                compare(m, G, f, L, E0, Gamma, sheared)

    # waves almost across the stream, so long that the shear acts on them all the same
    for i in range(m.n(20, 150)):
        name = f"grazing/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        L, Gamma = float(loguniform(r, 0.1, 1e3)), float(loguniform(r, 0.5, 20))
        kL = loguniform(r, 1e-3, 1e-1, 3)
        f = [np.concatenate([[0.0], loguniform(r, 1e-7, 1e-3, 6) * kL[0] * r.choice([-1.0, 1.0], 6)]) / L,
             np.concatenate([[0.0], kL * r.choice([-1.0, 1.0], 3)]) / L, kL * r.choice([-1.0, 1.0], 3) / L]
        with m.case(name, L=L, Gamma=Gamma):
            compare(m, d.MannCovariance(ndim=3, length_scale=L, E0=1.0, Gamma=Gamma).precompute_Spectrum(f), f, L, 1.0, Gamma, True)

    # waves far longer than the eddies
    for i in range(m.n(20, 150)):
        name = f"long/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        L, Gamma = float(loguniform(r, 0.1, 1e3)), float(loguniform(r, 0.2, 10))
        dec = 10.0 ** int(r.integers(-8, -3))
        f = [np.concatenate([[0.0] if r.random() < 0.5 else [], loguniform(r, dec, 100 * dec, 4) * r.choice([-1.0, 1.0], 4)]) / L for _ in range(3)]
        with m.case(name, L=L, Gamma=Gamma, kL=dec):
            compare(m, d.MannCovariance(ndim=3, length_scale=L, E0=1.0, Gamma=Gamma).precompute_Spectrum(f), f, L, 1.0, Gamma, True)
            compare(m, d.VonKarmanCovariance(ndim=3, length_scale=L, E0=1.0).precompute_Spectrum(f), f, L, 1.0, 0.0, False)

    # a grid of production size
    for i in range(m.n(2, 6)):
        name = f"large/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        n = [int(x) for x in (r.integers(120, 150), r.integers(48, 56), r.integers(40, 48))]
        r.shuffle(n)
        L, Gamma = float(loguniform(r, 0.1, 1e3)), float(loguniform(r, 0.5, 10))
        f = [s * np.fft.fftfreq(a) * a for s, a in zip(loguniform(r, 0.02, 1, 3) / L, n)]
        sheared = i % 2 == 0
        with m.case(name, L=L, Gamma=Gamma, n=n, sheared=sheared):
            K = d.MannCovariance(ndim=3, length_scale=L, E0=2.0, Gamma=Gamma) if sheared else d.VonKarmanCovariance(ndim=3, length_scale=L, E0=2.0)
            compare(m, K.precompute_Spectrum(f), f, L, 2.0, Gamma, sheared)

    # the sheared kernel is continuous across k1 = 0
    for i in range(m.n(30, 200)):
        name = f"limit/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        L = float(loguniform(r, 0.1, 100))
        Gamma = float(loguniform(r, 0.1, 10))
        k2 = loguniform(r, 1e-2, 1e2, 4) / L * r.choice([-1.0, 1.0], 4)
        k3 = loguniform(r, 1e-2, 1e2, 4) / L * r.choice([-1.0, 1.0], 4)
        eps = 1e-7 * min(np.abs(k2).min(), np.abs(k3).min())
        with m.case(name, L=L, Gamma=Gamma):
            G = d.MannCovariance(ndim=3, length_scale=L, E0=1.0, Gamma=Gamma).precompute_Spectrum([np.array([-eps, 0.0, eps]), k2, k3])
            P = np.einsum("ia...,ja...->ij...", G, np.conj(G))
            tr = np.einsum("ii...->...", P)
            for s in (0, 2):
                m.near(P[:, :, s], P[:, :, 1], "tensor is continuous at k1 = 0", rtol=1e-3, scale=tr[None, None, 1])
