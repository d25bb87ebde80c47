"""C13: random-field samplers apply exactly the documented filter to exactly the given noise."""

import os
import subprocess
import sys
import threading

import numpy as np
import scipy.fft as sf

if __name__ == "__main__":
    sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]

from vf import ref, work
from vf.core import VERIF
from vf.work import loguniform

RULE = """A case is one random field (five sampling methods; scalar or 3x3 spectra; odd, even, prime and unit grid sizes;
anisotropic spacing) and one history of noise draws and samples.  Oracles: the transform written with numpy/scipy in
float64; the seeded generator of numpy for the noise; linearity and shift equivariance; identical results for any number
of FFT threads (subprocesses with OMP_NUM_THREADS 1, 2, 3, 5, unset;
tiny grids with up to 32 threads in one process) and for fields sampled concurrently in threads;
inputs and earlier results bitwise unchanged."""
ASSUMPTIONS = ["single-precision vector sampler: 3e-6 of the largest value; others 1e-10"]


def scalar_cov(r):
    """A smooth, even, positive scalar spectrum."""
    import drdmannturb as d

    a, p, c = float(loguniform(r, 0.05, 5)), float(r.uniform(0.5, 3)), r.uniform(0.3, 3, 3)

    class Cov(d.Covariance):
        def __init__(self):
            super().__init__()
            self.ndim = 3

        def eval(self, *x):
            raise NotImplementedError

        def precompute_Spectrum(self, Frequencies):
            K = np.meshgrid(*Frequencies, indexing="ij")
            return 1.0 / (1 + a * sum(q * k * k for q, k in zip(c, K))) ** p

    return Cov()


def vector_cov(r, L):
    import drdmannturb as d

    E, G = float(loguniform(r, 0.1, 10)), float(loguniform(r, 0.1, 5))
    if r.random() < 0.5:
        return d.MannCovariance(ndim=3, length_scale=L, E0=E, Gamma=G), lambda f: ref.mann_kernel(f, L, E, G)
    return d.VonKarmanCovariance(ndim=3, length_scale=L, E0=E), lambda f: ref.mann_kernel(f, L, E, 0.0, sheared=False)


def expected(method, noise, S, lengths):
    n = noise.shape[:3]
    vol = np.sqrt(np.prod(lengths))
    if method == "fftw":
        return np.fft.irfftn(S[..., : n[2] // 2 + 1] * np.sqrt(np.prod(n)) * np.fft.rfftn(noise), s=n, axes=(0, 1, 2)) / vol
    if method == "fft":
        return np.real(np.fft.fftn(S * np.fft.ifftn(noise))) / vol
    y = S * noise
    for ax in range(3):
        y = sf.dst(y, type=1, axis=ax) if method == "dst" else sf.dct(y, type=2, axis=ax)
    return y / vol


def layouts(x):
    """The same array, laid out differently in memory: column order, a reversed and a strided view, read-only."""
    wide = np.zeros(tuple(2 * n for n in x.shape))
    view = wide[tuple(slice(None, None, 2) for _ in x.shape)]
    view[...] = x
    fixed = x.copy()
    fixed.flags.writeable = False
    return np.asfortranarray(x), x[::-1].copy()[::-1], view, fixed


def grid(r, method):
    lev = r.integers(1, 5, 3)
    dims = loguniform(r, 0.5, 50, 3)
    lo = 2 if method in ("dst", "dct") else 1
    n = r.integers(lo, 14, 3)
    if method in ("fftw", "vf_fftw"):
        n[2] = max(n[2], 2)
    return lev, dims, n, dims / (2.0**lev + 1) * n


def check(m):
    import drdmannturb as d

    for i in range(m.n(90, 400)):
        name = f"scalar/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        method = ("fft", "fftw", "dst", "dct")[i % 4]
        lev, dims, n, lengths = grid(r, method)
        cubic = bool(r.random() < 0.2)
        if i % 9 == 5:  # one long direction
            cubic, q = False, int(r.integers(3))
            n = np.minimum(n, 3)
            n[q] = int(r.integers(97, 300))
            lengths = dims / (2.0**lev + 1) * n
        if cubic:
            n = np.array([n.max()] * 3)
            lengths = n / 2.0 ** int(lev[0])
        with m.case(name, method=method, n=n, dims=dims, levels=lev, cubic=cubic):
            cov = scalar_cov(r)
            S = cov.precompute_Spectrum(ref.grid_frequencies(n, lengths))
            kw = dict(grid_level=int(lev[0]), grid_shape=int(n[0])) if cubic else dict(grid_level=lev, grid_shape=n, grid_dimensions=dims)
            rf = d.GaussianRandomField(Covariance=cov, ndim=3, sampling_method=method, **kw)
            noise = r.normal(0, 1, tuple(n))
            keep = noise.copy()
            u = rf.sample(noise)
            want = expected(method, noise, S, lengths)
            m.near(u, want, f"{method} sample", atol=1e-9 * np.abs(want).max())
            m.equal(noise, keep, "noise is not modified")
            first = u.copy()
            noise2 = r.normal(0, 1, tuple(n))
            a, b = r.normal(0, 1, 2)
            v = rf.sample(noise2)
            m.equal(u, first, "an earlier sample is not overwritten by the next one")
            w = rf.sample(a * noise + b * noise2)
            m.near(w, a * first + b * v, "sampler is linear in the noise", atol=1e-9 * (np.abs(w).max() + np.abs(first).max() + np.abs(v).max()))
            m.near(rf.sample(noise), first, "sampling the same noise again", atol=1e-12 * np.abs(first).max())
            for y in layouts(noise):
                m.near(rf.sample(y), first, "the same noise in another memory layout", atol=1e-12 * np.abs(first).max())
            if method in ("fft", "fftw"):
                sh = tuple(int(x) for x in r.integers(0, n))
                m.near(rf.sample(np.roll(noise, sh, (0, 1, 2))), np.roll(first, sh, (0, 1, 2)), "shifted noise gives the shifted field", atol=1e-9 * np.abs(first).max())
            # switching methods on one object
            other = str(r.choice(["fft", "fftw", "dst", "dct"]))
            rf.setSamplingMethod(other)
            if min(n) >= 2:
                want = expected(other, noise, S, lengths)
                m.near(rf.sample(noise), want, f"sample after switching to {other}", atol=1e-9 * np.abs(want).max())
                # another covariance takes effect when the method is set, be it the same method
                rf.Covariance = cov = scalar_cov(r)
                rf.setSamplingMethod(other)
                want = expected(other, noise, cov.precompute_Spectrum(ref.grid_frequencies(n, lengths)), lengths)
                m.near(rf.sample(noise), want, "sample with another covariance", atol=1e-9 * np.abs(want).max())

    for i in range(m.n(60, 300)):
        name = f"vector/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        lev, dims, n, lengths = grid(r, "vf_fftw")
        L = float(loguniform(r, 0.1, 3) * lengths.min())
        with m.case(name, n=n, dims=dims, levels=lev, L=L):
            cov, kernel = vector_cov(r, L)
            rf = d.VectorGaussianRandomField(vdim=3, ndim=3, grid_level=lev, grid_dimensions=dims, grid_shape=n, sampling_method="vf_fftw", Covariance=cov)
            noise = r.normal(0, 1, tuple(n) + (3,))
            keep = noise.copy()
            u = rf.sample(noise)
            want = ref.vector_filter(noise, kernel(ref.grid_frequencies(n, lengths)), lengths)
            top = np.abs(want).max() + 1e-30
            m.near(u, want, "vector sample", atol=5e-6 * top)
            m.equal(noise, keep, "noise is not modified")
            first = u.copy()
            noise2 = r.normal(0, 1, noise.shape)
            v = rf.sample(noise2)
            m.equal(u, first, "an earlier sample is not overwritten by the next one")
            m.near(rf.sample(noise), first, "sampling the same noise again", atol=3e-6 * top)
            for y in layouts(noise):
                m.near(rf.sample(y), first, "the same noise in another memory layout", atol=3e-6 * top)
            a, b = r.normal(0, 1, 2)
            m.near(rf.sample(a * noise + b * noise2), a * first + b * v, "sampler is linear in the noise", atol=1e-5 * (top + np.abs(v).max()) * (1 + abs(a) + abs(b)))
            seed = int(r.integers(0, 2**32))
            rf.reseed(seed)
            drawn = np.random.RandomState(seed).normal(0, 1, noise.shape) * np.sqrt(np.prod(dims / (2.0**lev + 1)))
            got, want = rf.sample(), rf.sample(drawn)
            m.near(got, want, "vector sample without noise draws its own", atol=3e-6 * np.abs(want).max())
            sh = tuple(int(x) for x in r.integers(0, n))
            if not np.any(n % 2 == 0):
                m.near(rf.sample(np.roll(noise, sh, (0, 1, 2))), np.roll(first, sh, (0, 1, 2)), "shifted noise gives the shifted field", atol=1e-5 * top)

    for i in range(m.n(30, 250)):
        name = f"noise/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        lev, dims, n, lengths = grid(r, "fft")
        seed = (0, 2**32 - 1, 2**31, 1)[i] if i < 4 else int(r.integers(0, 2**32))
        with m.case(name, n=n, dims=dims, levels=lev, seed=seed):
            rf = d.GaussianRandomField(Covariance=scalar_cov(r), ndim=3, grid_level=lev, grid_shape=n, grid_dimensions=dims, sampling_method="fft")
            std = np.sqrt(np.prod(dims / (2.0**lev + 1)))
            rf.reseed(seed)
            rs = np.random.RandomState(seed)
            for _ in range(3):
                shape = None if r.random() < 0.4 else tuple(int(x) for x in r.integers(1, 8, int(r.integers(1, 5))))
                np.random.rand(2)
                got = rf.sample_noise(shape) if shape is not None else rf.sample_noise()
                m.near(got, rs.normal(0, 1, tuple(n) if shape is None else shape) * std, "noise is the seeded sequence scaled by the cell volume", rtol=1e-12)
            rf.reseed(seed)
            S = rf.Covariance.precompute_Spectrum(ref.grid_frequencies(n, lengths))
            want = expected("fft", np.random.RandomState(seed).normal(0, 1, tuple(n)) * std, S, lengths)
            m.near(rf.sample(), want, "sample without noise draws its own", atol=1e-10 * np.abs(want).max())
            rf.reseed()
            a = rf.sample_noise()
            rf.reseed()
            m.true(not np.array_equal(a, rf.sample_noise()) or a.size == 0, "fresh seeds differ", trivial=True)
            # a fresh seed forgets the given one: two fields with one past go apart
            two = []
            for _ in range(2):
                rf = d.GaussianRandomField(Covariance=scalar_cov(r), ndim=3, grid_level=lev, grid_shape=n, grid_dimensions=dims, sampling_method="fft")
                rf.reseed(seed)
                rf.reseed()
                two.append(rf.sample_noise())
            m.true(not np.array_equal(*two), "a fresh seed does not continue the seeded sequence")
            # seeds may be sequences of words, as numpy takes them
            words = [int(x) for x in r.integers(0, 2**32, int(r.integers(2, 6)))]
            rf.reseed(words if i % 2 else np.array(words, dtype=np.uint32))
            m.near(rf.sample_noise((4,)), np.random.RandomState(words).normal(0, 1, 4) * std, "noise of a seed of several words", rtol=1e-12)
            # a cube given by one level and one count
            lv, nn = int(lev[0]), int(n.max())
            rf = d.GaussianRandomField(Covariance=scalar_cov(r), ndim=3, grid_level=lv, grid_shape=nn, sampling_method="fft")
            rf.reseed(seed)
            m.near(rf.sample_noise(), np.random.RandomState(seed).normal(0, 1, (nn,) * 3) * np.sqrt(0.5 ** (3 * lv)), "noise on a cube is scaled by the cell volume", rtol=1e-12)

    # statistics: the ensemble covariance of the vector sampler is the spectral tensor (one mode at a time)
    for i in range(m.n(2, 8)):
        name = f"ensemble/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        n = np.array([5, 7, 5])
        lev = np.array([2, 2, 2])
        dims = np.array([5.0, 6.0, 4.0])
        lengths = dims / 5 * n
        with m.case(name, n=n):
            cov, kernel = vector_cov(r, 2.0)
            rf = d.VectorGaussianRandomField(vdim=3, ndim=3, grid_level=lev, grid_dimensions=dims, grid_shape=n, sampling_method="vf_fftw", Covariance=cov)
            rf.reseed(int(r.integers(1 << 30)))
            M = m.n(600, 2000)
            acc = 0
            for _ in range(M):
                u = rf.sample(rf.sample_noise(tuple(n) + (3,)))
                h = np.stack([np.fft.fftn(u[..., c]) for c in range(3)])
                acc = acc + np.einsum("a...,b...->ab...", h, h.conj())
            acc = acc / M
            G = kernel(ref.grid_frequencies(n, lengths))
            phi = np.einsum("al...,bl...->ab...", G, G.conj()).real
            var = np.prod(n) ** 2 * np.prod(dims / 5) / np.prod(lengths)
            tr = np.einsum("aa...->...", phi)
            got = np.einsum("aa...->...", acc).real / var
            # all modes together: a mean over hundreds of independent modes
            m.near(np.array(got.sum()), np.array(tr.sum()), "ensemble energy", rtol=8 / np.sqrt(M))
            m.near(acc.real.sum((2, 3, 4)) / var, phi.sum((2, 3, 4)), "ensemble covariance", atol=8 / np.sqrt(M) * tr.sum())

    # many threads on tiny grids, in this process: the number is read when the sampler is set up
    for i in range(m.n(4, 24)):
        name = f"count/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        method = ("vf_fftw", "fftw")[i % 2]
        n = r.permutation([3, 4, 5]) if i < 4 else r.integers(2, 7, 3)
        lev, dims = np.array([2, 2, 2]), loguniform(r, 0.5, 50, 3)
        lengths = dims / 5 * n
        vec = method == "vf_fftw"
        counts = ("8", str(r.choice([3, 4, 6, 7, 12, 16, 32]))) if i % 4 < 2 else ("16", "2")
        cov, kernel = vector_cov(r, float(lengths.min() / 2)) if vec else (scalar_cov(r), None)
        noise = r.normal(0, 1, tuple(n) + ((3,) if vec else ()))
        with m.case(name, method=method, n=n, counts=counts):
            if vec:
                want = ref.vector_filter(noise, kernel(ref.grid_frequencies(n, lengths)), lengths)
            else:
                want = expected(method, noise, cov.precompute_Spectrum(ref.grid_frequencies(n, lengths)), lengths)
            old = os.environ.get("OMP_NUM_THREADS")
            try:
                for t in counts:
                    os.environ["OMP_NUM_THREADS"] = t
                    kw = dict(ndim=3, grid_level=lev, grid_dimensions=dims, grid_shape=n, sampling_method=method, Covariance=cov)
                    rf = d.VectorGaussianRandomField(vdim=3, **kw) if vec else d.GaussianRandomField(**kw)
                    m.near(rf.sample(noise), want, f"{method} sample with {t} threads", atol=5e-6 * np.abs(want).max())
            finally:
                if old is None:
                    os.environ.pop("OMP_NUM_THREADS", None)
                else:
                    os.environ["OMP_NUM_THREADS"] = old

    # threads
    for i in range(m.n(1, 2)):
        name = f"omp/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        seed = int(r.integers(1 << 30))
        with m.case(name, seed=seed):
            outs = {}
            for t in ("1", "5", "2", "3", None)[: m.n(2, 5)]:
                env = dict(os.environ)
                env.pop("OMP_NUM_THREADS", None)
                if t:
                    env["OMP_NUM_THREADS"] = t
                path = os.path.join(work.scratch("omp"), "u.npy")
                try:
                    p = subprocess.run([sys.executable, os.path.join(VERIF, "checks", "c13.py"), str(seed), path], env=env, capture_output=True, text=True, timeout=150)
                except subprocess.TimeoutExpired:  # planning with many threads on a busy machine
                    m.skipped(f"no answer with OMP_NUM_THREADS={t}")
                    continue
                if p.returncode:
                    m.violate(f"sampling with OMP_NUM_THREADS={t} failed ({p.returncode})", p.stderr[-800:])
                    break
                outs[t] = np.load(path)
            ks = list(outs)
            for t in ks[1:]:
                m.near(outs[t], outs[ks[0]], f"field with OMP_NUM_THREADS={t}", atol=1e-5)

    def together(jobs, expect, what, tol):
        """Run ``jobs`` (functions of no argument, each giving a list of arrays) at once in threads."""
        out, errs = [None] * len(jobs), []
        bar = threading.Barrier(len(jobs))

        def go(j):
            try:
                bar.wait()
                out[j] = jobs[j]()
            except Exception as e:  # noqa: BLE001
                errs.append(e)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=go, args=(j,)) for j in range(len(jobs))]
            [t.start() for t in ts]
            [t.join() for t in ts]
        finally:
            sys.setswitchinterval(old)
        if errs:
            raise errs[0]
        for j in range(len(jobs)):
            for got in out[j]:
                if not m.near(got, expect[j], what, atol=tol):
                    return

    for i in range(m.n(4, 15)):
        name = f"concurrent/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfgs = [work.field_config(r) for _ in range(4)]
        if i % 2:  # the same grid for all of them
            cfgs = [dict(cfgs[0], seed=int(r.integers(1 << 30)), energy_spectrum_scale=1.0) for _ in cfgs]
        with m.case(name, models=[c["model"] for c in cfgs]):
            alone = [np.array(d.FluctuationFieldGenerator(**c).generate(3, 10.0, 1.0, 0.1, "LOG")) for c in cfgs]
            gens = [d.FluctuationFieldGenerator(**c) for c in cfgs]
            jobs = [lambda g=g: [[g.generate(1, 10.0, 1.0, 0.1, "LOG") for _ in range(3)][-1]] for g in gens]
            together(jobs, alone, "generators used in parallel threads", 1e-5)

    # fields of one shape, large enough that the transforms of two threads overlap in time
    for i in range(m.n(3, 20)):
        name = f"samplers/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        method = ("vf_fftw", "fftw", "fft")[i % 3]
        n = np.array([int(r.integers(40, 52)) for _ in range(3)])
        lev, dims = np.array([5, 5, 5]), loguniform(r, 0.5, 50, 3)
        with m.case(name, method=method, n=n):
            if method == "vf_fftw":
                new = lambda: d.VectorGaussianRandomField(vdim=3, ndim=3, grid_level=lev, grid_dimensions=dims, grid_shape=n, sampling_method=method, Covariance=vector_cov(r, float(loguniform(r, 0.1, 1) * dims.min()))[0])  # noqa: E731
                shape = tuple(n) + (3,)
            else:
                new = lambda: d.GaussianRandomField(ndim=3, grid_level=lev, grid_dimensions=dims, grid_shape=n, sampling_method=method, Covariance=scalar_cov(r))  # noqa: E731
                shape = tuple(n)
            fields = [new() for _ in range(3)]
            noise = [r.normal(0, 1, shape) for _ in fields]
            alone = [np.array(f.sample(x)) for f, x in zip(fields, noise)]
            jobs = [lambda f=f, x=x: [np.array(f.sample(x)) for _ in range(m.n(6, 12))] for f, x in zip(fields, noise)]
            together(jobs, alone, f"{method} fields of one shape sampled in parallel threads", 1e-5 * max(np.abs(a).max() for a in alone))


if __name__ == "__main__":
    sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo")]
    sys.dont_write_bytecode = True
    import drdmannturb as d

    r = np.random.default_rng(int(sys.argv[1]))
    out = []
    for _ in range(3):
        out.append(np.array(d.FluctuationFieldGenerator(**work.field_config(r)).generate(2, 10.0, 1.0, 0.1, "LOG")).ravel())
    for method in ("vf_fftw", "fft", "fftw", "dst", "dct"):
        lev, dims, n, _ = grid(r, method)
        kw = dict(ndim=3, grid_level=lev, grid_shape=n, grid_dimensions=dims, sampling_method=method)
        if method == "vf_fftw":
            rf = d.VectorGaussianRandomField(vdim=3, Covariance=vector_cov(r, float(loguniform(r, 0.1, 1) * dims.min()))[0], **kw)
        else:
            rf = d.GaussianRandomField(Covariance=scalar_cov(r), **kw)
        y = np.array(rf.sample(r.normal(0, 1, tuple(n) + ((3,) if method == "vf_fftw" else ())))).ravel()
        big = np.abs(y).max()
        out += [y / big * 10, np.log(big).reshape(1)]  # of comparable size, and the size itself
    np.save(sys.argv[2], np.concatenate(out))
