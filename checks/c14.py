"""C14: the low-frequency generator's grid and its synthesis from white noise."""

import os
import subprocess
import sys
import warnings

import numpy as np

if __name__ == "__main__":
    sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]

from vf import ref, work
from vf.core import VERIF
from vf.work import loguniform

RULE = """A case is one configuration of the 2D generator (variance, length scale, anisotropy angle, layer height, domain
factors, grid exponents; square, elongated, smaller or larger than five length scales) and one history of draws.
Oracles: the documented grid rules; the field computed in float64 with numpy from the same noise; the central window of
it as the answer; the same answer for any number of numba threads and from an index-checked build (subprocesses with
NUMBA_NUM_THREADS=1..4, NUMBA_BOUNDSCHECK=1, NUMBA_OPT=0)."""
ASSUMPTIONS = [
    "length scales between 100 m and 100 km (the code treats far larger ones as having no energy)",
    "fields agree to 1e-6 of the largest value",
]
PHYS = ("sigma2", "L_2d", "psi", "z_i")


def config(r, isotropic=True, facility=True):
    c = work.lf_config(r, isotropic)
    c["L_2d"] = float(loguniform(r, 100.0, 1e5))
    c["psi"] = float(r.choice([r.uniform(0.02, 1.55), 0.03, 1.54, np.pi / 4]))
    if r.random() < 0.12:  # a long strip
        f, e = float(loguniform(r, 40, 120)), int(r.integers(0, 2))
        c.update({"L1_factor": f / 16, "L2_factor": f, "exp1": 3, "exp2": 7} if e else {"L1_factor": f, "L2_factor": f / 16, "exp1": 7, "exp2": 3})
        if not isotropic:
            c["L1_factor"] *= float(r.uniform(0.7, 1.5))
    if r.random() < 0.12 and facility:  # in the units of a small facility
        c["L_2d"], c["z_i"] = float(loguniform(r, 0.05, 5)), float(loguniform(r, 0.01, 2))
    z = r.random()
    if z < 0.1:  # numbers given as integers, or as numpy scalars
        c["L_2d"], c["z_i"], c["sigma2"] = max(1, round(c["L_2d"])), max(1, round(c["z_i"])), max(1, round(c["sigma2"]))
    elif z < 0.15:
        c = {k: np.int64(v) if k.startswith("exp") else np.float64(v) for k, v in c.items()}
    return c


def reference(c, noise, d):
    return ref.lf_fields(noise, d, d, c["sigma2"], c["L_2d"], c["psi"], c["z_i"])


def quiet_gen(c, **kw):
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return LowFreqGenerator(dict(c), **kw)


def grid_rules(m, c, g):
    """The computational grid, as documented."""
    L1, L2 = c["L1_factor"] * c["L_2d"], c["L2_factor"] * c["L_2d"]
    n1, n2 = 2 ** c["exp1"], 2 ** c["exp2"]
    d = min(L1 / n1, L2 / n2)
    N1, N2 = g.u1_full.shape
    m.true(N1 % 2 == 0 and N2 % 2 == 0, "computational grid has even counts")
    for N, L in ((N1, L1), (N2, L2)):
        t = max(L, 5 * c["L_2d"])
        m.true(N * d >= t * (1 - 1e-9), "computational grid covers the domain and five length scales", [N, d, t])
        m.true(N * d <= t + 3 * d, "computational grid is not larger than needed", [N, d, t])
    m.near(np.array([g.comp_dx, g.comp_dy]), np.array([d, d]), "computational spacing is the finer requested spacing", rtol=1e-9)
    m.near(np.array([g.comp_L1, g.comp_L2]), np.array([N1 * d, N2 * d]), "computational lengths", rtol=1e-9)
    m.near(g.user_x_coords, np.arange(n1) * L1 / n1, "user x coordinates", rtol=1e-9)
    m.near(g.user_y_coords, np.arange(n2) * L2 / n2, "user y coordinates", rtol=1e-9)
    return d


def resampled(full, got, ax):
    """Whether ``got`` samples ``full`` at ``ax`` cells per point around its centre (any interpolation, any cell offset)."""
    from scipy.ndimage import map_coordinates

    for o1 in np.linspace(-1, 1, 9):
        for o2 in np.linspace(-1, 1, 9):
            x = [(N - 1) / 2 + (np.arange(n) - (n - 1) / 2) * a + o for N, n, a, o in zip(full.shape, got.shape, ax, (o1, o2))]
            v = map_coordinates(full, np.meshgrid(*x, indexing="ij"), order=1, mode="grid-wrap")
            if np.std(v - got) < 0.3 * np.std(v):
                return True
    return False


def check(m):
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    def run(name, r, c, aniso):
        with m.case(name, **c):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                given = dict(c)
                seed = int(r.integers(1 << 31)) if r.random() < 0.5 else None
                g = LowFreqGenerator(given, **({} if seed is None else {"seed": seed}))
            small = min(c["L1_factor"], c["L2_factor"]) < 5
            m.true(any("smaller" in str(w.message) for w in ws) == small, "a domain below five length scales is announced")
            m.true(g.u1 is None and g.u2 is None, "no field before generation", trivial=True)
            gseed = int(r.integers(1 << 31))
            np.random.seed(gseed)
            stream = np.random.RandomState(gseed) if seed is None else np.random.default_rng(seed)
            prev = []
            for step in range(int(r.integers(1, 4))):
                ans = g.generate()
                sp = grid_rules(m, c, g)
                noise = stream.normal(0, 1, size=g.u1_full.shape)
                want = reference(c, noise, sp)
                n = (2 ** c["exp1"], 2 ** c["exp2"])
                st = [(a - b) // 2 for a, b in zip(noise.shape, n)]
                win = (slice(st[0], st[0] + n[0]), slice(st[1], st[1] + n[1]))
                for j, (full, got, stored) in enumerate(((g.u1_full, ans[0], g.u1), (g.u2_full, ans[1], g.u2))):
                    top = np.abs(want[j]).max()
                    m.near(full, want[j], f"u{j + 1} on the computational grid", atol=1e-6 * top)
                    m.near(full.mean(), np.array(0.0), "zero mean", atol=1e-10 * top)
                    m.equal(got, stored, "returned field is the stored field")
                    if not aniso:
                        m.near(got, want[j][win], f"u{j + 1} is the central window", atol=1e-6 * top)
                    else:
                        m.true(got.shape == n and np.all(np.isfinite(got)), "requested shape")
                        # the answer must be the field at the requested spacing; today it is the window of the finer grid
                        ax = [c["L1_factor"] * c["L_2d"] / n[0] / sp, c["L2_factor"] * c["L_2d"] / n[1] / sp]
                        if np.allclose(got, want[j][win], atol=1e-6 * top):
                            if max(ax) > 1.02:
                                m.known("anisotropic-window", "the field covers only part of the requested domain")
                        else:
                            m.true(resampled(want[j], got, ax), "field at the requested spacing over the requested domain")
                for a, b in prev:
                    m.equal(a, b, "an earlier field is not overwritten")
                prev += [(ans[0], ans[0].copy()), (ans[1], ans[1].copy())]
            m.true(repr(given) == repr(c), "configuration is not modified")
            if seed is not None:
                h = quiet_gen(c, seed=seed)
                np.random.seed(int(r.integers(1 << 31)))
                m.equal(h.generate()[0], prev[0][1], "same seed, same field")

    for i in range(m.n(45, 300)):
        name = f"field/{i}"
        if not m.skip(name):
            r = m.rng(name)
            c = config(r)
            if i % 7 == 3:  # nearly all the energy in one component
                c["psi"] = float(r.choice([1e-4, 1e-3, np.pi / 2 - 1e-3, np.pi / 2 - 1e-4]))
            if i % 9 == 4:  # coarser than the length scale
                c.update(L1_factor=2.0 ** c["exp1"] * (s := float(r.uniform(1.1, 6))), L2_factor=2.0 ** c["exp2"] * s)
            run(name, r, c, False)

    # narrow domains, finely resolved: the computational grid is many times the requested one
    for i in range(m.n(2, 8)):
        name = f"fine/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        c = config(r)
        c.update(L1_factor=float(r.uniform(0.15, 0.3)), exp1=6, L2_factor=float(r.uniform(2.0, 6.0)), L_2d=float(loguniform(r, 500, 5e4)))
        c["exp2"] = 3  # overwritten below: the same spacing in both directions
        n2 = 2 ** int(r.integers(5, 7))
        c["L2_factor"], c["exp2"] = c["L1_factor"] * n2 / 64, int(np.log2(n2))
        if i % 2:
            for a, b in (("L1_factor", "L2_factor"), ("exp1", "exp2")):
                c[a], c[b] = c[b], c[a]
        run(name, r, c, False)

    for i in range(m.n(6, 30)):
        name = f"anisotropic/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        c = config(r, isotropic=False)
        if i == 0:
            c.update(L_2d=5000.0, L1_factor=5.0, L2_factor=5.0, exp1=6, exp2=5)
        run(name, r, c, True)

    # the default draws come from numpy's global generator
    for i in range(m.n(4, 20)):
        name = f"homogeneous/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        c = config(r)
        s = float(loguniform(r, 0.1, 10))
        with m.case(name, scale=s, **c):
            g, h = quiet_gen(c, seed=5), quiet_gen(dict(c, sigma2=c["sigma2"] * s), seed=5)
            a, b = g.generate(), h.generate()
            m.near(b[0], a[0] * np.sqrt(s), "amplitude scales with the square root of the variance", atol=1e-9 * np.abs(b[0]).max())
            # units: stretching every length leaves the fluctuations unchanged
            t = float(loguniform(r, 0.3, 3.0))
            q = quiet_gen(dict(c, L_2d=c["L_2d"] * t, z_i=c["z_i"] * t), seed=5).generate()
            if q[0].shape == a[0].shape:
                m.near(q[1], a[1], "stretching all lengths leaves the field unchanged", atol=1e-5 * np.abs(a[1]).max())

    for i in range(m.n(1, 3)):
        name = f"threads/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        seed = int(r.integers(1 << 30))
        with m.case(name, seed=seed):
            modes = [dict(NUMBA_NUM_THREADS="1", NUMBA_BOUNDSCHECK="1"), dict(NUMBA_NUM_THREADS="4"), dict(NUMBA_NUM_THREADS="3"), dict(NUMBA_NUM_THREADS="2", NUMBA_OPT="0")]
            base = None
            for mode in modes[: m.n(2, 4)]:
                path = os.path.join(work.scratch("nb"), "u.npz")
                try:
                    p = subprocess.run([sys.executable, os.path.abspath(__file__), str(seed), path], env=dict(os.environ, **mode), capture_output=True, text=True, timeout=200)
                except subprocess.TimeoutExpired:
                    m.skipped(f"no answer with {mode}")
                    continue
                if p.returncode:
                    m.violate(f"generation with {mode} failed ({p.returncode})", p.stderr[-800:])
                    continue
                z = np.load(path)
                if base is None:
                    base = z
                else:
                    for k in base.files:
                        m.near(z[k], base[k], f"fields and spectra with {mode}", atol=1e-9 * np.abs(base[k]).max())


if __name__ == "__main__":
    sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo")]
    sys.dont_write_bytecode = True
    r = np.random.default_rng(int(sys.argv[1]))
    out = {}
    for j in range(4):
        c = config(r)
        g = quiet_gen(c, seed=j)
        out[f"u{j}"] = np.array(g.generate())
        out[f"F{j}"] = np.array(g.compute_spectrum())
    np.savez(sys.argv[2], **out)
