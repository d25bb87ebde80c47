"""C16: the combined field is the 3D field plus the 2D field seen at the right place, at every height, for every block."""

import warnings

import numpy as np

from vf import work
from vf.work import loguniform

RULE = """A case is one combined generator (random 3D and 2D configurations: 2D domain longer or shorter, wider or narrower
than the 3D one) and one history of generate() calls.  Oracles: the field of the same seed without the 2D model; bilinear
interpolation of the 2D field written here, at x running on through all blocks and y centred; zero beyond the 2D field;
the same at every height, nothing in the vertical component; equal seeds give equal fields whatever the state of numpy's
global generator and however the blocks are requested."""
ASSUMPTIONS = ["points within 1e-9 of the 2D domain's edge may count as inside or outside"]


def bilinear(x, y, u, dx, dy):
    """Value of u (given at i dx, j dy) at the points x times y, zero outside, and the mask of points clear of the edge."""
    n1, n2 = u.shape
    a, b = np.meshgrid(np.asarray(x) / dx, np.asarray(y) / dy, indexing="ij")
    inside = (a >= 0) & (a <= n1 - 1) & (b >= 0) & (b <= n2 - 1)
    edge = np.zeros_like(inside)
    for t, n in ((a, n1), (b, n2)):
        edge |= (np.abs(t) < 1e-7) | (np.abs(t - (n - 1)) < 1e-7)
    i = np.clip(np.floor(a).astype(int), 0, n1 - 2)
    j = np.clip(np.floor(b).astype(int), 0, n2 - 2)
    s, t = a - i, b - j
    v = (1 - s) * (1 - t) * u[i, j] + s * (1 - t) * u[i + 1, j] + (1 - s) * t * u[i, j + 1] + s * t * u[i + 1, j + 1]
    return np.where(inside, v, 0.0), ~edge


def combined(r):
    """3D keyword arguments and a 2D configuration of comparable size."""
    cfg = work.field_config(r)
    cfg["length_scale"] = L = float(loguniform(r, 20.0, 80.0))
    if r.random() < 0.15:  # two levels only
        cfg["grid_levels"] = np.array([cfg["grid_levels"][0], *r.permutation([0, int(r.integers(0, 3))])], dtype=int)
    n = 2.0 ** cfg["grid_levels"] + 1
    cfg["grid_dimensions"] = n * L * loguniform(r, 0.3, 3.0, 3)
    total = cfg["grid_dimensions"][0] * 4
    c = work.lf_config(r, isotropic=bool(r.random() < 0.7))
    # the 2D domain along x: from a fraction of the generated length to a multiple of it
    c["L_2d"] = float(np.clip(total * loguniform(r, 0.3, 5.0) / c["L1_factor"], 100.0, 1e5))
    c["sigma2"] = float(loguniform(r, 0.3, 5.0))
    return cfg, c


def LowFreq():
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    return LowFreqGenerator


def make(cfg, c=None):
    import drdmannturb as d

    with work.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return d.FluctuationFieldGenerator(**cfg, **({} if c is None else {"config_2d_model": dict(c)}))


def grow(g, n, a):
    with work.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return np.array(g.generate(n, **a))


def check(m):
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    for i in range(m.n(45, 300)):
        name = f"sum/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg, c = combined(r)
        weak = i % 5 == 4  # a 2D field that is tiny beside the mean flow
        if weak:
            c["sigma2"] = float(loguniform(r, 1e-6, 1e-3))
        if i % 9 == 2:
            cfg["seed"] = 0
        calls = [int(r.integers(1, 4)) for _ in range(int(r.integers(1, 4)))]
        a = work.profile_args(r)
        with m.case(name, cfg=cfg, c=c, calls=calls):
            np.random.seed(int(r.integers(1 << 31)))
            g, h = make(cfg, c), make(cfg)
            lf = g.low_freq_gen
            u2d = np.array(lf.u1), np.array(lf.u2)
            for n in calls:
                u, v = grow(g, n, a), grow(h, n, a)
            if not m.true(u.shape == v.shape, f"combined field has the shape of the 3D field ({u.shape})"):
                continue
            m.equal(lf.u1, u2d[0], "the 2D field is not modified")
            N = 2 ** np.asarray(cfg["grid_levels"]) + 1
            d3 = cfg["grid_dimensions"]
            x = np.arange(len(u)) * d3[0] / N[0]
            L1, L2 = c["L1_factor"] * c["L_2d"], c["L2_factor"] * c["L_2d"]
            y = L2 / 2 - d3[1] / 2 + np.arange(N[1]) * d3[1] / N[1]
            tol = (4e-5 + 1e-7 * np.abs(v).max()) * (0.03 if weak else 1)
            for k in range(2):
                want, clear = bilinear(x, y, u2d[k], L1 / 2 ** c["exp1"], L2 / 2 ** c["exp2"])
                want3 = np.broadcast_to(want[..., None], u.shape[:3])
                mask = np.broadcast_to(clear[..., None], u.shape[:3])
                diff = np.where(mask, u[..., k] - v[..., k], want3)
                m.near(diff, want3, f"2D part of component {k + 1}", atol=tol)
            m.near(u[..., 2], v[..., 2], "vertical component has no 2D part", atol=tol)
            m.true(np.abs(u2d[0]).max() > 0.3 * np.sqrt(c["sigma2"]) / 2, "2D field is not empty")

    for i in range(m.n(20, 150)):
        name = f"seed/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg, c = combined(r)
        if i % 5 == 2:
            cfg["seed"] = 0
        a = work.profile_args(r)
        total = int(r.integers(2, 5))
        with m.case(name, cfg=cfg, c=c, blocks=total):
            np.random.seed(int(r.integers(1 << 31)))
            one = grow(make(cfg, c), total, a)
            tol = 1e-5 * max(1.0, np.abs(one).max())
            np.random.seed(int(r.integers(1 << 31)))
            np.random.rand(3)
            g = make(cfg, c)
            left = total
            while left:
                n = int(r.integers(1, left + 1))
                np.random.rand(2)
                two = grow(g, n, a)
                left -= n
            m.near(two, one, "same seed, same combined field", atol=tol)
            other = make(dict(cfg, seed=cfg["seed"] + 1), c).low_freq_gen
            m.true(not np.allclose(other.u1, g.low_freq_gen.u1), "another seed gives another 2D field")

    for i in range(m.n(40, 300)):
        name = f"slice/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        c = work.lf_config(r, isotropic=bool(r.random() < 0.7))
        with m.case(name, **c):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g = LowFreqGenerator(dict(c), seed=int(r.integers(1 << 31)))
            try:
                g.interp_slice(np.array([0.0]), np.array([0.0]))
                m.violate("interpolation before generation is accepted")
            except RuntimeError:
                m.true(True, "interpolation before generation is refused")
            g.generate()
            L1, L2 = c["L1_factor"] * c["L_2d"], c["L2_factor"] * c["L_2d"]
            n1, n2 = g.u1.shape
            dx, dy = L1 / n1, L2 / n2
            for far in (1, 1, 1, 1e3):
                x = r.uniform(-0.2, 1.2, int(r.integers(1, 30))) * L1
                x[r.random(len(x)) < 0.5] *= far
                y = r.uniform(-0.2, 1.2, int(r.integers(1, 30))) * L2
                got = g.interp_slice(x, y)
                for k, u in enumerate((g.u1, g.u2)):
                    want, clear = bilinear(x, y, u, dx, dy)
                    m.near(np.where(clear, got[k], want), want, "interpolated slice", atol=1e-8 * np.abs(u).max())
            if r.random() < 0.5:  # the field drawn again: the interpolation follows it
                g.generate()
                x = r.uniform(-0.2, 1.2, int(r.integers(1, 30))) * L1
                y = r.uniform(-0.2, 1.2, int(r.integers(1, 30))) * L2
                got = g.interp_slice(x, y)
                for k, u in enumerate((g.u1, g.u2)):
                    want, clear = bilinear(x, y, u, dx, dy)
                    m.near(np.where(clear, got[k], want), want, "interpolated slice of another field", atol=1e-8 * np.abs(u).max())
            # interior grid points reproduce the field
            got = g.interp_slice(np.arange(1, n1 - 1) * dx, np.arange(1, n2 - 1) * dy)
            m.near(got[0], g.u1[1:-1, 1:-1], "interpolation at grid points", atol=1e-8 * np.abs(g.u1).max())
            m.near(got[1], g.u2[1:-1, 1:-1], "interpolation at grid points", atol=1e-8 * np.abs(g.u2).max())
