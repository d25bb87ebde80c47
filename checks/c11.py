"""C11: blocks are consecutive windows of one filtered noise sequence; the seed fixes the field however it is asked for."""

import numpy as np

from checks.c03 import ref_blocks
from vf import ref, work
from vf.work import loguniform

RULE = """A case is one seeded generator (random model, scales, anisotropic grid with one to sixteen cells per direction,
blending width 0..10, time scale down to 0) and one history of generate() calls (random chunking, changing profiles).
Oracles: the documented pipeline in float64 (sliding white-noise window of the seed, spectral filter, central crop, unit
rms, mean profile); equality of different chunkings of the same history; earlier blocks bitwise preserved."""
ASSUMPTIONS = ["transforms are single precision: 3e-5 of the fluctuation rms plus 1e-6 of the mean speed"]


def kernel_of(cfg):
    E0 = cfg["energy_spectrum_scale"] * cfg["friction_velocity"] ** 2 * cfg["reference_height"] ** (-2 / 3)
    L, G = cfg["length_scale"], cfg["time_scale"]
    return L, G, lambda f: ref.mann_kernel(f, L, E0, G, sheared=cfg["model"] == "Mann")


def config(r, i):
    cfg = work.field_config(r)
    z = r.random()
    if z < 0.12:
        cfg["time_scale"] = 0.0
    elif z < 0.2:
        cfg["time_scale"] = float(loguniform(r, 1e-3, 1e-2))
    if r.random() < 0.2:
        cfg["blend_num"] = 11
    if i % 8 == 5:  # correlations much longer than the block: the buffer is many blocks long
        cfg["grid_levels"] = np.minimum(cfg["grid_levels"], [1, 3, 3])
        cfg["time_scale"] = float(loguniform(r, 3, 12))
        cfg["grid_dimensions"] = np.array((2.0 ** cfg["grid_levels"] + 1) * cfg["length_scale"] * loguniform(r, [0.15, 0.4, 0.4], [0.6, 3.0, 3.0]))
    elif i % 8 == 7 or i % 16 == 3:  # or the margins are
        cfg["grid_levels"] = np.minimum(cfg["grid_levels"], [3, 1, 1])
        cfg["grid_dimensions"] = np.array((2.0 ** cfg["grid_levels"] + 1) * cfg["length_scale"] * loguniform(r, [0.4, 0.04, 0.04], [3.0, 0.2, 0.2]))
        if i % 8 == 3:
            cfg["grid_dimensions"][1 + i // 16 % 2] *= 0.25
    if i % 11 == 6:
        cfg["seed"] = 0
    if i % 9 == 4:  # the buffer needs hardly more than a whole number of points
        dx = cfg["grid_dimensions"][0] / (2 ** int(cfg["grid_levels"][0]) + 1)
        cfg["time_scale"] = float((int(r.integers(1, 5)) + (1e-5, 1e-3)[i // 9 % 2]) * dx / (3 * cfg["length_scale"]))
    return cfg


def check(m):
    import drdmannturb as d

    for i in range(m.n(50, 400)):
        name = f"pipeline/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg = config(r, i)
        calls = [(int(r.integers(1, 4)), work.profile_args(r)) for _ in range(int(r.integers(1, 4)))]
        with m.case(name, **cfg, calls=[c[0] for c in calls]):
            gen = d.FluctuationFieldGenerator(**cfg)
            N = 2 ** np.asarray(cfg["grid_levels"]) + 1
            done, before = 0, None
            for n, a in calls:
                out = gen.generate(n, **a)
                done += n
                if not m.true(out.shape == (done * N[0], N[1], N[2], 3), f"{done} blocks have shape {out.shape}"):
                    break
                m.true(out is gen.total_fluctuation or np.array_equal(out, gen.total_fluctuation), "returned field is the stored one", trivial=True)
                if before is not None:
                    m.equal(out[: len(before)], before, "earlier blocks are preserved when blocks are appended")
                before = np.array(out)
            else:
                L, G, kernel = kernel_of(cfg)
                want = ref_blocks(cfg, L, G, calls, kernel)
                u = max(a["uref"] * 10 for _, a in calls)
                m.near(before, want, "generated field", atol=3e-5 + 1e-6 * u)
                m.true(np.all(np.isfinite(before)), "field is finite")

    for i in range(m.n(30, 250)):
        name = f"chunks/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg = config(r, i)
        total = int(r.integers(2, 6))
        a = work.profile_args(r)
        with m.case(name, **cfg, blocks=total):
            tol = 1e-5 * max(1.0, a["uref"] * 5)
            one = np.array(d.FluctuationFieldGenerator(**cfg).generate(total, **a))
            again = np.array(d.FluctuationFieldGenerator(**cfg).generate(total, **a))
            m.near(again, one, "same seed, same field", atol=tol)
            g = d.FluctuationFieldGenerator(**cfg)
            left = total
            while left:
                n = int(r.integers(0, left + 1))
                g.generate(n, **a)
                left -= n
            m.near(np.array(g.total_fluctuation), one, "the field does not depend on how the blocks are requested", atol=tol)
            other = np.array(d.FluctuationFieldGenerator(**dict(cfg, seed=cfg["seed"] + 1)).generate(total, **a))
            m.true(np.abs(other - one).max() > 0.1, "another seed gives another field")
            short = np.array(d.FluctuationFieldGenerator(**cfg).generate(1, **a))
            m.near(short, one[: len(short)], "a shorter field is the beginning of a longer one", atol=tol)

    # long histories: nothing changes with the number of blocks or of calls
    for i in range(m.n(5, 40)):
        name = f"long/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg = config(r, i)
        cfg["grid_levels"] = np.minimum(cfg["grid_levels"], 3)
        cfg["grid_dimensions"] = (2.0 ** cfg["grid_levels"] + 1) * cfg["length_scale"] * loguniform(r, 0.4, 3.0, 3)
        a = work.profile_args(r)
        calls = [int(x) for x in r.choice([0, 1, 1, 1, 2, 3], int(r.integers(9, 15)))] + ([int(r.integers(8, 18))] if i % 2 else [])
        with m.case(name, **cfg, calls=calls):
            gen = d.FluctuationFieldGenerator(**cfg)
            for n in calls:
                out = gen.generate(n, **a)
            L, G, kernel = kernel_of(cfg)
            if m.true(len(out) == sum(calls) * (2 ** int(cfg["grid_levels"][0]) + 1), f"{sum(calls)} blocks have length {len(out)}"):
                m.near(out, ref_blocks(cfg, L, G, [(sum(calls), a)], kernel), "field of a long history", atol=3e-5 + 1e-5 * a["uref"])

    # neighbouring blocks come from overlapping windows of one sequence: no restart, no repetition, correlated seams
    for i in range(m.n(6, 40)):
        name = f"seams/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        L = float(loguniform(r, 5, 50))
        lev = np.array([int(r.integers(3, 5)), 3, 3])
        dims = (2.0**lev + 1) * L / 5
        with m.case(name, L=L, levels=lev):
            nb = 6
            cc = []
            for rep in range(6):
                g = d.FluctuationFieldGenerator(friction_velocity=1.0, reference_height=10.0, grid_dimensions=dims, grid_levels=lev, model="Mann", length_scale=L,
                                                time_scale=2.0, energy_spectrum_scale=1.0, seed=int(r.integers(1 << 30)), blend_num=int(r.choice([0, 1, 5, 10])))
                u = np.array(g.generate(nb, 10.0, 1e-9, 0.1, "LOG"))
                N = 2 ** lev[0] + 1
                for b in range(1, nb):
                    p, q = u[b * N - 1, ..., 0].ravel(), u[b * N, ..., 0].ravel()
                    cc.append(np.corrcoef(p, q)[0, 1])
                m.true(not np.allclose(u[:N], u[N : 2 * N], atol=1e-3), "blocks differ from one another")
            m.true(np.mean(cc) > 0.5, f"the field continues across block boundaries (correlation {np.mean(cc):.2f} at a fifth of the length scale)")
