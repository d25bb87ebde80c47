"""C12: each block has unit rms fluctuation about exactly the requested mean profile; invalid requests are refused."""

import numpy as np

from vf import work
from vf.work import loguniform

RULE = """A case is one generator (three kernels) and one history of valid and invalid generate() calls.  Oracle: block
minus the documented logarithmic or power-law profile has unit rms over all components and points; the profile changes the
streamwise component only and the same way at every x and y; amplitude-like inputs do not change the field; invalid
profiles are refused and leave the stored field untouched."""
ASSUMPTIONS = ["profile heights run from 0 to the domain height at the grid's vertical points"]


def split(m, u, N, args, dims):
    """Check blocks of u (each with its own profile arguments) and return the fluctuations."""
    z = np.linspace(0, float(dims[2]), int(N[2]))  # heights may be computed in the precision of the given dimensions
    flucts = []
    for b, a in enumerate(args):
        blk = np.array(u[b * N[0] : (b + 1) * N[0]], float)
        prof = work.ref_profile(z, a)
        blk[..., 0] -= prof
        rms = np.sqrt(np.mean(blk**2))
        m.near(np.array(rms), np.array(1.0), "rms of the fluctuation about the requested profile", atol=2e-6 * max(1.0, np.abs(prof).max()))
        flucts.append(blk)
    return flucts


def check(m):
    import drdmannturb as d

    for i in range(m.n(60, 500)):
        name = f"profile/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg = work.field_config(r)
        N = 2 ** np.asarray(cfg["grid_levels"]) + 1
        nb = int(r.integers(1, 4))
        args = [work.profile_args(r) for _ in range(nb)]
        if i % 10 == 0:  # a roughness length above the reference height: the logarithmic profile is negative
            args[0] = dict(zref=args[0]["zref"], uref=args[0]["uref"], z0=args[0]["zref"] * float(r.uniform(2, 9)), windprofiletype="LOG")
        if i % 10 == 5:  # a power law that is not concave
            args[0] = dict(zref=float(cfg["grid_dimensions"][2] * r.uniform(0.5, 2)), uref=args[0]["uref"], z0=args[0]["z0"], windprofiletype="PL", plexp=float(r.choice([1.0, r.uniform(1, 3)])))
        if i % 10 in (2, 7):  # the reference height at, just above or below the top of the domain, or at a level of the grid
            Lz = float(cfg["grid_dimensions"][2])
            args[0]["zref"] = Lz * float(r.choice([0.5, 0.999, 1.0, 1.0002, 1.01, 1.0 / max(1, N[2] - 1)]))
            args[0]["z0"] = min(args[0]["z0"], args[0]["zref"] / 2)
        if i % 10 in (1, 3, 6, 9):  # blocks whose profiles differ in one respect only
            kind = ("LOG", "PL")[i // 2 % 2]
            one = work.profile_args(r, kind)
            one["z0"] = min(one["z0"], one["zref"] / 3)
            args, keys = [dict(one)], ["zref", "uref"] + (["plexp"] if kind == "PL" else ["z0"])
            for q in r.permutation(len(keys)):
                one[keys[q]] *= float(r.uniform(1.2, 2.0))
                args.append(dict(one))
            nb = len(args)
        with m.case(name, **cfg, profiles=args):
            gen = d.FluctuationFieldGenerator(**cfg)
            for a in args:
                u = gen.generate(1, **a)
            f1 = split(m, u, N, args, cfg["grid_dimensions"])
            # another profile and other amplitudes: same fluctuation
            scale = 3.7 if i % 3 else float(loguniform(r, *((1e-9, 1e9), (1e-15, 1e-9), (1e9, 1e13))[i // 3 % 3]))
            cfg2 = dict(cfg, friction_velocity=cfg["friction_velocity"] * scale, energy_spectrum_scale=cfg["energy_spectrum_scale"] * float(loguniform(r, 0.01, 100)),
                        reference_height=cfg["reference_height"] * 2.2)
            args2 = [work.profile_args(r) for _ in range(nb)]
            gen2 = d.FluctuationFieldGenerator(**cfg2)
            for a in args2:
                u2 = gen2.generate(1, **a)
            f2 = split(m, u2, N, args2, cfg["grid_dimensions"])
            big = max(max(a["uref"] for a in args), max(a["uref"] for a in args2), 1.0)
            atol = 3e-5 + 1e-6 * big
            if cfg["grid_dimensions"].dtype == np.float32:
                z = np.linspace(0, float(cfg["grid_dimensions"][2]), int(N[2]))
                atol += 1e-6 * max(np.abs(work.ref_profile(z, a)).max() for a in args + args2)
            for a, b in zip(f1, f2):
                m.near(b, a, "fluctuation does not depend on profile, friction velocity, reference height or amplitude", atol=atol)

    # without a seed the blocks are drawn from fresh noise, with the same properties
    for i in range(m.n(6, 40)):
        name = f"unseeded/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg = work.field_config(r)
        cfg["seed"] = None
        if i % 3 == 0:
            cfg.pop("seed")
        N = 2 ** np.asarray(cfg["grid_levels"]) + 1
        args = [work.profile_args(r) for _ in range(2)]
        with m.case(name, **cfg, profiles=args):
            both = []
            for _ in range(2):
                gen = d.FluctuationFieldGenerator(**cfg)
                for a in args:
                    u = gen.generate(1, **a)
                both.append(split(m, u, N, args, cfg["grid_dimensions"])[0])
            m.true(not np.allclose(both[0], both[1], atol=1e-2), "unseeded generators draw different noise")

    for i in range(m.n(20, 150)):
        name = f"law/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        a = work.profile_args(r)
        with m.case(name, **a):
            z = np.concatenate([[0.0], loguniform(r, 1e-2, 1e3, 20)])
            if a["windprofiletype"] == "LOG":
                got = d.FluctuationFieldGenerator.log_law(z, a["z0"], a["zref"], a["uref"])
            else:
                got = d.FluctuationFieldGenerator.power_law(z, a["zref"], a["uref"], a["plexp"])
                m.near(np.array(d.FluctuationFieldGenerator.power_law(a["zref"], a["zref"], a["uref"], a["plexp"])), np.array(a["uref"]), "power law reaches the reference speed at the reference height", rtol=1e-12)
            m.near(got, work.ref_profile(z, a), "mean profile", rtol=1e-12)
            m.true((got[0] == 0 or a.get("plexp") == 0) and np.all(np.diff(got[np.argsort(z)]) >= 0), "mean profile starts at zero and increases")

    for i in range(m.n(20, 150)):
        name = f"refused/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg = work.field_config(r)
        with m.case(name, **cfg):
            gen = d.FluctuationFieldGenerator(**cfg)
            good = work.profile_args(r)
            n = int(r.integers(0, 3))
            if n:
                gen.generate(n, **good)
            before = np.array(gen.total_fluctuation)
            bad = []
            for key in ("zref", "uref", "z0"):
                bad.append((f"{key} = 0", dict(good, **{key: 0.0})))
                bad.append((f"{key} < 0", dict(good, **{key: -float(loguniform(r, 0.1, 10))})))
            for t in ("log", "XX", "", "pl"):
                bad.append((f"profile type {t!r}", dict(good, windprofiletype=t)))
            bad.append(("power law without exponent", {k: v for k, v in dict(good, windprofiletype="PL").items() if k != "plexp"}))
            r.shuffle(bad)
            for what, a in bad:
                if r.random() < 0.4:
                    continue
                m.rejects(lambda: gen.generate(int(r.integers(1, 3)), **a), f"generate with {what}", ValueError)
                m.equal(np.array(gen.total_fluctuation), before, "a refused request leaves the stored field alone")
            u = gen.generate(1, **good)
            N = 2 ** np.asarray(cfg["grid_levels"]) + 1
            if m.true(len(u) == len(before) + N[0], "a valid request after refused ones appends one block"):
                m.equal(u[: len(before)], before, "field after refused requests")
                split(m, u[len(before):], N, [good], cfg["grid_dimensions"])
