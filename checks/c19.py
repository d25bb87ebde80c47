"""C19: inadmissible input is refused where it enters, refusal changes nothing, and the advertised names exist."""

import os
import re

import numpy as np

from checks.c06 import coherence_file, synthetic
from checks.c14 import config as lf_config
from checks.c14 import quiet_gen
from vf import work
from vf.work import loguniform

RULE = """A case is one randomly drawn admissible configuration together with one randomly chosen way of making it
inadmissible (a non-positive or missing scale, an unknown name, a wrong length, NaN data at a random place, use before
anything was generated or fitted ...).  Oracle: the package raises a documented kind of error for the inadmissible variant,
accepts the admissible one, and an object that refused a request behaves afterwards exactly like one that never got it."""
ASSUMPTIONS = ["which error class is raised is only checked where the documentation names it"]


def bad_scale(r):
    return float(r.choice([0.0, -float(loguniform(r, 1e-6, 10)), -0.0]))


def check(m):
    import drdmannturb as d
    import torch
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    # ------------------------------------------------------------------ fitting side
    for i in range(m.n(40, 300)):
        name = f"scales/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        which = str(r.choice(["L", "Gamma", "sigma"]))
        lifetime = work.LIFETIMES[i % 5]
        good = dict(L=float(loguniform(r, 1e-3, 100)), Gamma=float(loguniform(r, 1e-3, 100)), sigma=float(loguniform(r, 1e-3, 100)))
        bad = dict(good, **{which: bad_scale(r)})
        with m.case(name, lifetime=lifetime, good=good, bad=bad):
            small = dict(ops_num_points=4)
            work.make_ops(lifetime, **good, integ=small)
            work.make_problem(lifetime, **good, integ=small)
            m.rejects(lambda: work.make_ops(lifetime, **bad, integ=small), f"spectra with {which}={bad[which]:g}")
            m.rejects(lambda: work.make_problem(lifetime, **bad, integ=small), f"a calibration problem with {which}={bad[which]:g}")

    for i in range(m.n(30, 200)):
        name = f"components/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        nc = int(r.choice([-1, 0, 1, 2, 5, 7, 9, 12]))
        with m.case(name, components=nc):
            m.rejects(lambda: work.make_problem("CONST", ncomp=nc, integ=dict(ops_num_points=4)), f"{nc} spectrum components", ValueError)
            pb = work.make_problem("CONST", ncomp=int(r.choice([3, 4, 6])), integ=dict(ops_num_points=4))
            pb.log_dimensional_scales()
            v = np.array(pb.parameters).copy()
            extra = int(r.integers(1, 6))
            for bad in (np.concatenate((v, v[:1].repeat(extra))), v[: -min(extra, len(v))], v[:0]):
                m.rejects(lambda: setattr(pb, "parameters", bad if r.random() < 0.5 else torch.tensor(bad)), f"{len(bad)} parameters instead of {len(v)}", ValueError)
                m.equal(np.array(pb.parameters), v, "parameters after the refused vector")
            setattr(pb.phys_params, str(r.choice(["L", "Gamma", "sigma"])), bad_scale(r))
            m.rejects(pb.log_dimensional_scales, "non-positive scales set afterwards", ValueError)
            m.equal(np.array(pb.parameters), v, "parameters after the refused scales")

    for i in range(m.n(60, 500)):
        name = f"network/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        n = int(r.integers(1, 5))
        sizes = [int(s) for s in r.integers(1, 8, n)]
        acts = [[torch.nn.ReLU, torch.nn.Tanh, torch.nn.GELU][int(j)]() for j in r.integers(0, 3, n)]
        good = dict(n_layers=n, hidden_layer_sizes=sizes if r.random() < 0.6 else sizes[0], activations=[acts, acts[0], None][int(r.integers(3))])
        kind = str(r.choice(["layers0", "layers-", "layers-float", "size0", "sizes-short", "sizes-long", "sizes-zero", "acts-short", "acts-long", "acts-notmodule", "acts-other"]))
        j = int(r.integers(n))
        zero = list(sizes)
        zero[j] = int(r.choice([0, -1, -5]))
        wrong = list(acts)
        wrong[j] = [torch.relu, "ReLU", torch.nn.ReLU][int(r.integers(3))]
        bad = dict(
            good,
            **{
                "layers0": dict(n_layers=0),
                "layers-": dict(n_layers=-n),
                "layers-float": dict(n_layers=float(n)),
                "size0": dict(hidden_layer_sizes=int(r.choice([0, -3]))),
                "sizes-short": dict(hidden_layer_sizes=sizes[:-1]),
                "sizes-long": dict(hidden_layer_sizes=sizes + [3]),
                "sizes-zero": dict(hidden_layer_sizes=zero),
                "acts-short": dict(activations=acts[:-1]),
                "acts-long": dict(activations=acts + [torch.nn.ReLU()]),
                "acts-notmodule": dict(activations=wrong),
                "acts-other": dict(activations=str(r.choice(["ReLU", "tanh"]))),
            }[kind],
        )
        with m.case(name, kind=kind, n=n, sizes=sizes):
            net = d.TauNet(**good)
            x = torch.tensor(r.normal(0, 2, (5, 3)), dtype=torch.get_default_dtype())
            m.true(bool(torch.isfinite(net(x)).all()), "an admissible network evaluates")
            m.rejects(lambda: d.TauNet(**bad), f"network with {kind}", ValueError)

    for i in range(m.n(24, 150)):
        name = f"nan-data/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        nc = int(r.choice([3, 4, 6]))
        lifetime = str(r.choice(["TAUNET", "CONST", "TWOTHIRD"]))
        n = int(r.integers(4, 9))
        ij = [(0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1)]
        used = ij[:nc]
        spoil = used[int(r.integers(nc))]
        pos = int(r.integers(n))
        loss = dict(alpha_pen1=float(r.choice([0.0, 1.0])), alpha_pen2=float(r.choice([0.0, 1.0])))
        with m.case(name, lifetime=lifetime, components=nc, spoiled=spoil, at=pos, n=n, loss=loss):
            k1 = torch.logspace(-1, 1, n)
            ops = synthetic(k1)
            bad = ops.clone()
            bad[pos, spoil[0], spoil[1]] = float("nan")
            pb = work.make_problem(lifetime, ncomp=nc, loss=loss, prob=dict(wolfe_iter_count=2), integ=dict(ops_num_points=5))
            v = np.array(pb.parameters).copy()

            def go(ops_):
                with work.quiet():
                    pb.calibrate({"k1": k1, "ops": ops_}, optimizer_class=torch.optim.Adam)

            m.rejects(lambda: go(bad), f"calibration against data with a NaN in component {spoil}", (ValueError, RuntimeError))
            m.equal(np.array(pb.parameters), v, "parameters after the refused data")
            m.rejects(pb.print_calibrated_params, "printing parameters that were never calibrated", ValueError)
            go(ops)
            with work.quiet():
                pb.print_calibrated_params()
            # measured coherence with a gap, where it is fitted
            if i % 3 == 0:
                f, seps = np.sort(loguniform(r, 0.5, 50, 3)), np.sort(loguniform(r, 0.05, 3, 4))
                path = coherence_file(f, seps, r)
                lines = open(path).read().rstrip("\n").split("\n")
                cells = [q for q, ln in enumerate(lines) if re.match(r"^\s*\d", ln)]
                del lines[int(r.choice(cells))]
                gap = os.path.join(work.scratch("gap"), "coh.dat")
                with open(gap, "w") as fh:
                    fh.write("\n".join(lines) + "\n")
                pb = work.make_problem(lifetime, ncomp=nc, loss=dict(loss, gamma_coherence=1.0), prob=dict(wolfe_iter_count=2), integ=dict(ops_num_points=5, coh_num_points=5))
                v = np.array(pb.parameters).copy()
                with work.quiet():
                    m.rejects(lambda: pb.calibrate({"k1": k1, "ops": ops}, coherence_data_file=gap), "calibration against coherence with a missing value", (ValueError, RuntimeError))
                m.equal(np.array(pb.parameters), v, "parameters after the refused coherence data")

    for i in range(m.n(10, 60)):
        name = f"before-fit/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        with m.case(name, lifetime=work.LIFETIMES[i % 5]):
            pb = work.make_problem(work.LIFETIMES[i % 5], integ=dict(ops_num_points=4), logging_directory=None)
            m.rejects(pb.print_calibrated_params, "printing parameters before calibration", ValueError)
            m.rejects(lambda: pb.plot(plot_tau=bool(r.random() < 0.5)), "plotting without data", ValueError)
            m.rejects(lambda: pb.plot_losses(0), "loss plot without a logging directory")
            with work.quiet():
                m.rejects(lambda: pb.load_coherence_data(os.path.join(work.scratch("c"), "missing.dat")), "a missing coherence file", FileNotFoundError)
                k1 = torch.logspace(-1, 1, 4)
                v = np.array(pb.parameters).copy()
                m.rejects(lambda: pb.calibrate({"k1": k1, "ops": synthetic(k1)}, coherence_data_file="missing.dat"), "calibration with a missing coherence file", FileNotFoundError)
            m.equal(np.array(pb.parameters), v, "parameters after the refused calibration")

    # ------------------------------------------------------------------ generation side
    base_dir = work.scratch("gen")
    for i in range(m.n(60, 400)):
        name = f"generator/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg = work.field_config(r)
        kind = str(r.choice(["model", "no-length", "no-time", "no-energy", "drd-no-path", "drd-missing", "lf-missing-key"]))
        bad = dict(cfg)
        exc = (ValueError, AssertionError)
        if kind == "model":
            bad["model"] = str(r.choice(["mann", "MANN", "vk", "NN", "Kaimal", "", "DRDM", "Mann "]))
        elif kind == "no-length":
            bad["length_scale"] = None
        elif kind == "no-time":
            bad["time_scale"] = None
        elif kind == "no-energy":
            bad["energy_spectrum_scale"] = None
        elif kind == "drd-no-path":
            bad["model"] = "DRD"
        elif kind == "drd-missing":
            bad.update(model="DRD", path_to_parameters=os.path.join(base_dir, "missing.pkl"))
            exc = FileNotFoundError
        else:
            c = dict(work.LF_BASE, exp1=4, exp2=3)
            del c[str(r.choice(sorted(c)))]
            bad["config_2d_model"] = c
            exc = KeyError
        with m.case(name, kind=kind, **cfg):
            m.rejects(lambda: d.FluctuationFieldGenerator(**bad), f"generator with {kind}", exc)
            d.FluctuationFieldGenerator(**cfg)

    for i in range(m.n(40, 250)):
        name = f"refused-profile/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg = work.field_config(r)
        done = int(r.integers(0, 3))
        good = work.profile_args(r)
        bad = work.profile_args(r)
        kind = str(r.choice(["zref", "uref", "z0", "name", "plexp"]))
        if kind in ("zref", "uref", "z0"):
            bad[kind] = bad_scale(r)
        elif kind == "name":
            bad["windprofiletype"] = str(r.choice(["log", "pl", "LOGLAW", "", "POWER", "PLL"]))
        else:
            bad = dict(zref=10.0, uref=5.0, z0=0.1, windprofiletype="PL")
        with m.case(name, kind=kind, blocks=done, **cfg):
            g = d.FluctuationFieldGenerator(**cfg)
            for _ in range(done):
                g.generate(1, **good)
            before = np.array(g.total_fluctuation).copy()
            m.rejects(lambda: g.generate(int(r.integers(1, 3)), **bad), f"profile with {kind} wrong", ValueError)
            m.equal(np.array(g.total_fluctuation), before, "field after the refused profile")
            u = np.array(g.generate(1, **good))
            N = 2 ** np.asarray(cfg["grid_levels"]) + 1
            m.true(u.shape == ((done + 1) * N[0], N[1], N[2], 3), f"a valid request after a refusal adds one block: {u.shape}")
            m.equal(u[: before.shape[0]], before, "blocks from before the refusal")
            m.true(bool(np.isfinite(u).all()), "field after a refusal is finite")
            h = d.FluctuationFieldGenerator(**cfg)
            if done:
                h.generate(done, **good)
            m.near(u, np.array(h.generate(1, **good)), "blocks after a refusal are those of a generator that never refused anything", atol=1e-5 * max(1.0, 5 * good["uref"]))

    for i in range(m.n(40, 250)):
        name = f"objects/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        nd = int(r.choice([0, 1, 2, 4]))
        L, G, E = (float(x) for x in loguniform(r, 0.1, 10, 3))
        with m.case(name, ndim=nd, L=L, Gamma=G, E0=E):
            m.rejects(lambda: d.VonKarmanCovariance(nd, L, E), f"isotropic covariance in {nd} dimensions", ValueError)
            m.rejects(lambda: d.MannCovariance(nd, L, E, G), f"sheared covariance in {nd} dimensions", ValueError)
            m.rejects(lambda: d.NNCovariance(ndim=nd, length_scale=L, E0=E, Gamma=G, ops=work.make_ops("CONST", L, G, E, integ=dict(ops_num_points=4)), h_ref=1.0),
                      f"data-driven covariance in {nd} dimensions", ValueError)
            cov = d.VonKarmanCovariance(3, L, E)
            shape = r.integers(3, 7, 3)
            kw = dict(grid_level=np.array([1, 2, 1]), grid_dimensions=np.array([1.0, 2.0, 1.5]), grid_shape=shape, Covariance=cov, ndim=3)
            m.rejects(lambda: d.VectorGaussianRandomField(**kw, sampling_method=str(r.choice(["FFT", "vf", "dht", "", "vf_fft"]))), "an unknown sampling method", Exception)
            k2 = dict(kw)
            k2[str(r.choice(["grid_level", "grid_dimensions"]))] = np.array([1, 2])
            m.rejects(lambda: d.VectorGaussianRandomField(**k2, sampling_method="vf_fftw"), "a grid description of the wrong length")
            k3 = dict(kw, grid_level=3, grid_dimensions=[1.0, 1.0, 1.0])
            m.rejects(lambda: d.GaussianRandomField(**k3, sampling_method="fft"), "a scalar level with a vector shape", ValueError)
            rf = d.VectorGaussianRandomField(**kw, sampling_method="vf_fftw")
            m.rejects(lambda: rf.setSamplingMethod("nonsense"), "switching to an unknown sampling method", Exception)

    for i in range(m.n(10, 60)):
        name = f"low-frequency/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        c = lf_config(r, True)
        with m.case(name, **c):
            g = quiet_gen(c, seed=int(r.integers(1 << 30)))
            m.rejects(lambda: g.interp_slice(np.zeros(2), np.zeros(2)), "interpolating before generation", RuntimeError)
            m.rejects(g.compute_spectrum, "spectrum before generation", RuntimeError)
            m.rejects(g.plot_velocity_fields, "plot before generation", RuntimeError)
            g.generate()
            k, a, b = g.compute_spectrum()
            m.true(len(k) == len(a) == len(b) > 0, "the same requests are served after generation")
            lack = str(r.choice(sorted(c)))
            m.rejects(lambda: quiet_gen({k: v for k, v in c.items() if k != lack}), f"configuration without {lack}", KeyError)

    # ------------------------------------------------------------------ parameters and names
    from drdmannturb import parameters as prm

    for i in range(m.n(60, 400)):
        name = f"domain/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        dims = [float(x) for x in loguniform(r, 0.1, 1e4, 3)]
        levels = [int(x) for x in r.integers(1, 9, 3)]
        form = [list, tuple, np.array][int(r.integers(3))]
        with m.case(name, dims=dims, levels=levels, form=form.__name__):
            p = prm.DomainParameters(form(dims), form(levels))
            m.equal(np.asarray(p.grid_dimensions), np.array(dims), "domain dimensions kept")
            m.equal(np.asarray(p.grid_levels), np.array(levels), "domain levels kept")
            m.true("DomainParameters(" in repr(p), "domain parameters can be printed")
            if form is not np.array:
                m.true(p == prm.DomainParameters(form(dims), form(levels)), "equal domain parameters compare equal")
                m.true(p != prm.DomainParameters(form(dims[:2] + [dims[2] * 2]), form(levels)), "different domain parameters compare different")
            cut = [list, tuple, np.array][int(r.integers(3))]
            n = int(r.choice([0, 1, 2, 4]))
            m.rejects(lambda: prm.DomainParameters(cut((dims + [1.0])[:n]), form(levels)), f"{n} domain dimensions", ValueError)
            m.rejects(lambda: prm.DomainParameters(form(dims), cut((levels + [1])[:n])), f"{n} domain levels", ValueError)

    if not m.skip("names/all"):
        with m.case("names/all"):
            import importlib
            import pkgutil

            for mod in pkgutil.walk_packages(d.__path__, "drdmannturb."):
                importlib.import_module(mod.name)
                m.true(True, f"{mod.name} imports")
            scope = {}
            exec("from drdmannturb import *", scope)
            for n in d.__all__:
                m.true(n in scope and scope[n] is getattr(d, n), f"advertised name {n} is exported")
            m.true({"CalibrationProblem", "FluctuationFieldGenerator", "OnePointSpectra", "EddyLifetimeType"} <= set(scope), "main classes are exported")
