"""C10: results depend on the arguments and the seed only, not on what was evaluated before or next to it."""

import contextlib
import copy
import os
import warnings

import numpy as np

from checks.c06 import synthetic
from vf import work
from vf.work import loguniform

RULE = """A case is one random history: spectra, coherence and lifetime evaluations, calibrations, plots, generators and
kernels in random order, several objects interleaved and sharing configuration objects, with the global random state and
other objects disturbed in between.  Oracle: the value a fresh object gives for the same arguments in isolation, bitwise
equality of every input and configuration object before and after, and unchanged global torch and numpy settings."""
ASSUMPTIONS = ["floating-point results of identical calls are compared to 1e-6 (single) or 1e-12 (double precision)"]


def snapshot(o):
    import torch

    if hasattr(o, "__dataclass_fields__"):
        return {k: snapshot(getattr(o, k)) for k in o.__dict__}
    if isinstance(o, torch.Tensor):
        return ("t", o.dtype, o.detach().clone().numpy().tobytes(), tuple(o.shape))
    if isinstance(o, np.ndarray):
        return ("a", str(o.dtype), o.tobytes(), o.shape)
    if isinstance(o, dict):
        return {k: snapshot(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [snapshot(v) for v in o]
    return repr(o)


def settings():
    """Process-wide settings that no part of the package has business changing."""
    import locale
    import logging
    import os
    import random
    import sys

    import matplotlib
    import torch

    return dict(
        errstate=np.geterr(), print_options=repr(np.get_printoptions()), default_dtype=torch.get_default_dtype(), grad=torch.is_grad_enabled(),
        anomaly=torch.is_anomaly_enabled(), deterministic=torch.are_deterministic_algorithms_enabled(), torch_threads=torch.get_num_threads(),
        default_device=str(torch.get_default_device()), cwd=os.getcwd(), environ=dict(os.environ), path=list(sys.path), python_random=random.getstate(), numpy_random=repr(np.random.get_state(legacy=False)),
        switch=sys.getswitchinterval(), recursion=sys.getrecursionlimit(), locale=locale.setlocale(locale.LC_NUMERIC),
        torch_print=repr(vars(torch._tensor_str.PRINT_OPTS)), warning_filters=[repr(f) for f in warnings.filters if f[1] is None and f[3] is None], handlers=repr(logging.getLogger().handlers),
        root_level=logging.getLogger().level, disabled=logging.root.manager.disable, rc={k: v for k, v in matplotlib.rcParams.items() if k != "backend"},
    )


# what the package itself imports from elsewhere is imported first; that may well change settings
IMPORT = """
import os, sys
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), sys.argv[1]]
import numpy, scipy, matplotlib, matplotlib.pyplot, torch, pandas, sklearn.linear_model, plotly.graph_objects, plotly.subplots, numba, pyfftw, tqdm, torch.utils.tensorboard, tensorboard.backend.event_processing.event_accumulator
from checks.c10 import settings
before = settings()
assert "drdmannturb" not in sys.modules
import drdmannturb, drdmannturb.fluctuation_generation, drdmannturb.spectra_fitting
from drdmannturb.fluctuation_generation import wind_plot, cmap_util
from drdmannturb.fluctuation_generation.low_frequency import large_plot
after = settings()
print("changed:", [k for k in before if before[k] != after[k] and k not in ("environ", "python_random", "path", "handlers")])
"""


class Marker(Warning):
    pass


@contextlib.contextmanager
def same_settings(m, what):
    """Start from settings that are none of anybody's defaults; they must survive."""
    import torch

    import matplotlib

    old, threads, omp = np.geterr(), torch.get_num_threads(), os.environ.pop("OMP_NUM_THREADS", None)
    font = matplotlib.rcParams["font.size"]
    matplotlib.rcParams["font.size"] = 9.3
    torch.set_printoptions(precision=3)
    torch.set_num_threads(7)
    torch.autograd.set_detect_anomaly(False)
    np.seterr(divide="warn", over="print", under="ignore", invalid="warn")
    with warnings.catch_warnings(record=True) as seen:
        warnings.resetwarnings()
        warnings.simplefilter("always")
        warnings.simplefilter("ignore", category=Marker)  # so that another simplefilter shows
        before = settings()
        try:
            yield
        finally:
            after = settings()
            np.seterr(**old)
            torch.set_num_threads(threads)
            torch.set_printoptions(precision=4)
            torch.autograd.set_detect_anomaly(False)
            matplotlib.rcParams["font.size"] = font
            if omp is not None:
                os.environ["OMP_NUM_THREADS"] = omp
        n = len(seen)
        for c in (UserWarning, RuntimeWarning, DeprecationWarning):
            warnings.warn("probe", c, stacklevel=1)
        m.true(len(seen) == n + 3, f"{what} does not silence warnings", trivial=True)
    m.true(before == after, f"{what} leaves the process-wide settings alone", {k: (str(before[k])[:200], str(after[k])[:200]) for k in before if before[k] != after[k]}, trivial=True)


def globals_state():
    import torch

    s = np.random.get_state()
    return torch.get_default_dtype(), torch.is_grad_enabled(), torch.get_num_threads(), torch.is_anomaly_enabled(), repr(np.geterr()), s[1].tobytes(), s[2]


def check(m):
    import drdmannturb as d
    import torch

    # ------------------------------------------------ importing the package
    for i in range(m.n(1, 2)):
        name = f"import/{i}"
        if m.skip(name):
            continue
        import subprocess
        import sys

        with m.case(name):
            p = subprocess.run([sys.executable, "-c", IMPORT, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))], capture_output=True, text=True, timeout=300)
            m.true(p.returncode == 0, "the package can be imported in a fresh process", p.stderr[-400:])
            m.true(p.returncode != 0 or p.stdout.strip().endswith("changed: []"), "importing the package leaves the process-wide settings alone", p.stdout[-400:])

    # ------------------------------------------------ models
    for i in range(m.n(30, 250)):
        name = f"models/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        dtype = "float64" if r.random() < 0.4 else "float32"
        life = [work.LIFETIMES[i % 5], str(r.choice(work.LIFETIMES))]
        ls = bool(r.random() < 0.4)
        same_cfg = bool(r.random() < 0.6)
        with work.default_dtype(dtype), m.case(name, lifetimes=life, dtype=dtype, learn_spectrum=ls, shared=same_cfg):
            phys = d.PhysicalParameters(L=float(loguniform(r, 0.3, 2)), Gamma=float(loguniform(r, 0.5, 4)), sigma=float(loguniform(r, 0.3, 5)))
            lossp = d.LossParameters(alpha_pen1=0.1)
            nnp = d.NNParameters(nlayers=2, hidden_layer_size=4)
            ip = d.IntegrationParameters(ops_num_points=6, coh_num_points=6, coh_log_max=1.5)
            probs = [d.ProblemParameters(num_components=4, eddy_lifetime=getattr(d.EddyLifetimeType, x), nepochs=1, wolfe_iter_count=2, learn_nu=True,
                                         use_learnable_spectrum=ls, tol=0.0) for x in life]

            def new(j, own=False):
                c = (lambda o: o) if same_cfg and not own else copy.deepcopy
                with work.quiet():
                    return d.CalibrationProblem(nn_params=c(nnp), prob_params=c(probs[j]), loss_params=c(lossp), phys_params=c(phys), integration_params=c(ip),
                                                logging_directory=work.scratch("tb"), output_directory=work.scratch("out"))

            cfg0 = snapshot([phys, lossp, nnp, ip, probs])
            pbs = [new(0), new(1)]
            for pb in pbs:
                work.shake_network(pb.OPS, r, 0.3)
            vec = [np.array(pb.parameters).copy() for pb in pbs]
            ks = [torch.tensor(loguniform(r, 0.1, 20, n), dtype=torch.get_default_dtype()) for n in (3, 1, 4)]
            ks += [ks[0] * torch.tensor([1.0, 1.7, 1.0]), ks[0].flip(0)]  # alike in number, ends, or values
            kd = torch.logspace(-1, 1, 5)
            if r.random() < 0.4:  # the caller's data need not be sorted
                kd = kd[torch.tensor(r.permutation(5))]
            data = {"k1": kd, "ops": synthetic(kd)}
            in0 = snapshot([ks, data])
            hist = []
            tol = 1e-6 if dtype == "float32" else 1e-12
            for _ in range(int(r.integers(4, 10))):
                j = int(r.integers(2))
                op = str(r.choice(["eval", "coh", "tau", "set", "fit", "noise", "eval", "grad"]))
                hist.append((op, j))
                g0 = globals_state()
                pb = pbs[j]
                k = ks[int(r.integers(5))]
                draws = torch.get_rng_state()
                fresh = None
                with work.quiet():
                    if op == "eval":
                        got = pb.eval(k)
                        m.true(torch.equal(torch.get_rng_state(), draws), "evaluation draws no random numbers from torch", trivial=True)
                        fresh = new(j, own=True)
                        fresh.parameters = vec[j]
                        m.near(got, fresh.eval(k), "spectra do not depend on the history", rtol=tol, atol=1e-15)
                    elif op == "coh":
                        sep = torch.tensor([0.0, 0.4, 1.1])
                        with torch.no_grad():
                            got = pb.OPS.SpectralCoherence(k, sep)
                            m.true(torch.equal(torch.get_rng_state(), draws), "coherence draws no random numbers from torch", trivial=True)
                            fresh = new(j, own=True)
                            fresh.parameters = vec[j]
                            m.near(got, fresh.OPS.SpectralCoherence(k, sep), "coherence does not depend on the history", atol=max(tol, 1e-6) if dtype == "float32" else 1e-10)
                    elif op == "tau":
                        kv = torch.tensor(loguniform(r, 0.1, 10, (4, 3)), dtype=torch.get_default_dtype())
                        with torch.no_grad():
                            got = pb.OPS.EddyLifetime(kv)
                            fresh = new(j, own=True)
                            fresh.parameters = vec[j]
                            m.near(got, fresh.OPS.EddyLifetime(kv), "lifetime does not depend on the history", rtol=tol)
                    elif op == "set":
                        vec[j] = vec[j] + r.normal(0, 0.2, vec[j].shape).astype(vec[j].dtype)
                        pb.parameters = vec[j]
                    elif op == "fit":
                        pb.calibrate(data, optimizer_class=torch.optim.Adam if r.random() < 0.5 else torch.optim.LBFGS)
                        vec[j] = np.array(pb.parameters).copy()
                    elif op == "grad":
                        y = pb.OPS(k)
                        y.sum().backward()
                    else:
                        np.random.rand(3)
                        g0 = globals_state()
                m.true(globals_state() == g0, f"{op} leaves the global torch and numpy settings alone", trivial=True)
                if fresh is None:  # a new network draws its weights; nothing else here is random
                    m.true(torch.equal(torch.get_rng_state(), draws), f"{op} draws no random numbers from torch", trivial=True)
                for q in range(2):
                    m.equal(np.asarray(pbs[q].parameters), vec[q], f"{op} changes no other model")
            m.true(snapshot([ks, data]) == in0, f"inputs are unchanged after {hist}", trivial=True)
            m.true(snapshot([phys, lossp, nnp, ip, probs]) == cfg0, f"configuration objects are unchanged after {hist}", trivial=True)

    # ------------------------------------------------ a calibration is a function of its inputs and the torch seed
    for i in range(m.n(6, 40)):
        name = f"deterministic/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        lifetime = work.LIFETIMES[i % 5]
        adam = bool(r.random() < 0.5)
        seed = int(r.integers(1 << 30))
        noise = bool(r.random() < 0.5)
        with m.case(name, lifetime=lifetime, adam=adam, noise=noise):
            kd = torch.logspace(-1, 1, 6)
            data = {"k1": kd, "ops": synthetic(kd)}

            def run():
                torch.manual_seed(seed)
                pb = work.make_problem(lifetime, 0.7, 2.5, 2.0, integ=dict(ops_num_points=7), prob=dict(nepochs=2, wolfe_iter_count=3, tol=0.0, init_with_noise=noise))
                with work.quiet():
                    pb.calibrate(data, optimizer_class=torch.optim.Adam if adam else torch.optim.LBFGS)
                return np.array(pb.parameters)

            a = run()
            np.random.rand(int(r.integers(1, 9)))
            work.make_problem("TAUNET", 1.0, 1.0, 1.0)
            m.near(run(), a, "a repeated calibration finds the same parameters", rtol=1e-5, atol=1e-6)

    # ------------------------------------------------ what is drawn after building a model does not repeat what was drawn before
    for i in range(m.n(8, 40)):
        name = f"stream/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        lifetime = "TAUNET" if i < 3 else work.LIFETIMES[i % 5]
        noise = bool(i % 2)
        with m.case(name, lifetime=lifetime, noise=noise):
            torch.manual_seed(int(r.integers(1 << 30)))
            seen = []
            for j in range(3):
                seen.append(torch.rand(5))
                pb = work.make_problem(lifetime, 0.7, 2.5, 2.0, integ=dict(ops_num_points=5), prob=dict(init_with_noise=noise, noise_magnitude=0.1, nepochs=1, wolfe_iter_count=2))
                if lifetime == "TAUNET":  # otherwise the scales are the only parameters, and they are configured
                    seen.append(torch.tensor(np.array(pb.parameters)))
                if j == 1:
                    with work.quiet():
                        pb.calibrate({"k1": torch.logspace(-1, 1, 4), "ops": synthetic(torch.logspace(-1, 1, 4))})
            m.true(all(a.shape != b.shape or not torch.equal(a, b) for j, a in enumerate(seen) for b in seen[:j]), "random draws do not repeat")

    # ------------------------------------------------ generators
    for i in range(m.n(16, 120)):
        name = f"generators/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfgs = [work.field_config(r) for _ in range(2)]
        with m.case(name, models=[c["model"] for c in cfgs], levels=[c["grid_levels"] for c in cfgs]):
            prof = [work.profile_args(r) for _ in range(2)]
            alone = []
            for c, a in zip(cfgs, prof):
                g = d.FluctuationFieldGenerator(**c)
                alone.append(np.array(g.generate(3, **a)))
            in0 = snapshot([cfgs, prof])
            np.random.seed(int(r.integers(1 << 30)))
            g0 = globals_state()
            gens = [d.FluctuationFieldGenerator(**c) for c in cfgs]
            m.true(globals_state() == g0, "constructing a seeded generator leaves the global settings and random state alone", trivial=True)
            out = [None, None]
            order = [0, 0, 0, 1, 1, 1]
            r.shuffle(order)
            for j in order:
                if r.random() < 0.5:
                    np.random.seed(int(r.integers(1 << 30)))
                    torch.manual_seed(int(r.integers(1 << 30)))
                g0 = globals_state()
                out[j] = gens[j].generate(1, **prof[j])
                m.true(globals_state() == g0, "generating with a seed leaves the global settings and random state alone", trivial=True)
            for j in range(2):
                m.near(out[j], alone[j], "interleaved generators give what each gives alone", atol=1e-5 * max(1, prof[j]["uref"]))
                m.true(out[j] is not alone[j] and not np.shares_memory(out[j], out[1 - j]), "fields of two generators are separate", trivial=True)
            m.true(snapshot([cfgs, prof]) == in0, "generator arguments are unchanged", trivial=True)

    # ------------------------------------------------ one low-frequency configuration, several users
    from checks import c16

    for i in range(m.n(6, 50)):
        name = f"shared-2d/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg, c = c16.combined(r)
        a = work.profile_args(r)
        with m.case(name, cfg=cfg, c=c), work.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            n = int(r.integers(1, 4))
            want = np.array(d.FluctuationFieldGenerator(**cfg, config_2d_model=dict(c)).generate(n, **a))
            alone = [np.array(x) for x in c16.LowFreq()(dict(c), seed=3).generate()]
            shared, given = dict(c), snapshot([cfg, c, a])
            lf = c16.LowFreq()(shared, seed=3)
            one = d.FluctuationFieldGenerator(**cfg, config_2d_model=shared)
            two = d.FluctuationFieldGenerator(**dict(cfg, seed=cfg["seed"] + 1), config_2d_model=shared)
            for j in range(n):
                got = one.generate(1, **a)
                two.generate(1, **a)
            first = lf.generate()
            tol = 1e-5 * max(1.0, np.abs(want).max())
            m.near(got, want, "combined field with a shared configuration", atol=tol)
            for x, y in zip(first, alone):
                m.near(x, y, "2D field with a shared configuration", atol=1e-9 * np.abs(y).max())
            m.near(d.FluctuationFieldGenerator(**cfg, config_2d_model=shared).generate(n, **a), want, "combined field, once more", atol=tol)
            m.true(snapshot([cfg, shared, a]) == given, "shared 2D configuration is not modified")

    # ------------------------------------------------ settings of the process
    from checks.c06 import coherence_file

    from drdmannturb.fluctuation_generation import wind_plot
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
    import matplotlib.pyplot as plt

    for i in range(m.n(4, 40)):
        name = f"settings/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        dtype = ("float32", "float64")[i % 2]
        # every other case runs where the caller has switched gradients off
        with work.default_dtype(dtype), m.case(name, dtype=dtype, gradients=i % 4 < 2), torch.set_grad_enabled(i % 4 < 2), work.quiet():
            grid = [np.concatenate(([0.0], r.normal(0, 2, 3))) for _ in range(3)]
            with same_settings(m, "a von Karman kernel"):
                d.VonKarmanCovariance(ndim=3, length_scale=1.0, E0=1.0).precompute_Spectrum(grid)
            with same_settings(m, "a Mann kernel"):
                d.MannCovariance(ndim=3, length_scale=1.0, E0=1.0, Gamma=2.0).precompute_Spectrum(grid)
            for model in ("VK", "Mann"):
                c = work.field_config(r, model)
                with same_settings(m, f"{model} generation"):
                    g = d.FluctuationFieldGenerator(**c)
                    g.generate(1, **work.profile_args(r, ("LOG", "PL")[i % 2]))
                with same_settings(m, "export, divergence and plots"):
                    g.save_to_vtk(os.path.join(work.scratch("vtk"), "f"))
                    g.evaluate_divergence(c["grid_dimensions"] / (2.0 ** c["grid_levels"] + 1))
                    wind_plot.plot_velocity_components((1.0, 1.0, 1.0), g.total_fluctuation)
                    wind_plot.plot_velocity_magnitude((1.0, 1.0, 1.0), g.total_fluctuation)
                with same_settings(m, "a refused request"):
                    try:
                        g.generate(-1, **work.profile_args(r))
                    except ValueError:
                        pass
            with same_settings(m, "low-frequency generation and spectra"):
                lf = LowFreqGenerator(work.lf_config(r), seed=int(r.integers(1 << 30)))
                lf.generate()
                lf.compute_spectrum()
                lf.analytical_spectrum(np.array([1e-4, 1e-3]))
            with same_settings(m, "low-frequency plots"):
                lf.plot_velocity_fields()
                plt.close("all")
            with same_settings(m, "data generators"):
                d.generate_kaimal_spectra(torch.logspace(-1, 1, 4), 1.0, 1.0)
                d.generate_von_karman_spectra(torch.logspace(-1, 1, 4))
            life = work.LIFETIMES[(i + int(r.integers(5))) % 5]
            with same_settings(m, f"building a {life} model"):
                work.make_problem(life, 0.7, 2.5, 2.0, integ=dict(ops_num_points=6, coh_num_points=6))
            with same_settings(m, "a loss aggregator"):
                la = d.LossAggregator(params=d.LossParameters(alpha_pen1=0.3, alpha_pen2=0.2, beta_reg=1e-3), k1space=torch.logspace(-1, 1, 5), zref=1.0, tb_log_dir=work.scratch("log"))
                la.eval(torch.ones(4, 5) * 2.0, torch.ones(4, 5), torch.zeros(3), 0)
                la.get_current_loss_info(), la.get_loss_diagnostics(1), la.should_adjust_learning_rate(1)
                la.writer.close()
            with torch.enable_grad(), same_settings(m, f"a {life} calibration"):
                pb = work.make_problem(life, 0.7, 2.5, 2.0, integ=dict(ops_num_points=6, coh_num_points=6), prob=dict(nepochs=1, wolfe_iter_count=2, init_with_noise=bool(i % 2)))
                kd = torch.logspace(-1, 1, 5)
                f, seps = np.sort(loguniform(r, 0.5, 50, 3)), np.sort(loguniform(r, 0.05, 3, 4))
                pb.calibrate({"k1": kd, "ops": synthetic(kd)}, coherence_data_file=coherence_file(f, seps, r) if i % 2 else None)
            draws = torch.get_rng_state()
            learns = [(p.requires_grad, p.dtype, p.is_leaf) for p in pb.OPS.parameters()]
            fit = np.array(pb.parameters)
            with same_settings(m, f"evaluations of a {life} model"), torch.no_grad():
                many = torch.tensor(loguniform(r, 0.1, 20, int(r.choice([1, 17, 70]))), dtype=torch.get_default_dtype())
                pb.OPS(many)
                pb.OPS.SpectralCoherence(many[:20], torch.linspace(0, 2, int(r.integers(1, 12))))
            with same_settings(m, "saving, evaluating and plotting a fit"):
                out = work.scratch("fit")
                pb.save_model(out)
                pb.eval(kd)
                pb.plot()
                plt.close("all")
            m.true([(p.requires_grad, p.dtype, p.is_leaf) for p in pb.OPS.parameters()] == learns, "saving, evaluating and plotting leave the parameters learnable")
            m.equal(np.array(pb.parameters), fit, "saving, evaluating and plotting leave the parameters alone")
            m.true(torch.equal(torch.get_rng_state(), draws), "saving, evaluating and plotting draw no random numbers from torch", trivial=True)
            # a model lent to a kernel for fluctuation generation stays the model it was
            lent = pb if life == "TAUNET" else work.make_problem("TAUNET", 0.7, 2.5, 2.0, integ=dict(ops_num_points=6, coh_num_points=6))
            cfgs = lambda: snapshot([lent.OPS.integration_params if hasattr(lent.OPS, "integration_params") else None, lent.prob_params, lent.phys_params, lent.loss_params, lent.nn_params])  # noqa: E731
            cfg0, seen, vec = cfgs(), np.array(lent.eval(kd)), np.array(lent.parameters)
            learns = [(p.requires_grad, p.dtype, p.is_leaf) for p in lent.OPS.parameters()]
            with same_settings(m, "a kernel of a fit"):
                d.NNCovariance(ndim=3, length_scale=1.0, E0=1.0, Gamma=2.0, ops=lent.OPS, h_ref=1.0).precompute_Spectrum(grid)
            m.true(cfgs() == cfg0, "a kernel leaves the configuration of its model alone")
            m.near(np.array(lent.eval(kd)), seen, "a kernel leaves its model alone", rtol=1e-6)
            m.equal(np.array(lent.parameters), vec, "a kernel leaves the parameters of its model alone")
            m.true([(p.requires_grad, p.dtype, p.is_leaf) for p in lent.OPS.parameters()] == learns, "a kernel leaves the parameters of its model learnable")
            if life == "TAUNET":
                with same_settings(m, "generation from a fit"):
                    g = d.FluctuationFieldGenerator(friction_velocity=1.0, reference_height=1.0, grid_dimensions=np.array([9.0, 7.0, 6.0]), grid_levels=np.array([1, 1, 1]),
                                                    model="DRD", path_to_parameters=os.path.join(out, os.listdir(out)[0]), seed=1, blend_num=0)
                    g.generate(1, 10.0, 1.0, 0.1, "LOG")

    # ------------------------------------------------ kernels: one object, many grids
    for i in range(m.n(16, 120)):
        name = f"kernels/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        kind = ("VK", "Mann")[i % 2]
        L, E, G = float(loguniform(r, 0.3, 30)), float(loguniform(r, 0.1, 10)), float(loguniform(r, 0.3, 5))
        with m.case(name, kind=kind, L=L):
            def new():
                return d.VonKarmanCovariance(ndim=3, length_scale=L, E0=E) if kind == "VK" else d.MannCovariance(ndim=3, length_scale=L, E0=E, Gamma=G)

            cov = new()
            grids = [[np.concatenate([[0.0], r.normal(0, 2 / L, int(r.integers(1, 5)))]) for _ in range(3)] for _ in range(3)]
            keep = copy.deepcopy(grids)
            first = [np.array(cov.precompute_Spectrum(g)) for g in grids]
            r2 = list(range(3))
            r.shuffle(r2)
            for j in r2:
                again = cov.precompute_Spectrum(grids[j])
                m.near(again, first[j], "kernel evaluation is repeatable in any order", atol=1e-11 * np.abs(first[j]).max())
                m.near(new().precompute_Spectrum(grids[j]), first[j], "kernel evaluation equals that of a new kernel", atol=1e-11 * np.abs(first[j]).max())
                again[...] = 3.0
            m.near(cov.precompute_Spectrum(grids[0]), first[0], "returned tensors are the caller's own", atol=1e-11 * np.abs(first[0]).max())
            m.true(snapshot(grids) == snapshot(keep), "frequencies are not modified", trivial=True)
