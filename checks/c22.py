"""C22: leaving an optional argument out is the same as passing its documented default, whatever was done before."""

import copy
import os
import warnings

import numpy as np

from checks.c06 import coherence_file, synthetic
from checks.c13 import scalar_cov
from vf import work
from vf.work import loguniform

RULE = """A case is one public constructor, function or method and a random choice of which of its optional arguments are
left out and which are given at their documented default, run after (and next to) uses with other values.  Oracle: the
result of leaving out equals the result of spelling everything out - parameter by parameter, bit by bit of spectra,
networks, calibrations, fields, figures and files; documented default values are a table of the check."""
ASSUMPTIONS = [
    "the documented defaults are those of the published signatures (rendered in the API documentation)",
    "equal calls are compared to 1e-6 (single) or 1e-12 (double precision), stored defaults exactly",
]

PI = float(np.pi)
DATACLASSES = {
    "ProblemParameters": ({}, dict(num_components=4, learning_rate=1e-1, tol=1e-3, nepochs=10, init_with_noise=False, noise_magnitude=1e-3, eddy_lifetime="TAUNET",
                                   wolfe_iter_count=20, learn_nu=False, use_learnable_spectrum=False, p_exponent=4.0, q_exponent=17 / 6)),
    "PhysicalParameters": (dict(L=0.59, Gamma=3.9, sigma=3.2), dict(Uref=10.0, zref=1.0, ustar=1.0, alpha_low=4.0, alpha_high=-5 / 3, transition_slope=17 / 3,
                                                                    wavenumber_conversion_factor=1 / (2 * PI), wavenumber_scale_factor=1.0, domain=None)),
    "LossParameters": ({}, dict(alpha_pen1=0.0, alpha_pen2=0.0, beta_reg=0.0, gamma_coherence=0.0, auto_balance_losses=False, balance_freq=10)),
    "NNParameters": ({}, dict(nlayers=2, input_size=3, hidden_layer_size=10, hidden_layer_sizes=[], activations=[], output_size=3)),
    "IntegrationParameters": ({}, dict(ops_log_min=-3.0, ops_log_max=3.0, ops_num_points=100, coh_log_min=-3.0, coh_log_max=3.0, coh_num_points=100)),
    "LowFreqParameters": ({}, dict(L_2D=15000.0, sigma2=0.6, z_i=500.0, psi_degs=43.0, c=None)),
}
# only what costs little when taken at its default
LEAVE = {"ProblemParameters": ("nepochs", "wolfe_iter_count", "learning_rate"), "IntegrationParameters": ("ops_num_points", "coh_num_points")}


def documented(cls):
    import drdmannturb as d
    import torch

    v = dict(DATACLASSES[cls][1])
    if "eddy_lifetime" in v:
        v["eddy_lifetime"] = getattr(d.EddyLifetimeType, v["eddy_lifetime"])
    if "domain" in v:
        v["domain"] = torch.logspace(-1, 2, 20, dtype=torch.float32)
    return copy.deepcopy(v)


def some(r, kw, p=0.5):
    return {k: v for k, v in kw.items() if r.random() < p}


def check(m):
    import drdmannturb as d
    import torch
    from drdmannturb import nn_modules, parameters
    from drdmannturb.fluctuation_generation import covariance_kernels as ck
    from drdmannturb.fluctuation_generation import gaussian_random_fields as grf
    from drdmannturb.fluctuation_generation import wind_plot
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
    from drdmannturb.spectra_fitting import data_generator
    from drdmannturb.spectra_fitting.loss_functions import LossAggregator

    warnings.simplefilter("ignore")

    def defaults_of(what):
        for cls, (given, _) in DATACLASSES.items():
            o = getattr(parameters, cls)(**given)
            for k, want in documented(cls).items():
                got = getattr(o, k)
                if isinstance(want, torch.Tensor):
                    m.equal(got, want, f"{what}: default {k} of {cls}")
                elif isinstance(want, float):
                    m.true(abs(got - want) <= 1e-12 * abs(want), f"{what}: default {k} of {cls} is {want} ({got})", trivial=True)
                else:
                    m.true(got == want and type(got) is type(want), f"{what}: default {k} of {cls} is {want!r} ({got!r})", trivial=True)

    with m.case("dataclasses/fresh"):
        defaults_of("before use")

    # ------------------------------------------------ parameter classes: subset given, the rest left out; no sharing
    for i in range(m.n(40, 400)):
        name = f"dataclasses/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cls = list(DATACLASSES)[i % len(DATACLASSES)]
        given, full = DATACLASSES[cls][0], documented(cls)
        sub = some(r, full)
        with m.case(name, cls=cls, given=sorted(sub)):
            C = getattr(parameters, cls)
            a, b = C(**given, **sub), C(**given, **full)
            for k, want in full.items():
                x, y = getattr(a, k), getattr(b, k)
                if isinstance(want, torch.Tensor):
                    m.equal(x, y, f"{k} of {cls}")
                else:
                    m.true(x == y or abs(x - y) <= 1e-12 * abs(y), f"{k} of {cls}: {x!r}, given explicitly {y!r}", trivial=not want)
            # lists belong to one object
            for k in [k for k, w in full.items() if isinstance(w, list)]:
                c1, c2 = C(**given), C(**given)
                getattr(c1, k).append(7)
                m.true(getattr(c2, k) == [] and getattr(C(**given), k) == [], f"{k} of {cls} is not shared between objects")

    # ------------------------------------------------ models and calibrations
    def run(kw, pp, lp, ph, nn, integ, k1, data, seed, extra, cal):
        """One problem, optionally calibrated: parameter vector, spectra, scales and losses."""
        torch.manual_seed(seed)
        np.random.seed(seed % 2**31)
        with work.quiet():
            pb = d.CalibrationProblem(nn_params=d.NNParameters(**nn), prob_params=d.ProblemParameters(**pp), loss_params=d.LossParameters(**lp),
                                      phys_params=d.PhysicalParameters(**ph), integration_params=d.IntegrationParameters(**integ),
                                      logging_directory=work.scratch("tb"), output_directory=work.scratch("out"), **kw)
            out = {"start": np.array(pb.parameters)}
            if cal:
                res = pb.calibrate(data=data, **extra)
                out["scales"] = np.array([res[k] for k in sorted(res)], float)
                for k, v in pb.LossAggregator.component_losses.items():
                    out[f"losses {k}"] = np.array([float(x) for x in v])
            out["parameters"] = np.array(pb.parameters)
            out["spectra"] = pb.OPS(torch.as_tensor(k1)).detach().numpy()
            out["norm"] = np.array(float(pb.eval_trainable_norm())) if hasattr(pb.OPS, "tauNet") else np.zeros(1)
            if hasattr(pb.OPS, "tauNet"):
                out["frobenius norm"] = np.array(float(pb.eval_trainable_norm("fro")))
                m.equal(out["norm"], out["frobenius norm"], "the norm of the trainable parameters is the Frobenius norm unless asked otherwise")
        return out

    for i in range(m.n(24, 200)):
        name = f"calibration/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        life = work.LIFETIMES[i % 5]
        dtype = "float64" if r.random() < 0.5 else "float32"
        learn_spectrum = bool(r.random() < 0.4)
        full = {c: documented(c) for c in ("ProblemParameters", "LossParameters", "PhysicalParameters", "NNParameters", "IntegrationParameters")}
        pick = {c: some(r, v) for c, v in full.items()}
        cal = i % 3 != 2
        with work.default_dtype(dtype), m.case(name, lifetime=life, dtype=dtype, learn_spectrum=learn_spectrum, given={c: sorted(v) for c, v in pick.items()}):
            fixed = dict(eddy_lifetime=getattr(d.EddyLifetimeType, life), use_learnable_spectrum=learn_spectrum)
            if r.random() < 0.8:
                fixed["nepochs"] = int(r.integers(1, 3))
            if r.random() < 0.8 or cal:
                fixed["wolfe_iter_count"] = int(r.integers(2, 5))
            coarse = dict(ops_num_points=8, coh_num_points=6) if cal or r.random() < 0.6 else {}
            scales = dict(L=float(loguniform(r, 0.3, 2)), Gamma=float(loguniform(r, 0.5, 4)), sigma=float(loguniform(r, 0.3, 5)))
            k1 = torch.logspace(-1, 1.5, 6)
            data = {"k1": k1, "ops": synthetic(k1), "coherence": None}
            seed = int(r.integers(1 << 30))
            coh = coherence_file(np.sort(loguniform(r, 0.5, 50, 4)), np.sort(loguniform(r, 0.05, 3, 4)), r) if cal and i % 4 == 0 else None
            extra = {} if coh is None else dict(coherence_data_file=coh)
            spelled = dict(extra, tb_comment="", optimizer_class=torch.optim.LBFGS, coherence_data_file=coh)

            def args(which):
                c = {k: copy.deepcopy(v) for k, v in which.items()}
                return ({**c["ProblemParameters"], **fixed}, c["LossParameters"], {**scales, **c["PhysicalParameters"]}, c["NNParameters"], {**c["IntegrationParameters"], **coarse})

            # something else in between, with every setting different
            def other():
                with work.quiet():
                    o = work.make_problem("TAUNET", 1.1, 0.7, 2.0, ncomp=3, nn=dict(nlayers=3, hidden_layer_size=4), loss=dict(alpha_pen1=0.3, beta_reg=0.1),
                                          prob=dict(learning_rate=0.02, tol=1e-7, learn_nu=True, use_learnable_spectrum=True, p_exponent=3.0, q_exponent=2.5, wolfe_iter_count=1, noise_magnitude=0.2, init_with_noise=True),
                                          phys=dict(Uref=3.0, zref=17.0, ustar=0.4, domain=torch.logspace(-2, 1, 5)), integ=dict(ops_log_min=-2, ops_log_max=2, ops_num_points=5))
                    if i % 2:
                        o.calibrate(data=copy.deepcopy(data), optimizer_class=torch.optim.Adam)

            a = run(some(r, dict(device="cpu")), *args({c: {} for c in full}), k1, copy.deepcopy(data), seed, extra, cal)
            other()
            b = run({}, *args(pick), k1, copy.deepcopy(data), seed, extra, cal)
            c = run(dict(device="cpu"), *args(full), k1, copy.deepcopy(data), seed, spelled, cal)
            tol = 1e-12 if dtype == "float64" else 1e-6
            for k in c:
                for got, how in ((a, "left out"), (b, "partly left out")):
                    m.near(got[k], c[k], f"{k} with settings {how}: the documented defaults apply", rtol=tol, atol=tol * np.abs(c[k]).max() if c[k].size else 0, nan_ok=True)

    for i in range(m.n(20, 200)):
        name = f"model/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        life = work.LIFETIMES[i % 5]
        full = dict(learn_nu=False, use_coherence=False, use_learnable_spectrum=False, p_exponent=4.0, q_exponent=17 / 6)
        ls = bool(r.random() < 0.6)
        if ls:
            full["use_learnable_spectrum"] = True
        keep = {"use_learnable_spectrum": True} if ls else {}
        sub = some(r, full)
        with m.case(name, lifetime=life, given=sorted(sub)):
            ph = d.PhysicalParameters(L=float(loguniform(r, 0.3, 2)), Gamma=float(loguniform(r, 0.5, 4)), sigma=float(loguniform(r, 0.3, 5)))
            seed = int(r.integers(1 << 30))
            k1 = torch.logspace(-1.5, 2, 4)
            res = []
            for kw, integ in ((keep, {}), ({**keep, **sub}, {"integration_params": None}), (full, {"integration_params": d.IntegrationParameters(**documented("IntegrationParameters"))})):
                torch.manual_seed(seed)
                nn = {} if life != "TAUNET" else dict(nn_parameters=d.NNParameters())
                o = d.OnePointSpectra(type_eddy_lifetime=getattr(d.EddyLifetimeType, life), physical_params=ph, **nn, **kw, **integ)
                names = sorted(n for n, _ in o.named_parameters())
                res.append((names, o(k1).detach().numpy(), np.concatenate([p.detach().numpy().ravel() for _, p in sorted(o.named_parameters())])))
            for n, f, p in res[:-1]:
                m.true(n == res[-1][0], "the same parameters are learned")
                m.near(f, res[-1][1], "spectra with arguments left out", rtol=1e-6, atol=1e-6 * float(np.abs(res[-1][1]).max()))
                m.equal(p, res[-1][2], "initial parameters with arguments left out")
            if ls:
                # at the documented exponents the learnable spectrum starts as von Karman's
                torch.manual_seed(seed)
                nn = {} if life != "TAUNET" else dict(nn_parameters=d.NNParameters())
                vk = d.OnePointSpectra(type_eddy_lifetime=getattr(d.EddyLifetimeType, life), physical_params=ph, **nn)
                m.near(res[0][1], vk(k1).detach().numpy(), "the learnable spectrum starts from von Karman's", rtol=2e-4, atol=2e-6 * float(np.abs(res[-1][1]).max()))

    for i in range(m.n(30, 300)):
        name = f"network/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        full = dict(n_layers=2, hidden_layer_sizes=10, activations=None, learn_nu=True, nu_init=-1 / 3)
        sub = some(r, full)
        with m.case(name, given=sorted(sub)):
            k = torch.as_tensor(r.normal(0, 3, (7, 3)), dtype=torch.float32)
            seed = int(r.integers(1 << 30))
            out = []
            for kw in ({}, sub, full, dict(full, hidden_layer_sizes=[10, 10], activations=torch.nn.ReLU())):
                torch.manual_seed(seed)
                t = nn_modules.TauNet(**kw)
                work_layers = [p for p in t.parameters()]
                g = torch.Generator().manual_seed(seed % 1000)
                with torch.no_grad():
                    for p in work_layers:
                        if p.ndim == 2:
                            p += 0.5 * torch.randn(p.shape, generator=g)
                out.append((sorted(tuple(p.shape) for p in t.parameters()), t(k).detach().numpy()))
            for s, v in out[:-1]:
                m.true(s == out[-1][0], f"layers {s}, expected {out[-1][0]}")
                m.near(v, out[-1][1], "network output with arguments left out", rtol=1e-6)
            x = torch.as_tensor(loguniform(r, 0.01, 100, 9), dtype=torch.float32)
            full = dict(learn_nu=True, nu_init=-1 / 3)
            want = nn_modules.Rational(**full)
            for kw in ({}, some(r, full)):
                got = nn_modules.Rational(**kw)
                m.equal(got(x).detach(), want(x).detach(), "rational kernel with arguments left out")
                m.true([float(p) for p in got.parameters()] == [float(p) for p in want.parameters()], "the exponent is learned unless asked otherwise")

    # ------------------------------------------------ data
    for i in range(m.n(12, 100)):
        name = f"data/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        with m.case(name):
            k1 = torch.as_tensor(loguniform(r, 1e-3, 1e3, int(r.integers(2, 20))))
            data_generator.generate_von_karman_spectra(k1, L=2.0, C=1.0)
            full = dict(L=0.59, C=3.2)
            want = data_generator.generate_von_karman_spectra(k1, **full)["ops"]
            for kw in ({}, some(r, full)):
                m.equal(data_generator.generate_von_karman_spectra(k1, **kw)["ops"], want, "von Karman data with arguments left out")

    # ------------------------------------------------ records
    for i in range(m.n(10, 80)):
        name = f"records/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        with m.case(name):
            n = int(r.integers(49, 130))
            k1 = torch.logspace(-1, 1, 5)
            la = [LossAggregator(parameters.LossParameters(**lp), k1, 1.0, tb_log_dir=work.scratch("tb"), **kw)
                  for lp, kw in (({}, {}), (documented("LossParameters"), dict(tb_comment="")))]
            lv = loguniform(r, 0.1, 3, n) if i % 2 else np.exp(-np.arange(n) / loguniform(r, 10, 200))
            y0 = torch.as_tensor(loguniform(r, 0.1, 1, (4, 5)))
            for t in range(n):
                y = y0 * float(np.exp(lv[t]))
                v = [float(x.eval(y, y0, None, t, **kw)) for x, kw in zip(la, ({}, dict(coherence_data=None)))]
                m.equal(np.array(v[0]), np.array(v[1]), "objective with settings left out")
            for x in la:
                a, b = x.get_loss_diagnostics(), x.get_loss_diagnostics(window=50)
                m.true(repr(a) == repr(b), "the statistics cover fifty evaluations unless asked otherwise", (a, b))
                e = int(r.choice([10, 49, 50, 51, n]))
                m.true(x.should_adjust_learning_rate(e) == x.should_adjust_learning_rate(e, window=50), "the advice covers fifty evaluations unless asked otherwise")
                x.writer.close()
            m.true(repr(la[0].get_loss_diagnostics()) == repr(la[1].get_loss_diagnostics(50)), "statistics with settings left out")

    # ------------------------------------------------ fields
    for i in range(m.n(30, 250)):
        name = f"generator/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg = work.field_config(r)
        cfg["blend_num"] = 10
        full = dict(path_to_parameters=None, blend_num=10, config_2d_model=None)
        need = {k: v for k, v in cfg.items() if k != "blend_num"}
        sub = some(r, full)
        p = work.profile_args(r, "LOG")
        p.pop("plexp", None)
        with m.case(name, given=sorted(sub), **cfg):
            out = []
            for kw, pk in (({}, {}), (sub, {}), (full, dict(plexp=None))):
                g = d.FluctuationFieldGenerator(**need, **kw)
                g.generate(1, **p, **pk)
                out.append(np.array(g.generate(1, **p, **pk)))
                g.evaluate_divergence(np.ones(3), np.zeros((3, 3, 3, 3)))  # another field: not remembered
                h = loguniform(r, 0.1, 10, 3)
                m.equal(g.evaluate_divergence(h), g.evaluate_divergence(h, field=g.total_fluctuation), "the divergence is that of the stored field unless another is given")
                m.equal(g.evaluate_divergence(h), g.evaluate_divergence(h, field=None), "the divergence of no field given is that of the stored one")
                # a generator with everything different in between
                o = work.field_config(r)
                d.FluctuationFieldGenerator(**{**o, "blend_num": 2}).generate(1, **work.profile_args(r))
            for x in out[:-1]:
                m.equal(x, out[-1], "field with arguments left out")
            if i % 4 == 0:
                here = os.getcwd()
                os.chdir(work.scratch("cwd"))
                try:
                    g.save_to_vtk()
                    made = sorted(os.path.relpath(os.path.join(a, f), ".") for a, _, fs in os.walk(".") for f in fs)
                    g.save_to_vtk("./")
                    again = sorted(os.path.relpath(os.path.join(a, f), ".") for a, _, fs in os.walk(".") for f in fs)
                    m.true(made == again and len(made) == 1, f"an export without a path goes to the current directory ({made}, {again})")
                finally:
                    os.chdir(here)

    for i in range(m.n(24, 200)):
        name = f"sampler/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        nd, levels = 3, r.integers(1, 4, 3)
        shape = 2**levels
        with m.case(name, shape=shape):
            cov = dict(ndim=3, length_scale=1.0, E0=1.0, Gamma=1.0)
            frq = [np.sort(r.normal(0, 3, int(k))) for k in (3, 4, 5)]
            ck.MannCovariance(ndim=3, length_scale=5.0, E0=2.0, Gamma=3.0)
            want = ck.MannCovariance(**cov).precompute_Spectrum(frq)
            for kw in ({}, some(r, cov)):
                m.equal(ck.MannCovariance(**kw).precompute_Spectrum(frq), want, "kernel with arguments left out")
            K = ck.MannCovariance(ndim=3, length_scale=float(loguniform(r, 0.2, 3)), E0=1.0, Gamma=2.0)
            S = scalar_cov(r)
            seed = int(r.integers(1 << 30))
            grf.VectorGaussianRandomField(Covariance=K, grid_level=levels, grid_shape=shape, grid_dimensions=np.array([7.0, 2.0, 3.0]), sampling_method="vf_fftw").sample_noise()
            for how in ("fft", "fftw", "dst", "dct"):  # every method once with the default domain, then with another
                plain = [np.abs(q).max() for q in (grf.GaussianRandomField(Covariance=S, grid_level=levels, grid_shape=shape, sampling_method=how).L,)]
                m.near(np.array(plain), np.array([np.max(shape / (2.0**levels + 1))]), "default domain is the unit cube", rtol=1e-12)
                grf.GaussianRandomField(Covariance=S, grid_level=levels, grid_shape=shape, grid_dimensions=np.array([7.0, 2.0, 3.0]), sampling_method=how).sample_noise()
            for cls, cov, full, method in ((grf.GaussianRandomField, S, dict(grid_dimensions=[1.0, 1.0, 1.0], ndim=3, sampling_method="fft"), {}),
                                           (grf.VectorGaussianRandomField, K, dict(grid_dimensions=[1.0, 1.0, 1.0], ndim=3, vdim=3), dict(sampling_method="vf_fftw"))):
                out = []
                for kw in ({}, some(r, full), full):
                    g = cls(Covariance=cov, grid_level=levels, grid_shape=shape, **kw, **method)
                    g.reseed(seed)
                    a = np.array(g.sample())
                    g.reseed(seed)
                    b = np.array(g.sample(noise=None))
                    g.reseed(seed)
                    c = np.array(g.sample(g.sample_noise(None)))
                    m.equal(a, b, "a sample without noise draws its own")
                    m.equal(a, c, "a sample without noise uses the noise the generator would have drawn")
                    out.append(a)
                for x in out[:-1]:
                    m.equal(x, out[-1], "sample with arguments left out")

    for i in range(m.n(6, 60)):
        name = f"lowfreq/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg = work.lf_config(r)
        with m.case(name, **cfg):
            seed = int(r.integers(1 << 30))
            g = LowFreqGenerator(cfg, seed)
            g.generate()
            a, b = g.compute_spectrum(), g.compute_spectrum(k_tol=1e-9)
            for x, y in zip(a, b):
                m.equal(x, y, "estimate with the tolerance left out")
            k1 = loguniform(r, 0.01, 100, 2) / cfg["L_2d"]
            a = g.analytical_spectrum(k1)
            b = g.analytical_spectrum(k1, k2_limit=5.0, warn=False)
            with work.quiet():
                c = g.analytical_spectrum(k1, warn=True)
            for x, y, z in zip(a, b, c):
                m.equal(x, y, "theory with arguments left out")
                m.equal(x, z, "warnings do not change the theory")
            np.random.seed(seed % 2**31)
            u = LowFreqGenerator(cfg)
            u.generate()
            np.random.seed(seed % 2**31)
            w = LowFreqGenerator(cfg, seed=None)
            w.generate()
            m.equal(u.u1, w.u1, "field without a seed is drawn from the global generator")

    for i in range(m.n(4, 30)):
        name = f"figure/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        n = r.integers(2, 5, 3)
        with m.case(name, n=n):
            f = r.normal(0, 1, (*n, 3))
            h = tuple(loguniform(r, 0.1, 10, 3))
            for fn, full in ((wind_plot.plot_velocity_components, dict(surface_count=25, reshape=True)), (wind_plot.plot_velocity_magnitude, dict(surf_count=75, reshape=True, transparent=False))):
                want = fn(h, f, **full).to_json()
                for kw in ({}, some(r, full)):
                    m.true(fn(h, f, **kw).to_json() == want, f"{fn.__name__} with arguments left out")

    with m.case("dataclasses/used"):
        defaults_of("after use")
