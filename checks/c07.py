"""C07: the calibration objective is the documented one, on the right data, and the optimiser sees its gradient."""

import numpy as np

from checks.c06 import coherence_file, synthetic
from vf import ref, work
from vf.work import loguniform

RULE = """A case is one objective (random weights, wave numbers, model and data values, network parameters, epoch) or one
calibration whose recorded loss terms and parameter gradients are observed.  Oracle: the documented terms recomputed in
float64 numpy, and central differences of the objective."""
ASSUMPTIONS = [
    "the mean in the misfit runs over components and wave numbers",
    "gradients: TAUNET, CONST, TWOTHIRD, MANN_APPROX in all parameters; MANN in time scale and amplitude (its lifetime is documented as not differentiable)",
]
TERMS = ("mse", "coherence", "pen1", "pen2", "regularization")


def objective(k1, y, data, theta, lp, zref, coh=None):
    """The documented terms in float64."""
    ly, lk = np.log(np.abs(y)), np.log(k1)
    h1 = np.diff(lk)
    h2 = np.diff(0.5 * (lk[:-1] + lk[1:]))
    d1 = np.diff(ly, axis=-1) / h1
    d2 = np.diff(d1, axis=-1) / h2
    out = dict(
        mse=np.mean((ly - np.log(np.abs(data))) ** 2),
        pen1=lp.get("alpha_pen1", 0) * np.mean(np.maximum(d1, 0) ** 2) / zref,
        pen2=lp.get("alpha_pen2", 0) * np.mean(np.maximum(d2, 0) ** 2) / zref**2 if len(k1) > 2 else 0.0,
        regularization=lp.get("beta_reg", 0) * np.mean(theta**2) if theta is not None else 0.0,
        coherence=0.0,
    )
    if coh is not None:
        out["coherence"] = lp.get("gamma_coherence", 0) * np.mean([np.mean((a - b) ** 2) for a, b in zip(*coh)])
    return out


def weights(r, nn=True):
    lp = {}
    if r.random() < 0.6:
        lp["alpha_pen1"] = float(loguniform(r, 1e-2, 10))
    if r.random() < 0.6:
        lp["alpha_pen2"] = float(loguniform(r, 1e-2, 10))
    if nn and r.random() < 0.6:
        lp["beta_reg"] = float(loguniform(r, 1e-4, 10))
    if r.random() < 0.6:
        lp["gamma_coherence"] = float(loguniform(r, 1e-2, 10))
    return lp


def check(m):
    import drdmannturb as d
    import torch

    tb = work.scratch("tb-shared")
    for i in range(m.n(150, 1200)):
        name = f"terms/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        dtype = "float64" if r.random() < 0.7 else "float32"
        lp = weights(r)
        if lp and r.random() < 0.25:  # a weight is a weight, however small or large
            lp[str(r.choice(sorted(lp)))] = float(r.choice([1e-10, 3e-8, 1e5]))
        n, nc = int(r.integers(4, 20) if r.random() < 0.9 else r.integers(60, 300)), int(r.choice([3, 4, 6]))
        with work.default_dtype(dtype), m.case(name, dtype=dtype, weights=lp, n=n, components=nc):
            k1 = np.sort(loguniform(r, 1e-2, 1e2, n))
            k1 = np.exp(np.log(k1[0]) + np.cumsum(r.uniform(0.1, 0.6, n)) * min(1, 20 / n))
            zref = float(loguniform(r, 0.3, 60))
            T = lambda x: torch.tensor(x, dtype=getattr(torch, dtype))  # noqa: E731
            agg = d.LossAggregator(params=d.LossParameters(**lp), k1space=T(k1), zref=zref, tb_log_dir=tb)
            rt = 1e-9 if dtype == "float64" else 3e-4
            totals = []
            for epoch in range(int(r.integers(1, 4))):
                y = loguniform(r, 1e-3, 10, (nc, n))
                y[3:] *= r.choice([-1, 1], y[3:].shape)
                data = y * np.exp(r.normal(0, 1, y.shape)) * np.where(np.arange(nc)[:, None] >= 3, r.choice([-1.0, 1.0]), 1.0)
                theta = r.normal(0, 1, int(r.integers(1, 40)))
                coh = None
                if r.random() < 0.6:
                    sh = (int(r.integers(1, 5)), int(r.integers(1, 6)))
                    coh = r.uniform(0, 1, (3,) + sh), r.uniform(0, 1, (3,) + sh) if r.random() < 0.7 else r.normal(0.5, 0.6, (3,) + sh)  # measured: with scatter
                ty = T(y).requires_grad_(True)
                cd = None
                if coh is not None:
                    conv = T if r.random() < 0.5 else (lambda x: x)
                    cd = {f"model_{c}": T(coh[0][j]) for j, c in enumerate("uvw")} | {f"data_{c}": conv(coh[1][j]) for j, c in enumerate("uvw")}
                no_theta = r.random() < 0.15
                total = agg.eval(ty, T(data), None if no_theta else T(theta), epoch, coherence_data=cd)
                want = objective(T(k1).double().numpy(), ty.detach().double().numpy(), T(data).double().numpy(),
                                 None if no_theta else T(theta).double().numpy(), lp, zref, coh)
                W = sum(want.values())
                m.near(total.detach(), np.array(W), "objective value", rtol=rt)
                for t in TERMS:
                    got = agg.component_losses[t]
                    if m.true(len(got) == epoch + 1, f"one record of '{t}' per evaluation", trivial=True):
                        m.near(np.array(got[-1]), np.array(want[t]), f"recorded term {t}", rtol=rt, atol=1e-12)
                totals.append(W)
                m.near(np.array(agg.component_losses["total"]), np.array(totals), "recorded total", rtol=rt)
                if dtype == "float64" and n <= 8:
                    total.backward()
                    num = np.zeros_like(y)
                    h = 1e-6
                    for idx in np.ndindex(*y.shape):
                        for s in (1, -1):
                            z = y.copy()
                            z[idx] *= 1 + s * h
                            num[idx] += s * sum(objective(k1, z, data, None, lp, zref).values())
                    num /= 2 * h * y
                    m.near(ty.grad, num, "derivative of the objective in the model values", rtol=2e-4, atol=1e-5 * np.abs(num).max())
            agg.writer.close()

    # which data enter, which model enters: recorded terms of a calibration
    for i in range(m.n(24, 200)):
        name = f"routing/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        nc = (3, 4, 6)[i % 3]
        lp = weights(r, lifetime == "TAUNET")
        use_coh = bool(r.random() < 0.35)
        if i % 8 in (0, 1):
            lp.pop("alpha_pen1", None)
            lp.pop("alpha_pen2", None)
        with m.case(name, lifetime=lifetime, components=nc, weights=lp, coherence=use_coh):
            L, G, s = float(loguniform(r, 0.2, 3)), float(loguniform(r, 0.3, 5)), float(loguniform(r, 0.1, 10))
            zref = float(loguniform(r, 0.5, 50))
            npt = int(r.integers(5, 12))
            ln = i % 2 == 0  # a learned exponent is one of the network's parameters
            if lifetime == "TAUNET" and i < 10:
                lp["beta_reg"] = float(loguniform(r, 0.1, 10))
            pb = work.make_problem(lifetime, L, G, s, ncomp=nc, loss=lp, phys=dict(zref=zref, Uref=8.0, wavenumber_conversion_factor=1.0), prob=dict(tol=0.0, learn_nu=ln),
                                   integ=dict(ops_num_points=npt, coh_num_points=9))
            work.shake_network(pb.OPS, r, 0.3)
            n = int(r.integers(4, 9)) if i % 4 else int(r.integers(20, 50))
            k1 = torch.tensor(np.sort(loguniform(r, 0.05, 50, n)) * np.linspace(1, 1.5, n), dtype=torch.get_default_dtype())
            if i % 4 < 2 and not lp.get("alpha_pen1") and not lp.get("alpha_pen2"):  # without slopes the order of the data does not matter
                k1 = k1[torch.tensor(r.permutation(n))]
            unit = float(loguniform(r, 1e-8, 1e4)) if i % 3 == 1 else 1.0  # data may be in any unit
            data = torch.tensor(unit * loguniform(r, 1e-2, 5, (n, 3, 3)), dtype=k1.dtype)
            data[:, 0, 2] *= -1
            theta = torch.nn.utils.parameters_to_vector(pb.OPS.tauNet.parameters()).detach().numpy().astype(float) if lifetime == "TAUNET" else None
            with work.quiet():
                y = pb.eval(k1).astype(float)
            tau = work.ref_tau(lifetime, L, pb.OPS)
            path, coh = None, None
            if use_coh:
                f, seps = np.sort(loguniform(r, 0.5, 50, 4)), np.sort(loguniform(r, 0.05, 3, 5))
                vals = r.uniform(0.05, 1, (3, 5, 4)) if i % 2 else r.normal(0.5, 0.5, (3, 5, 4))
                path = coherence_file(f, seps, r, values=vals)
                sel = np.linspace(0, 4, 4, dtype=int)
                mod = ref.coherence(f / 8.0, seps[sel], ref.signed_log_grid(-3, 3, 9) / L, tau, L, G, s)
                coh = mod, vals[:, sel]
            keep = data.clone()
            with work.quiet():
                pb.calibrate({"k1": k1, "ops": data}, coherence_data_file=path, optimizer_class=torch.optim.Adam)
            m.true(torch.equal(keep, data), "data are not modified", trivial=True)
            D = data.double().numpy()
            comp = np.stack([D[:, a, b] for a, b in ref.COMPONENTS])[:nc]
            want = objective(k1.double().numpy(), y[:nc], comp, theta, lp, zref, coh)
            rec = pb.LossAggregator.component_losses
            for j in (0, 1):
                for t in TERMS:
                    m.near(np.array(rec[t][j]), np.array(want[t]), f"calibration term {t}", rtol=3e-4, atol=1e-6)
                m.near(np.array(rec["total"][j]), np.array(sum(rec[t][j] for t in TERMS)), "total of the terms", rtol=1e-5, atol=1e-7)

    # one problem calibrated several times: every run fits the data of that run, starting from the model as it stands
    for i in range(m.n(12, 100)):
        name = f"again/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        nc = (4, 6, 3)[i % 3]
        lp = dict(weights(r, lifetime == "TAUNET"), gamma_coherence=float(loguniform(r, 0.1, 10)))
        with m.case(name, lifetime=lifetime, components=nc, weights=lp):
            zref = float(loguniform(r, 0.5, 50))
            npt = int(r.integers(5, 10))
            pb = work.make_problem(lifetime, float(loguniform(r, 0.3, 2)), float(loguniform(r, 0.5, 4)), float(loguniform(r, 0.3, 5)), ncomp=nc, loss=lp,
                                   phys=dict(zref=zref, Uref=8.0, wavenumber_conversion_factor=1.0), integ=dict(ops_num_points=npt, coh_num_points=9),
                                   prob=dict(tol=0.0, nepochs=int(r.integers(1, 3)), learning_rate=0.01, wolfe_iter_count=2))
            work.shake_network(pb.OPS, r, 0.3)
            n = int(r.integers(4, 9))
            k1 = torch.tensor(np.exp(np.cumsum(r.uniform(0.2, 0.8, n)) - 2), dtype=torch.get_default_dtype())
            for run in range(3):
                if run and r.random() < 0.7:  # other wave numbers, as many or not, or the same ones
                    n = n if r.random() < 0.5 else int(r.integers(4, 60 if run == 2 else 9))
                    k1 = torch.tensor(np.exp(np.linspace(-2, 3, n) + r.uniform(-0.02, 0.02, n)), dtype=k1.dtype)
                data = torch.tensor(loguniform(r, 1e-2, 5, (n, 3, 3)), dtype=k1.dtype)
                if run == 1 and r.random() < 0.5:
                    with torch.no_grad():
                        pb.OPS.logLengthScale += 0.2
                L, G, s = np.exp(np.asarray(pb.parameters, float)[:3])
                theta = torch.nn.utils.parameters_to_vector(pb.OPS.tauNet.parameters()).detach().numpy().astype(float) if lifetime == "TAUNET" else None
                with work.quiet():
                    y = pb.eval(k1).astype(float)
                path, coh = None, None
                if r.random() < 0.5:
                    nf, ns = int(r.integers(2, 7)), int(r.integers(4, 8))
                    f, seps = np.sort(loguniform(r, 0.5, 50, nf)), np.sort(loguniform(r, 0.05, 3, ns))
                    vals = r.uniform(0.05, 1, (3, ns, nf))
                    path = coherence_file(f, seps, r, values=vals)
                    sel = np.linspace(0, ns - 1, 4, dtype=int)
                    coh = ref.coherence(f / 8.0, seps[sel], ref.signed_log_grid(-3, 3, 9) / L, work.ref_tau(lifetime, L, pb.OPS), L, G, s), vals[:, sel]
                try:
                    with work.quiet():
                        pb.calibrate({"k1": k1, "ops": data}, coherence_data_file=path, optimizer_class=torch.optim.Adam if r.random() < 0.7 or lifetime == "MANN" else torch.optim.LBFGS)
                except (ValueError, RuntimeError) as e:
                    if "finite" in str(e) or "NaN" in str(e):
                        m.skipped("these arbitrary data drove the fit out of the finite range, which it said")
                        break
                    raise
                D = data.double().numpy()
                want = objective(k1.double().numpy(), y[:nc], np.stack([D[:, a, b] for a, b in ref.COMPONENTS])[:nc], theta, lp, zref, coh)
                rec = pb.LossAggregator.component_losses
                for j in (0, 1):
                    for t in TERMS:
                        m.near(np.array(rec[t][j]), np.array(want[t]), f"calibration term {t} of run {run + 1}", rtol=1e-3, atol=1e-6)

    # the gradient the optimiser receives
    for i in range(m.n(15, 100)):
        name = f"gradient/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        nc = (3, 4)[i % 2]
        ls = bool(r.random() < 0.4)
        lp = weights(r, lifetime == "TAUNET")
        if i % 3 == 1:  # steep objectives
            lp = dict(lp, alpha_pen1=float(loguniform(r, 1e3, 1e6)), alpha_pen2=float(loguniform(r, 1e3, 1e6)))
        use_coh = i == 0 or bool(r.random() < 0.3)
        if i == 0:
            lp["gamma_coherence"] = 2.0
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime, components=nc, weights=lp, learn_spectrum=ls, coherence=use_coh):
            L, G, s = float(loguniform(r, 0.3, 2)), float(loguniform(r, 0.5, 4)), float(loguniform(r, 0.3, 5))
            args = dict(ncomp=nc, loss=lp, nn=dict(nlayers=2, hidden_layer_size=4), integ=dict(ops_num_points=7, coh_num_points=7, ops_log_max=2.0),
                        phys=dict(Uref=8.0, wavenumber_conversion_factor=1.0), prob=dict(learn_nu=True, use_learnable_spectrum=ls, tol=0.0))
            pb = work.make_problem(lifetime, L, G, s, **args)
            work.shake_network(pb.OPS, r, 0.4)
            v0 = np.array(pb.parameters).copy()
            if ls:
                v0[3:5] += r.uniform(-0.3, 0.3, 2)
                pb.parameters = v0
            k1 = torch.tensor(loguniform(r, 0.1, 1, 6) * 2.0 ** np.arange(6))
            k1 = k1.sort().values
            data = synthetic(k1)
            path, cd = None, None
            if use_coh:
                f, seps = np.sort(loguniform(r, 2, 50, 3)), np.sort(loguniform(r, 0.05, 2, 4))
                vals = r.uniform(0.05, 1, (3, 4, 3))
                path = coherence_file(f, seps, r, values=vals)
            with work.quiet():
                pb.calibrate({"k1": k1, "ops": data}, coherence_data_file=path, optimizer_class=torch.optim.Adam)
            got = np.concatenate([np.asarray(p.grad.detach() if p.grad is not None else torch.zeros_like(p)).ravel() for p in pb.OPS.parameters()])

            pf = work.make_problem(lifetime, L, G, s, **args)
            agg = d.LossAggregator(params=pf.loss_params, k1space=k1, zref=1.0, tb_log_dir=tb)
            yd = torch.stack([data[:, a, b] for a, b in ref.COMPONENTS])[:nc]

            def J(v, with_coh):
                pf.parameters = v
                th = torch.nn.utils.parameters_to_vector(pf.OPS.tauNet.parameters()).detach() if lifetime == "TAUNET" else None
                with torch.no_grad(), work.quiet():
                    c = None
                    if with_coh:
                        C = pf.OPS.SpectralCoherence(torch.tensor(f / 8.0), torch.tensor(seps))
                        c = {f"model_{x}": C[j] for j, x in enumerate("uvw")} | {f"data_{x}": torch.tensor(vals[j]) for j, x in enumerate("uvw")}
                    return float(agg.eval(pf.OPS(k1)[:nc], yd, th, 0, coherence_data=c))

            idx = list(range(min(5, len(v0)))) + list(r.choice(len(v0), min(8, len(v0)), replace=False))
            idx = sorted(set(int(j) for j in idx))
            if lifetime == "MANN":
                idx = [j for j in idx if j != 0]

            def fd(with_coh):
                """Central differences; where a jump of the floor under the tensor falls into one step, another step counts."""
                out = []
                for j in idx:
                    est = []
                    for h in (1e-5, 1e-6, 1e-4):
                        a, b = v0.copy(), v0.copy()
                        a[j] += h
                        b[j] -= h
                        est.append((J(a, with_coh) - J(b, with_coh)) / (2 * h))
                    out.append(min(est, key=lambda x: abs(x - got[j])))
                return np.array(out)

            num = fd(False)
            agg_tol = 1e-4 * max(1e-2, np.abs(num).max())
            if use_coh and lp.get("gamma_coherence"):
                num2 = fd(True)
                a, b = np.abs(got[idx] - num).max(), np.abs(got[idx] - num2).max()
                if b > 10 * agg_tol and a <= agg_tol and lifetime != "MANN":
                    m.true(True, "gradient without the coherence term")
                    m.known("coherence-gradient", "the gradient of the coherence term is missing from the optimiser's gradient")
                else:
                    m.true(min(a, b) <= 10 * agg_tol, "gradient of the objective (with or without the coherence term)", {"got": got[idx].tolist(), "without": num.tolist(), "with": num2.tolist()})
            else:
                m.near(got[idx], num, "gradient of the objective", rtol=1e-4, atol=agg_tol)
            agg.writer.close()

    # the same over a long calibration: the gradient of every step, at the parameters of that step
    for i in range(m.n(3, 16)):
        name = f"steps/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = ("CONST", "TAUNET", "TWOTHIRD", "MANN_APPROX")[i % 4]
        T = int(r.integers(55, 75)) if i % 3 else int(r.integers(105, 120))
        lp = weights(r, lifetime == "TAUNET")
        lp.pop("gamma_coherence", None)
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime, steps=T, weights=lp):
            args = dict(ncomp=4, loss=lp, nn=dict(nlayers=1, hidden_layer_size=3), integ=dict(ops_num_points=5, ops_log_max=2.0), phys=dict(zref=1.0),
                        prob=dict(tol=0.0, nepochs=T, learning_rate=float(loguniform(r, 1e-3, 2e-2)), learn_nu=True))
            sc = float(loguniform(r, 0.3, 2)), float(loguniform(r, 0.5, 4)), float(loguniform(r, 0.3, 5))
            pb, pf = work.make_problem(lifetime, *sc, **args), work.make_problem(lifetime, *sc, **args)
            work.shake_network(pb.OPS, r, 0.4)
            k1 = torch.tensor(loguniform(r, 0.1, 1, 5) * 2.0 ** np.arange(5)).sort().values
            data = synthetic(k1)
            D = data.numpy()
            comp = np.stack([D[:, a, b] for a, b in ref.COMPONENTS])[:4]
            seen = []
            orig = torch.optim.Adam.step

            def step(opt, closure=None, seen=seen, orig=orig, **kw):
                if closure is None:
                    return orig(opt, **kw)

                def watched():
                    out = closure()
                    ps = [p for g in opt.param_groups for p in g["params"]]
                    seen.append([np.concatenate([np.asarray(x).ravel() for x in xs]) for xs in
                                 ([p.detach() for p in ps], [torch.zeros_like(p) if p.grad is None else p.grad.detach() for p in ps])])
                    return out

                return orig(opt, watched, **kw)

            torch.optim.Adam.step = step
            try:
                with work.quiet():
                    pb.calibrate({"k1": k1, "ops": data}, optimizer_class=torch.optim.Adam)
            finally:
                torch.optim.Adam.step = orig
            if not m.true(len(seen) == T, f"{T} evaluations of the objective by the optimiser, {len(seen)} seen"):
                continue

            def J(v):
                pf.parameters = v
                th = v[3:] if lifetime == "TAUNET" else None
                with torch.no_grad(), work.quiet():
                    y = pf.OPS(k1)[:4].numpy()
                return sum(objective(k1.numpy(), y, comp, th, lp, 1.0).values())

            if not m.true(seen[0][0].shape == np.asarray(pb.parameters).shape, "the optimiser moves every parameter"):
                continue
            for v, got in seen:
                idx = range(3) if lifetime != "TAUNET" else [*range(3), *r.choice(np.arange(3, len(v)), 2, replace=False)]
                num = []
                for j in idx:
                    est = []
                    for h in (1e-5, 1e-6):
                        a, b = v.copy(), v.copy()
                        a[j] += h
                        b[j] -= h
                        est.append((J(a) - J(b)) / (2 * h))
                    num.append(min(est, key=lambda x: abs(x - got[j])))
                m.near(got[list(idx)], np.array(num), "gradient at a step of a long calibration", rtol=1e-4, atol=1e-4 * max(1e-2, np.abs(num).max()))
