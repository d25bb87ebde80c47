"""C08: a calibration on valid data completes, never ends worse than it started, and returns the scales it found."""

import contextlib
import io
import re

import numpy as np

from checks.c06 import coherence_file, synthetic
from checks.c07 import objective, weights
from vf import ref, work
from vf.work import loguniform

RULE = """A case is one complete calibration: a random problem configuration (five lifetimes, 3/4/6 components, learnable
spectrum and exponent, initial noise, loss weights, coherence data, optimiser, precision, tolerance, epochs) on bundled or
synthetic data.  Monitors: completion, the returned scales against the model itself, the objective before and after
(recomputed), the number of optimiser steps and their learning rates (recorded at the optimiser), and recovery of known
scales from data the model generated itself."""
ASSUMPTIONS = [
    "data are positive in modulus for every component fitted; k1 in [0.05, 100]; scales within a factor of three of the data's",
    "the full Mann lifetime is documented as not differentiable: there, a line search may report a non-finite loss instead",
    "monotone decrease is asserted for L-BFGS with strong Wolfe line search only",
]


class Steps:
    """Record every optimiser step of a calibration: the learning rate it used, and whatever ``after()`` returns then."""

    def __init__(self, after=None):
        self.after, self.seen = after, []

    def __enter__(self):
        import torch

        self.lrs, self.evals, self.saved = [], [], []
        for cls in (torch.optim.LBFGS, torch.optim.Adam):
            orig = cls.step
            self.saved.append((cls, orig))

            def step(opt, *a, _orig=orig, **kw):
                self.lrs.append(opt.param_groups[0]["lr"])
                self.evals.append(0)

                def counted():
                    self.evals[-1] += 1
                    return a[0]()

                out = _orig(opt, counted, *a[1:], **kw) if a and callable(a[0]) else _orig(opt, *a, **kw)
                if self.after:
                    self.seen.append(self.after())
                return out

            cls.step = step
        return self

    def __exit__(self, *a):
        for cls, orig in self.saved:
            cls.step = orig


def check(m):
    import drdmannturb as d
    import torch

    for i in range(m.n(36, 260)):
        name = f"complete/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        nc = (3, 4, 6)[(i // 5) % 3]
        ls, nu, noise = (bool(r.random() < 0.4) for _ in range(3))
        lp = weights(r, lifetime == "TAUNET")
        use_coh = bool(r.random() < 0.25)
        adam = bool(r.random() < 0.4)
        dtype = "float64" if r.random() < 0.4 else "float32"
        T = int(r.integers(1, 5))
        lr = float(loguniform(r, 1e-3, 1e-1)) if adam else float(loguniform(r, 0.05, 1))
        tol = float(r.choice([0.0, 1e-9, 1e6]))
        with work.default_dtype(dtype), m.case(name, lifetime=lifetime, components=nc, learn_spectrum=ls, learn_nu=nu, noise=noise, weights=lp,
                                               coherence=use_coh, adam=adam, dtype=dtype, epochs=T, lr=lr, tol=tol):
            zref = float(loguniform(r, 0.5, 50))
            pb = work.make_problem(lifetime, float(loguniform(r, 0.3, 2)), float(loguniform(r, 0.8, 5)), float(loguniform(r, 0.3, 5)),
                                   ncomp=nc, loss=lp, phys=dict(zref=zref), integ=dict(ops_num_points=9, coh_num_points=7),
                                   prob=dict(learn_nu=nu, use_learnable_spectrum=ls, init_with_noise=noise, nepochs=T, learning_rate=lr, tol=tol,
                                             wolfe_iter_count=int(r.integers(2, 9))))
            n = int(r.integers(4, 10)) if i % 6 else int(r.integers(30, 90))
            k1 = torch.logspace(-1, float(r.uniform(0.5, 1.5)), n)
            kind = str(r.choice(["kaimal", "karman", "synthetic"]))
            if kind == "synthetic" or nc == 6 or (kind == "karman" and nc != 3):
                data = {"k1": k1, "ops": synthetic(k1), "coherence": None}
            elif kind == "kaimal":
                with work.quiet():
                    data = d.generate_kaimal_spectra(k1, zref=float(loguniform(r, 0.5, 2)), ustar=float(loguniform(r, 0.5, 2)))
            else:
                data = d.generate_von_karman_spectra(k1, L=0.6, C=3.0)
            path = None
            if use_coh:
                f, seps = np.sort(loguniform(r, 0.5, 50, 4)), np.sort(loguniform(r, 0.05, 3, int(r.integers(4, 7))))
                path = coherence_file(f, seps, r)
            k = data["k1"]
            D = data["ops"].double().numpy()
            comp = np.stack([D[:, a, b] for a, b in ref.COMPONENTS])[:nc]

            def J():
                with work.quiet():
                    y = pb.eval(k).astype(float)[:nc]
                th = torch.nn.utils.parameters_to_vector(pb.OPS.tauNet.parameters()).detach().double().numpy() if lifetime == "TAUNET" else None
                return sum(objective(k.double().numpy(), y, comp, th, lp, zref).values())

            before = J()
            try:
                with Steps() as st, work.quiet():
                    out = pb.calibrate(data, coherence_data_file=path, optimizer_class=torch.optim.Adam if adam else torch.optim.LBFGS)
            except (ValueError, RuntimeError) as e:
                if lifetime == "MANN" and not adam and ("NaN" in str(e) or "finite" in str(e)):
                    m.skipped("full Mann lifetime: line search left the finite range and said so")
                    continue
                raise
            after = J()
            v = np.asarray(pb.parameters, float)
            vals = list(out.values())
            m.true(len(vals) == (5 if ls else 3) and all(np.isfinite(float(x)) for x in vals) and all(float(x) > 0 for x in vals[:3]), f"calibrated scales are positive and finite: {vals}")
            m.near(np.array(vals[:3], float), np.exp(v[:3]), "returned scales are the model's", rtol=1e-5)
            m.near(np.array(vals[:3], float), np.array(pb.OPS.exp_scales()), "returned scales are those the model evaluates with", rtol=1e-5)
            if ls:
                m.near(np.array(vals[3:], float), v[3:5], "returned exponents are the model's", rtol=1e-6)
            m.true(pb.calibrated_params == out, "stored scales are the returned ones", trivial=True)
            with work.quiet():
                pb.print_calibrated_params()
            m.true(np.isfinite(after), "final objective is finite")
            if not adam and "gamma_coherence" not in lp:
                m.true(after <= before * (1 + 1e-4) + 1e-6, f"line search does not make the objective worse: {before} -> {after}")
            rec = pb.LossAggregator.component_losses["total"]
            want = 1 if tol == 1e6 else T
            m.true(len(st.lrs) == want, f"{want} epochs asked for, {len(st.lrs)} optimiser steps taken")
            m.near(np.array(st.lrs), lr * 0.5 * (1 + np.cos(np.pi * np.arange(len(st.lrs)) / T)), "learning rate follows the cosine schedule", rtol=1e-6, atol=1e-12)
            if adam:
                m.true(len(rec) == want + 1, f"{want} epochs: {len(rec)} loss records")

    # the progress report: scales as they are after each epoch, losses as they were evaluated
    for i in range(m.n(15, 100)):
        name = f"printed/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = ("CONST", "TAUNET", "TWOTHIRD")[i % 3]
        ls, adam, T = bool(i // 3 % 2), bool(i % 2), int(r.integers(1, 6))
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime, learn_spectrum=ls, adam=adam, epochs=T):
            wide = i % 5 == 2
            sc = [float(x) for x in loguniform(r, [0.3, 0.8, 0.3], [2, 5, 5])]
            if wide:  # scales far from one, each in turn small and large
                sc = [float(loguniform(r, *((0.01, 0.04) if (j + i) % 2 else ((120, 300), (8, 12), (120, 300))[j]))) for j in range(3)]
            pb = work.make_problem(lifetime, *sc, ncomp=4, integ=dict(ops_num_points=6),
                                   prob=dict(use_learnable_spectrum=ls, nepochs=T, learning_rate=float(loguniform(r, 0.05, 0.5)), tol=0.0, wolfe_iter_count=int(r.integers(1, 5))))
            k1 = torch.logspace(-1, 1, 5)
            text = io.StringIO()
            with Steps(lambda: np.array(pb.parameters, float)[:5]) as st, contextlib.redirect_stdout(text):
                out = pb.calibrate({"k1": k1, "ops": synthetic(k1)}, optimizer_class=torch.optim.Adam if adam else torch.optim.LBFGS)
            text = text.getvalue()
            rec = pb.LossAggregator.component_losses["total"]

            def said(what):
                return np.array([float(x) for x in re.findall(rf"{what}: +([-+0-9.einfa]+)", text)])

            seen = np.array(st.seen)
            seen[:, :3] = np.exp(seen[:, :3])
            for c, what in enumerate(("Current L", "Current Gamma", "Current sigma", "Current p", "Current q")[: 5 if ls else 3]):
                x = said(what)
                if len(x):
                    m.near(x, seen[:, c], f"{what} of every epoch", rtol=1e-6)
            for what, want in (("Initial loss", rec[:1]), ("final loss", rec[-1:])):
                x = said(what)
                if len(x):
                    m.near(x, np.array(want), f"printed: {what}", rtol=1e-6)
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                pb.print_calibrated_params()
            m.near(np.array([float(v) for v in out.values()])[:3], np.exp(np.asarray(pb.parameters, float)[:3]), "returned scales are the model's, whatever their size", rtol=1e-9)
            x = [float(q) for q in re.findall(r": +([-+0-9.e]+)", text.getvalue())]
            m.near(np.array(x), np.array([float(v) for v in out.values()]), "calibrated scales printed afterwards", atol=6e-5)

    # a problem calibrated again carries on from where it stands
    for i in range(m.n(10, 60)):
        name = f"again/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = ("CONST", "TAUNET", "TWOTHIRD", "MANN_APPROX", "MANN")[i % 5]
        adam = bool(i // 5 % 2)
        ls = bool(r.random() < 0.4)
        noise = bool(r.random() < 0.4)
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime, adam=adam, learn_spectrum=ls, noise=noise):
            prob = dict(nepochs=int(r.integers(1, 3)), learning_rate=float(loguniform(r, 1e-3, 3e-2)), tol=0.0, wolfe_iter_count=3, use_learnable_spectrum=ls,
                        learn_nu=bool(r.random() < 0.5), init_with_noise=noise)
            pb = work.make_problem(lifetime, 0.7, 2.5, 2.0, ncomp=4, integ=dict(ops_num_points=8), prob=prob)
            k1 = torch.logspace(-1, 1, 6)
            data = {"k1": k1, "ops": synthetic(k1)}
            opt = torch.optim.Adam if adam or lifetime == "MANN" else torch.optim.LBFGS
            J = lambda: float(np.mean(np.log(np.abs(pb.eval(k1)[:4] / np.stack([data["ops"][:, a, b].numpy() for a, b in ref.COMPONENTS[:4]]))) ** 2))  # noqa: E731
            for run in range(3):
                start, v0 = J(), np.array(pb.parameters)
                if run == 1:
                    pb.prob_params.nepochs = 0
                with Steps() as st, work.quiet():
                    out = pb.calibrate(data, optimizer_class=opt)
                pb.prob_params.nepochs = prob["nepochs"]
                m.true(len(st.lrs) == (0 if run == 1 else prob["nepochs"]), f"run {run + 1} takes the epochs asked for, not {len(st.lrs)}")
                shown = io.StringIO()
                with contextlib.redirect_stdout(shown):
                    pb.print_calibrated_params()
                num = [float(x) for x in re.findall(r":\s*(-?[\d.]+(?:e[+-]?\d+)?)\s", shown.getvalue())]
                m.near(np.array(num), np.array(list(out.values()), float), f"scales printed after run {run + 1} are those it returned", atol=6e-5, rtol=1e-4)
                m.near(np.array(pb.LossAggregator.component_losses["total"][0]), np.array(start), f"run {run + 1} starts from the model as it stands", rtol=1e-9)
                if run == 1:
                    m.equal(np.array(pb.parameters), v0, "no epochs: the model stays as it is")
                elif opt is torch.optim.LBFGS:
                    m.true(J() <= start * (1 + 1e-6) + 1e-12, f"run {run + 1} does not make the objective worse: {start} -> {J()}")
                m.near(np.array(list(out.values())[:3], float), np.exp(np.asarray(pb.parameters)[:3]), f"scales returned by run {run + 1}", rtol=1e-9)

    # far-off starts: the line search is what keeps full steps from overshooting
    for i in range(m.n(12, 100)):
        name = f"descent/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = ("CONST", "TWOTHIRD", "MANN_APPROX", "TAUNET")[i % 4]
        off = loguniform(r, 3, 12, 3) ** r.choice([-1, 1], 3)
        off[1] = min(off[1], 1.5)
        T = int(r.integers(1, 4))
        W = 1 if i % 3 == 0 else int(r.integers(1, 12))
        lr = float(r.choice([1.0, 2.0, 5.0]))
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime, off=off, epochs=T, lr=lr, wolfe=W):
            k1 = torch.logspace(-1, 1.5, 7)
            with work.quiet():
                data = d.generate_kaimal_spectra(k1, zref=1.0, ustar=1.0) if i % 2 else {"k1": k1, "ops": synthetic(k1)}
            pb = work.make_problem(lifetime, 0.6 * off[0], 3.0 * off[1], 2.0 * off[2], ncomp=4, integ=dict(ops_num_points=8),
                                   prob=dict(nepochs=T, learning_rate=lr, tol=0.0, wolfe_iter_count=W))
            D = np.stack([data["ops"][:, a, b].double().numpy() for a, b in ref.COMPONENTS[:4]])
            k = data["k1"].double()
            J = lambda: float(np.mean(np.log(np.abs(pb.eval(k)[:4] / D)) ** 2))  # noqa: E731
            start = J()
            with Steps() as st, work.quiet():
                pb.calibrate(data)
            m.near(np.array(st.lrs), lr * 0.5 * (1 + np.cos(np.pi * np.arange(T) / T)), "learning rate of every step", rtol=1e-6)
            m.true(J() <= start * (1 + 1e-6), f"the line search does not overshoot: {start} -> {J()}")

    # noise at the start: as large as requested, white, and only where requested
    for i in range(m.n(10, 80)):
        name = f"noise/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        lifetime = work.LIFETIMES[i % 5]
        ls = lifetime != "TAUNET" or bool(i // 5 % 2)  # the scales stay as given; exponents and network carry the noise
        mag = float(loguniform(r, 1e-3, 0.3))
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime, learn_spectrum=ls, magnitude=mag):
            z = []
            big = i == work.LIFETIMES.index("TAUNET")
            width = 60 if big else 4
            for seed in r.integers(0, 1 << 30, 3 if big else 12):
                v = []
                for kw in (dict(init_with_noise=False, noise_magnitude=mag), dict(init_with_noise=True, noise_magnitude=mag), dict(init_with_noise=True, noise_magnitude=0.0)):
                    torch.manual_seed(int(seed))
                    v.append(np.array(work.make_problem(lifetime, 0.7, 2.5, 2.0, nn=dict(hidden_layer_size=width), integ=dict(ops_num_points=3), prob=dict(kw, use_learnable_spectrum=ls)).parameters))
                m.near(v[0][:3], np.log([0.7, 2.5, 2.0]), "no noise unless requested", atol=1e-9)
                m.near(v[2], v[0], "noise of no magnitude", atol=1e-12)
                z.append((v[1] - v[0])[3:] / mag)
            z = np.concatenate(z)
            m.true(np.all(z != 0) and np.abs(z).max() < 8, "every parameter gets noise of the requested magnitude")
            m.true(0.4 < z.std() < 1.8 and abs(z.mean()) < 5.5 / np.sqrt(z.size), f"the noise is centred and has the requested magnitude (mean {z.mean():.3g}, deviation {z.std():.3g} of it)")
            if z.size > 5000:
                tail = np.mean(np.abs(z) > 2)
                m.true(0.035 < tail < 0.058, f"the noise is normal (fraction beyond two deviations {tail:.3f})")
                m.counts["noise values"] = m.counts.get("noise values", 0) + z.size

    # stopping rule: the first recorded objective below the tolerance ends the run
    for i in range(m.n(8, 60)):
        name = f"stop/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        T, lr = int(r.integers(6, 30)), float(loguniform(r, 0.02, 0.1))
        lifetime = ("CONST", "TWOTHIRD", "TAUNET")[i % 3]
        with m.case(name, epochs=T, lr=lr, lifetime=lifetime):
            def run(tol):
                torch.manual_seed(7)
                pb = work.make_problem(lifetime, 0.6, 3.0, 2.0, ncomp=4, integ=dict(ops_num_points=6), prob=dict(nepochs=T, learning_rate=lr, tol=tol))
                k1 = torch.logspace(-1, 1, 5)
                with Steps() as st, work.quiet():
                    pb.calibrate({"k1": k1, "ops": synthetic(k1)}, optimizer_class=torch.optim.Adam)
                return pb.LossAggregator.component_losses["total"], len(st.lrs)

            full, steps = run(0.0)
            m.true(steps == T and len(full) == T + 1, f"all {T} epochs without a tolerance, {steps} steps")
            j = int(r.integers(1, T + 1)) if i % 2 else T - (i // 2) % 2  # often the last epochs, where the loss before is only just above
            tol = min(full[1:j + 1]) * (1 + 1e-6)
            first = next(q for q in range(1, T + 1) if full[q] < tol)
            rec, steps = run(tol)
            m.true(steps == first, f"stops at the first loss below the tolerance (epoch {first}, took {steps})")
            m.near(np.array(rec), np.array(full[: len(rec)]), "records up to the stop", rtol=1e-4)

    # data that leave no finite objective: the run says so, however short it is
    for i in range(m.n(6, 40)):
        name = f"nonfinite/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = ("CONST", "TWOTHIRD", "TAUNET")[i % 3]
        T = (1, 2, 1, 4)[i % 4]
        adam = bool(i // 2 % 2)
        with m.case(name, epochs=T, lifetime=lifetime, adam=adam):
            pb = work.make_problem(lifetime, 0.6, 3.0, 2.0, ncomp=4, integ=dict(ops_num_points=6), prob=dict(nepochs=T, learning_rate=0.1, tol=float(r.choice([0.0, 1e-9])), wolfe_iter_count=3))
            k1 = torch.logspace(-1, 1, 5)
            bad = synthetic(k1)
            c = int(r.integers(3))
            bad[int(r.integers(5)), c, c] = 0.0
            with work.quiet():
                m.rejects(lambda: pb.calibrate({"k1": k1, "ops": bad}, optimizer_class=torch.optim.Adam if adam else torch.optim.LBFGS), "a calibration whose objective is not finite", (RuntimeError, ValueError))

    # known scales are recovered from the model's own data
    for i in range(m.n(9, 60)):
        name = f"recover/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = ("CONST", "TWOTHIRD", "MANN_APPROX")[i % 3]
        nc = (4, 3)[i % 2]
        L, G, s = float(loguniform(r, 0.4, 1.5)), float(loguniform(r, 1, 3)), float(loguniform(r, 0.5, 4))
        zu = float(loguniform(r, 0.6, 1.6))
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime, components=nc, L=L, Gamma=G, sigma=s):
            integ = dict(ops_num_points=14, ops_log_max=2.5)
            src = work.make_problem(lifetime, L, G, s, ncomp=nc, integ=integ)
            k1 = torch.logspace(-1.2, 1.2, 9)
            with work.quiet():
                F = src.eval(k1)
            data = torch.zeros(len(k1), 3, 3)
            for c, (a, b) in enumerate(ref.COMPONENTS[:4]):
                data[:, a, b] = torch.tensor(F[c])
            pb = work.make_problem(lifetime, L * zu, G * float(r.uniform(0.75, 1.3)), s * float(r.uniform(0.6, 1.6)), ncomp=nc, integ=integ,
                                   prob=dict(nepochs=25, learning_rate=1.0, tol=1e-14, wolfe_iter_count=20))
            with work.quiet():
                out = pb.calibrate({"k1": k1, "ops": data})
            m.near(np.array(list(out.values()), float), np.array([L, G, s]), "scales recovered from the model's own spectra", rtol=0.02)
