"""C20: training diagnostics - records, averages, advice, learning-rate changes and log files - tell what happened."""

import os
import time
from pathlib import Path

import numpy as np

from checks.c06 import coherence_file, synthetic
from checks.c07 import TERMS, weights
from checks.c08 import Steps
from vf import work
from vf.work import loguniform

RULE = """A case is one history of objective evaluations (decaying, stagnating, erratic or one-sided loss series; any
window) or one calibration over a hundred epochs.  Oracles: moving averages, window statistics and the advice recomputed in
float64 from the series; the learning rate of every optimiser step (recorded at the optimiser) against the cosine schedule
times the advised factors; the TensorBoard event file read back against the records; the curves of the loss plot."""
ASSUMPTIONS = ["advice is compared only where the statistic is not within 1e-6 of a threshold"]


def advice(rec, epoch, window):
    """The documented rule; None where a threshold is too close to call."""
    if epoch < window:
        return False, "insufficient_data", None
    n = len(rec["total"])
    if n < window:
        return False, "no_diagnostics", None
    w = {k: np.array(v[-window:], float) for k, v in rec.items()}
    h = window // 2
    early, late = w["total"][:h], w["total"][h:]
    imp = (early.mean() - late.mean()) / max(early.mean(), 1e-8)
    stab = 1 / (1 + w["total"].std())
    means = [w[t].mean() for t in TERMS]
    dom = max(means) / max(min(means), 1e-8)
    for x, t in ((imp, 0.01), (stab, 0.3), (dom, 100.0)):
        if abs(x - t) < 1e-6 * max(1, t):
            return None
    if imp < 0.01:
        return True, "stagnation", 0.5
    if stab < 0.3:
        return True, "instability", 0.3
    if dom > 100:
        return True, "component_dominance", 0.7
    return False, "healthy_training", None


def series(r, n):
    kind = str(r.choice(["decay", "flat", "noisy", "drop"]))
    t = np.arange(n)
    if kind == "decay":
        return kind, float(loguniform(r, 0.1, 3)) * np.exp(-t * float(loguniform(r, 1e-3, 0.05)))
    if kind == "flat":
        return kind, float(loguniform(r, 0.1, 3)) * (1 + 0.01 * r.normal(0, 1, n))
    if kind == "noisy":
        return kind, loguniform(r, 0.01, 60, n) * float(r.choice([1, 1, 1e3]))
    return kind, np.where(t < n // 2, float(loguniform(r, 1, 60)), float(loguniform(r, 0.1, 1)))


def check(m):
    import drdmannturb as d
    import matplotlib.pyplot as plt
    import torch

    for i in range(m.n(60, 500)):
        name = f"history/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        n = int(r.integers(1, 90)) if i > 1 else int((r.integers(300, 600), r.integers(1100, 1500))[i])
        kind, s = series(r, n)
        if i < 2:
            kind, s = "drop", np.where(np.arange(n) < n / 2, 5.0, 0.5) * (1 + 0.001 * r.normal(0, 1, n))
        if i % 4 == 1:  # now and then the model meets the data exactly
            s = np.where(r.random(n) < 0.2, 0.0, s)
        lp = weights(r) if r.random() < 0.4 else {k: float(loguniform(r, 0.05, 2)) for k in ("alpha_pen1", "alpha_pen2", "beta_reg", "gamma_coherence")}
        with work.default_dtype("float64"), m.case(name, kind=kind, n=n, weights=lp):
            tb = work.scratch("log")
            nk = int((5, 3, 33, 64)[i % 4])
            k1 = torch.logspace(-1, 1, nk)
            agg = d.LossAggregator(params=d.LossParameters(**lp), k1space=k1, zref=1.0, tb_log_dir=tb)
            ema, parts, shares = None, [], []
            m.true(agg.get_current_loss_info() == {}, "no information before the first evaluation")
            for e in range(n):
                y = torch.exp(torch.tensor(r.normal(0, 0.3, (3, nk))))
                data = y * np.exp(np.sqrt(s[e]))
                c = torch.tensor(r.uniform(0, 1, (6, 2, 3)))
                cd = dict(model_u=c[0], model_v=c[1], model_w=c[2], data_u=c[3], data_v=c[4], data_w=c[5])
                parts.append(((c[0:3] - c[3:6]) ** 2).mean((1, 2)).numpy())
                with work.quiet():
                    total = agg.eval(y, data, torch.tensor(r.normal(0, 1, 6)), e, coherence_data=cd)
                last = {t: agg.component_losses[t][-1] for t in TERMS}
                m.near(np.array(agg.component_losses["mse"][-1]), np.array(s[e]), "recorded misfit", rtol=1e-8, atol=1e-28 + 1e-14 * np.sqrt(s[e]))
                m.near(np.array(agg.component_losses["total"][-1]), total.numpy(), "recorded total is the objective", rtol=1e-12)
                ema = dict(last) if ema is None else {t: 0.9 * ema[t] + 0.1 * last[t] for t in TERMS}
                for t in TERMS:
                    m.near(np.array(agg.running_averages[t]), np.array(ema[t]), "running average", rtol=1e-9, atol=1e-15)
                if e and sum(ema.values()) > 0:
                    shares.append((e, {k: v / sum(ema.values()) for k, v in ema.items()}))
            rec = {k: list(v) for k, v in agg.component_losses.items()}
            info = agg.get_current_loss_info()
            m.near(np.array([info["mse_current"], info["coherence_current"], info["total_current"], info["mse_avg"], info["coherence_avg"], info["mse_coherence_ratio"]]),
                   np.array([rec["mse"][-1], rec["coherence"][-1], rec["total"][-1], ema["mse"], ema["coherence"], ema["mse"] / max(ema["coherence"], 1e-8)]), "current loss information", rtol=1e-9)
            for window in (50, int(r.integers(2, 60)), n, int(r.integers(2, n + 2))):
                if window < 2:
                    continue
                g = agg.get_loss_diagnostics(window)
                if n < window:
                    m.true(g == {}, "no statistics before the window is full")
                else:
                    t = np.array(rec["total"][-window:])
                    a, b = t[: window // 2].mean(), t[window // 2 :].mean()
                    m.near(np.array([g["stability"], g["improvement_ratio"]]), np.array([1 / (1 + t.std()), (a - b) / max(a, 1e-8)]), "stability and improvement", rtol=1e-7, atol=1e-7)
                    for k, v in rec.items():
                        w = np.array(v[-window:])
                        m.near(np.array([g[f"{k}_mean"], g[f"{k}_std"]]), np.array([w.mean(), w.std()]), "window mean and deviation", rtol=1e-7, atol=1e-9)
                    means = {t: np.mean(rec[t][-window:]) for t in TERMS}
                    m.true(np.isclose(means[g["dominant_component"]], max(means.values()), rtol=1e-9), "dominant term")
                    m.near(np.array(g["dominance_ratio"]), np.array(max(means.values()) / max(min(means.values()), 1e-8)), "dominance ratio", rtol=1e-8)
                for epoch in (n - 1, n, window - 1, window, 1000):
                    want = advice(rec, epoch, window)
                    if want is None:
                        continue
                    got = agg.should_adjust_learning_rate(epoch, window)
                    m.true((bool(got["adjust"]), got["reason"]) == want[:2], f"advice at epoch {epoch}, window {window}: {got}, expected {want}")
                    if want[0]:
                        m.near(np.array(got["factor"]), np.array(want[2]), "advised factor", rtol=1e-12)
            m.true(rec == {k: list(v) for k, v in agg.component_losses.items()}, "asking does not change the records")
            agg.writer.close()
            if n <= 40:
                events(m, tb, rec, lp, np.array(parts), shares)

    # balancing factors
    for i in range(m.n(15, 100)):
        name = f"balance/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        with m.case(name):
            agg = d.LossAggregator(params=d.LossParameters(), k1space=torch.logspace(-1, 1, 5), zref=1.0, tb_log_dir=work.scratch("log"))
            a = b = None
            for e in range(int(r.integers(1, 45))):
                x, z = float(loguniform(r, 1e-3, 10)), float(loguniform(r, 1e-3, 10)) * (r.random() < 0.8)
                if a is None:
                    a, b = x, z or 1.0
                elif e % 10 == 0:
                    a = 0.9 * a + 0.1 * x
                    b = 0.9 * b + 0.1 * z if z else b
                got = agg.compute_loss_scales(e, torch.tensor(x), torch.tensor(z))
                m.near(np.array(got), np.array([1 / a, 1 / b]), "balancing factors", rtol=1e-5)
            agg.writer.close()

    # a calibration long enough for the advice to be taken
    for i in range(m.n(5, 40)):
        name = f"schedule/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        T = int(r.choice([60, 101, 120, 160]))
        lifetime = ("CONST", "TWOTHIRD", "TAUNET")[i % 3]
        lr = float(r.uniform(1.2, 3) if i % 5 == 3 else loguniform(r, 1e-3, 0.3))
        lp = weights(r, lifetime == "TAUNET")
        use_coh = bool(r.random() < 0.3)
        newton = i % 5 == 4
        if newton:
            T, lr = int(r.choice([60, 101])), float(loguniform(r, 1e-3, 1))
        elif i % 5 == 1:  # a long one
            T, lifetime, lp, use_coh = int(r.integers(420, 520)), "CONST", {}, False
        with m.case(name, epochs=T, lr=lr, lifetime=lifetime, weights=lp, coherence=use_coh, optimizer="LBFGS" if newton else "Adam"):
            tb = work.scratch("log")
            pb = work.make_problem(lifetime, 0.6, 3.0, 2.0, ncomp=4, loss=lp, integ=dict(ops_num_points=5, coh_num_points=5), prob=dict(nepochs=T, learning_rate=lr, tol=0.0, wolfe_iter_count=int(r.integers(1, 3))), logging_directory=tb)
            k1 = torch.logspace(-1, 1, 5)
            path = coherence_file(np.array([1.0, 2.0, 5.0]), np.array([0.1, 0.3, 0.5, 1.0]), r) if use_coh else None
            with Steps() as st, work.quiet():
                pb.calibrate({"k1": k1, "ops": synthetic(k1)}, coherence_data_file=path, optimizer_class=torch.optim.LBFGS if newton else torch.optim.Adam)
            rec = pb.LossAggregator.component_losses
            fac, want = 1.0, []
            clear = True
            for e in range(T):
                want.append(lr * 0.5 * (1 + np.cos(np.pi * e / T)) * fac)
                ep = e + 1
                if ep % 50 == 0:
                    # what was on record when this epoch ended: the loss before the fit and one per evaluation since
                    adv = advice({k: v[: 1 + sum(st.evals[:ep])] for k, v in rec.items()}, ep, 50)
                    if adv is None:
                        clear = False
                        break
                    if adv[0]:
                        fac *= adv[2]
            m.true(sum(st.evals) + 1 == len(rec["total"]), f"{len(rec['total'])} records of {sum(st.evals)} evaluations during the fit")
            if m.true(len(st.lrs) == T, f"{T} optimiser steps, {len(st.lrs)} taken") and clear:
                m.near(np.array(st.lrs), np.array(want), "learning rate of every step", rtol=1e-5, atol=1e-9 * lr)
            m.counts["learning rate changed"] = m.counts.get("learning rate changed", 0) + (fac != 1.0)
            pb.LossAggregator.writer.close()
            files = [f for f in os.listdir(tb) if "events" in f]
            m.true(len(files) == 1, f"one event file ({files})")
            acc = read(tb)
            tags = acc.Tags()["scalars"]
            m.true([e.step for e in acc.Scalars("MSE Loss")] == [0] + list(range(sum(st.evals))), "events are numbered by evaluation")
            plt.close("all")
            pb.plot_losses(0)
            shown = {ax.get_title(): np.asarray(ax.lines[0].get_ydata(), float) for ax in plt.gcf().axes if ax.lines}
            m.true(set(shown) == set(tags), "every logged term is plotted under its name")
            for t in set(shown) & set(tags):
                v = np.array([e.value for e in acc.Scalars(t)])
                y = shown[t]
                m.true(len(y) <= len(v) and len(v) - len(y) <= 2, "the plotted curve has the logged length")
                m.near(y, v[len(v) - len(y):], "plotted loss curve", rtol=1e-6)
            plt.close("all")

    # several runs in one logging directory: run N of the plot is the N-th calibration
    for i in range(m.n(2, 8)):
        name = f"runs/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        nrun = int(r.integers(3, 6))
        with m.case(name, runs=nrun):
            tb = work.scratch("log")
            recs = []
            for j in range(nrun):
                if j:
                    time.sleep(1.05)  # the runs are told apart by the second in their file names
                lp = {"alpha_pen1": 1.0} if j % 2 else {}
                pb = work.make_problem("CONST", float(loguniform(r, 0.3, 2)), 2.0, 1.0, ncomp=3, loss=lp, integ=dict(ops_num_points=4),
                                       prob=dict(nepochs=int(r.integers(4, 9)), tol=0.0), logging_directory=tb)
                k1 = torch.logspace(-1, 1, 4)
                with work.quiet():
                    pb.calibrate({"k1": k1, "ops": synthetic(k1)}, optimizer_class=torch.optim.Adam)
                pb.LossAggregator.writer.close()
                recs.append(np.array(pb.LossAggregator.component_losses["mse"]))
            for j in r.permutation(nrun):
                plt.close("all")
                pb.plot_losses(int(j))
                got = [np.asarray(ax.lines[0].get_ydata(), float) for ax in plt.gcf().axes if ax.get_title() == "MSE Loss"]
                if m.true(len(got) == 1 and 0 <= len(recs[j]) - len(got[0]) <= 2, f"run {j}: {len(recs[j])} records"):
                    m.near(got[0], recs[j][len(recs[j]) - len(got[0]):], f"loss curve of run {j}", rtol=1e-6)
            plt.close("all")
            path = os.path.join(tb, sorted(os.listdir(tb))[0])
            d.plot_loss_logs(path if i % 2 else Path(path))
            m.true(any(ax.get_title() == "MSE Loss" for ax in plt.gcf().axes), "a log file is plotted by its path")
            plt.close("all")

    # a problem fitted again logs its second fit as it logged the first
    for i in range(m.n(2, 8)):
        name = f"again/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        with m.case(name):
            tb, T = work.scratch("log"), int(r.integers(3, 9))
            pb = work.make_problem("CONST", float(loguniform(r, 0.3, 2)), 2.0, 1.0, ncomp=3, loss={}, integ=dict(ops_num_points=4), prob=dict(nepochs=T, tol=0.0), logging_directory=tb)
            k1 = torch.logspace(-1, 1, 4)
            logged = []
            for j in range(2):
                if j:
                    time.sleep(1.05)
                before = set(os.listdir(tb))
                with work.quiet():
                    pb.calibrate({"k1": k1, "ops": synthetic(k1)}, optimizer_class=torch.optim.Adam)
                pb.LossAggregator.writer.close()
                new = [q for q in os.listdir(tb) if q not in before]
                if m.true(len(new) == 1, f"fit {j}: one new event file"):
                    logged.append(read(os.path.join(tb, new[0])).Scalars("MSE Loss"))
                    m.near(np.array([e.value for e in logged[-1]]), np.array(pb.LossAggregator.component_losses["mse"]), f"logged misfit of fit {j}", rtol=1e-6, atol=1e-30)
            m.true(len(logged) == 2 and [e.step for e in logged[0]] == [e.step for e in logged[1]] == [0] + list(range(T)), f"steps of both fits: {[[e.step for e in x] for x in logged]}")

    # schedulers offered for combined fits
    for i in range(m.n(12, 60)):
        name = f"phases/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        T, lr = int(r.integers(3, 60)), float(loguniform(r, 1e-3, 1))
        with m.case(name, epochs=T, lr=lr):
            pb = work.make_problem("CONST", integ=dict(ops_num_points=4))
            opt = torch.optim.Adam(pb.OPS.parameters(), lr=lr)
            sch = pb.get_three_phase_scheduler(opt, T)
            got, want = [], []
            for e in range(T):
                got.append(opt.param_groups[0]["lr"])
                want.append(lr * (2.0 if e < 0.3 * T else 2.0 - (e - 0.3 * T) / (0.4 * T) if e < 0.7 * T else 0.1))
                opt.step()
                sch.step()
            m.near(np.array(got), np.array(want), "three-phase learning rate", rtol=1e-9)
            # the adaptive scheduler follows the balance of the recorded objectives
            n = int(r.integers(1, 30))
            hist = {"ops": list(loguniform(r, 1e-2, 10, n)), "coherence": list(loguniform(r, 1e-2, 10, n)), "total": [1.0] * n}
            pb.loss_history = hist
            opt = torch.optim.Adam(pb.OPS.parameters(), lr=lr)
            sch = pb.get_adaptive_multi_scheduler(opt, T)
            got, want = [], []
            for e in range(min(T, 20)):
                got.append(opt.param_groups[0]["lr"])
                q = np.mean(hist["ops"][-5:]) / (np.mean(hist["coherence"][-5:]) + 1e-8)
                want.append(lr * (1.0 if len(hist["total"]) < 10 else 0.5 if q > 10 or q < 0.1 else 0.95 ** (e - 10)))
                opt.step()
                if r.random() < 0.5:
                    for key in hist:
                        hist[key].append(float(loguniform(r, 1e-2, 10)))
                    # the factor of the next step is computed from what is recorded when the schedule advances
                sch.step()
            m.near(np.array(got), np.array(want), "adaptive learning rate", rtol=1e-9)


def read(tb):
    from tensorboard.backend.event_processing.event_accumulator import EventAccumulator

    acc = EventAccumulator(tb, size_guidance={"scalars": 0})
    acc.Reload()
    return acc


def events(m, tb, rec, lp, parts, shares):
    """The event file against the records of the same run."""
    acc = read(tb)
    tags = {"mse": "MSE Loss", "pen1": "1st Order Penalty", "pen2": "2nd Order Penalty", "regularization": "Regularization", "coherence": "Coherence Loss/Total"}
    on = {"mse": True, "pen1": "alpha_pen1" in lp, "pen2": "alpha_pen2" in lp, "regularization": "beta_reg" in lp, "coherence": "gamma_coherence" in lp}
    have = acc.Tags()["scalars"]
    for t, tag in tags.items():
        if not on[t]:
            m.true(tag not in have, f"term {t} is off and not logged", trivial=True)
            continue
        ev = acc.Scalars(tag) if tag in have else []
        if m.true([e.step for e in ev] == list(range(len(rec[t]))), f"{t}: one event per evaluation, in order"):
            m.near(np.array([e.value for e in ev]), np.array(rec[t]), f"logged {t}", rtol=1e-6, atol=1e-30)
    if on["coherence"]:
        for j, c in enumerate("UVW"):
            ev = acc.Scalars(f"Coherence Loss/{c}-component") if f"Coherence Loss/{c}-component" in have else []
            if m.true([e.step for e in ev] == list(range(len(parts))), f"coherence of {c}: one event per evaluation"):
                m.near(np.array([e.value for e in ev]), parts[:, j], f"logged coherence misfit of {c}", rtol=1e-5, atol=1e-30)
    # the share of each term in the moving average of the objective
    for tag, of in {"MSE": ("mse",), "Coherence": ("coherence",), "Penalties": ("pen1", "pen2"), "Regularization": ("regularization",)}.items():
        ev = acc.Scalars(f"Component_Ratios/{tag}") if f"Component_Ratios/{tag}" in have else []
        if m.true([e.step for e in ev] == [e for e, _ in shares], f"share of {tag}: one event per evaluation after the first"):
            m.near(np.array([e.value for e in ev]), np.array([sum(s[t] for t in of) for _, s in shares]), f"logged share of {tag}", rtol=1e-5, atol=1e-9)
