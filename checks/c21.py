"""C21: the calibration plots show the model and the data they claim to show, and saving them writes exactly those files."""

import contextlib
import os
from pathlib import Path

import numpy as np

from checks.c06 import coherence_file, synthetic
from vf import ref, work
from vf.work import loguniform

RULE = """A case is one fitted (or re-fitted, or reloaded) model and a history of plot() calls with different data,
precomputed model values, targets and file names.  Monitor: every curve inside the matplotlib figures.  Oracles: the data
set the caller gave, component by component; the spectra and coherence the model itself returns, the float64 reference
lifetime for its current parameters; the files that exist afterwards.  Plotting must not change the model or the data."""
ASSUMPTIONS = ["the lifetime figure's abscissa is k L with the configured length scale", "curves of vanishing components are compared in absolute terms"]

INDEX = {"11": (0, 0), "22": (1, 1), "33": (2, 2), "13": (0, 2), "23": (1, 2), "12": (0, 1)}
ORDER = ["11", "22", "33", "13", "23", "12"]
DIRS = {"(k_1)": (1, 0, 0), "(k_2)": (0, 1, 0), "(k_3)": (0, 0, 1), "(k,k,k)": (3**-0.5,) * 3}


def figures():
    import matplotlib.pyplot as plt

    return {len(f.axes): f for f in (plt.figure(n) for n in plt.get_fignums())}


@contextlib.contextmanager
def no_drawing(save):
    """Skip the layout and rasterisation of figures nobody looks at (most of the time of a plot); saving is left alone."""
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure

    kept = Figure.tight_layout, FigureCanvasAgg.draw
    Figure.tight_layout = lambda *a, **k: None
    if not save:
        FigureCanvasAgg.draw = lambda *a, **k: None
    try:
        yield
    finally:
        Figure.tight_layout, FigureCanvasAgg.draw = kept


def curves(ax):
    return {ln.get_label(): (np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)) for ln in ax.get_lines()}


def spectra(m, fig, k1, data, model, provided, ustar, tol):
    """The six panels, in the fixed component order, each under its own name."""
    seen = {}
    for ax in fig.axes:
        title = ax.get_title()
        comp = next((c for c in ORDER if c in title), None)
        seen[comp] = ax
    if not m.true(set(seen) == set(ORDER), f"one panel for each component: {[ax.get_title() for ax in fig.axes]}"):
        return
    for comp, ax in seen.items():
        i, j = INDEX[comp]
        sign = -1.0 if comp == "13" else 1.0
        if comp == "13":
            m.true("-" in ax.get_title().split("F")[0], "the negated component says so in its title", trivial=True)
        lines = curves(ax)
        mod = [v for key, v in lines.items() if "model" in key]
        dat = [v for key, v in lines.items() if "data" in key]
        m.true(len(mod) == 1 and all(comp[0] in key for key in lines), f"panel {comp}: one model curve")
        m.true(len(dat) == (comp in provided), f"panel {comp}: data exactly when it was provided")
        o = np.argsort(k1)
        mod, dat = ([tuple(t[np.argsort(v[0])] for t in v) for v in c] for c in (mod, dat))
        if mod:
            m.near(mod[0][0], k1[o], "abscissa of the model curves", rtol=1e-6)
            w = sign * model[ORDER.index(comp)][o]
            m.near(mod[0][1], w, f"model curve of component {comp}", rtol=tol, atol=tol * np.abs(model[:3]).max())
        if dat and comp in provided:
            m.near(dat[0][0], k1[o], "abscissa of the data", rtol=1e-6)
            m.near(dat[0][1], (sign * data[:, i, j] / ustar**2)[o], f"data of component {comp}", rtol=1e-5, atol=1e-12)


def check(m):
    import matplotlib.pyplot as plt
    import torch

    for i in range(m.n(15, 150)):
        name = f"fit/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        nc = (3, 4, 6)[(i // 5) % 3]
        ustar = float(r.choice([1.0, 0.41, 1.9, 0.03, 17.0]))
        L, G, s = (float(x) for x in loguniform(r, 0.3, 3, 3))
        coh = i % 3 == 0 and lifetime != "MANN_APPROX"
        n = int(r.integers(3, 8))
        plt.close("all")
        with m.case(name, lifetime=lifetime, components=nc, ustar=ustar, L=L, Gamma=G, sigma=s, coherence=coh, n=n):
            out = work.scratch("figs")
            pb = work.make_problem(lifetime, L, G, s, ncomp=nc, phys=dict(ustar=ustar, Uref=8.0, wavenumber_conversion_factor=1.0), prob=dict(wolfe_iter_count=2),
                                   integ=dict(ops_num_points=7, coh_num_points=5), output_directory=out if r.random() < 0.5 else Path(out))
            work.shake_network(pb.OPS, r, 0.3)
            k1 = torch.logspace(float(r.uniform(-1.5, -0.5)), 1, n)
            if i % 3 == 1:  # measured data need not be sorted
                k1 = k1[torch.tensor(r.permutation(n))]
            ops = synthetic(k1) * torch.tensor(r.uniform(0.8, 1.2, (n, 3, 3)), dtype=k1.dtype)
            data = {"k1": k1, "ops": ops}
            path = None
            if coh:
                f, seps = np.sort(loguniform(r, 0.1, 10, 4)), np.sort(loguniform(r, 0.05, 2, (3, 5, 2, 9, 4, 6)[(i // 3) % 6]))
                vals = r.uniform(0, 1, (3, len(seps), len(f)))
                path = coherence_file(f, seps, r, vals)
            with work.quiet():
                pb.calibrate(data, coherence_data_file=path, optimizer_class=torch.optim.Adam)
            keep = ops.clone()
            for step in range(int(r.integers(1, 4))):
                plt.close("all") if r.random() < 0.5 else None
                if step and r.random() < 0.6:  # the figures follow the current parameters
                    v = np.array(pb.parameters).copy()
                    v[:3] += r.normal(0, 0.3, 3)
                    v[1] += float(r.choice([0.0, 0.0, 0.0, 3.0, -3.0]))
                    pb.parameters = v
                v0 = np.array(pb.parameters).copy()
                kw = {}
                x, y = k1, ops
                if r.random() < 0.35:
                    nn = int(r.integers(3, 7))
                    x = torch.logspace(-0.8, 0.9, nn)
                    y = synthetic(x) * float(r.uniform(0.5, 2))
                    kw["OPSData"] = ([(float(a), 1.0) for a in x], y)
                given = None
                if r.random() < 0.25:
                    given = torch.tensor(r.uniform(0.1, 1, (6, len(x))), dtype=torch.float32)
                    kw["model_vals"] = given
                tau = bool(r.random() < 0.7)
                if r.random() < 0.5 or not tau:
                    kw["plot_tau"] = tau
                tau = kw.get("plot_tau", True)
                files = None
                if step == 0 and i % 3 != 2 or r.random() < 0.2:
                    kw["save"] = True
                    where = out
                    if (i + step) % 3:
                        where = os.path.join(out, f"sub{step}", "deep") if (i + step) % 3 == 1 else work.scratch("other")
                        kw["save_dir"] = where if r.random() < 0.5 else Path(where)
                    stem = "drdmannturb_final_spectra_fit"
                    if (i + step) % 4:
                        stem = kw["save_filename"] = ("fit", "a.b", f"run {step}")[(i + step) % 4 - 1]
                    files = {os.path.join(where, stem + "_spectra.png")} | ({os.path.join(where, stem + "_tau.png")} if tau else set())
                existed = {os.path.join(a, b) for base in {out, *([str(kw["save_dir"])] if "save_dir" in kw else [])} for a, _, fs in os.walk(base) for b in fs}
                for p in existed & (files or set()):
                    os.remove(p)
                with work.quiet(), no_drawing(kw.get("save")):
                    pb.plot(**kw)
                figs = figures()
                Lc, Gc = np.exp(v0[:2].astype(float))
                if not m.true(6 in figs and (1 in figs or not tau), f"the figures exist: axes {sorted(figs)}"):
                    break
                xs = x.double().numpy()
                want = given.double().numpy() if given is not None else model(pb, xs) / ustar**2
                provided = set(ORDER[:nc])
                spectra(m, figs[6], xs, y.double().numpy(), want, provided, ustar, 2e-3)
                if tau:
                    lines = curves(figs[1].axes[0])
                    t = work.ref_tau(lifetime, Lc, pb.OPS)
                    for key, dvec in DIRS.items():
                        hit = [v for lab, v in lines.items() if key in lab and "model" in lab]
                        if m.true(len(hit) == 1, f"lifetime along {key} is shown"):
                            xx, yy = hit[0]
                            m.near(yy, Gc * t((xx / L)[:, None] * np.array(dvec)), f"lifetime curve along {key}", rtol=2e-4)
                            m.true(len(xx) > 10 and xx[0] < 0.01 * L and xx[-1] > 100 * L, "lifetime curves span the range of scales", trivial=True)
                    hit = [v for lab, v in lines.items() if "ref" in lab]
                    if m.true(len(hit) == 1, "reference lifetime is shown"):
                        m.near(hit[0][1], G * ref.mann_tau(hit[0][0]), "reference lifetime curve", rtol=2e-4)
                if coh:
                    check_coherence(m, pb, figs.get(12), f, seps, vals)
                if files is not None:
                    after = {os.path.join(a, b) for base in {out, *([str(kw["save_dir"])] if "save_dir" in kw else [])} for a, _, fs in os.walk(base) for b in fs}
                    m.true(after - (existed - files) == files, f"files written: {sorted(after - existed)} instead of {sorted(files)}")
                    for p in files & after:
                        with open(p, "rb") as h:
                            m.true(h.read(8) == b"\x89PNG\r\n\x1a\n", "the figure file is a PNG", trivial=True)
                m.equal(np.array(pb.parameters), v0, "plotting leaves the model alone")
                m.equal(ops, keep, "plotting leaves the data alone")
            if r.random() < 0.3:
                pb.output_directory = None
                with work.quiet():
                    m.rejects(lambda: pb.plot(save=True, plot_tau=False), "saving a figure without any directory", ValueError)
    plt.close("all")


def model(pb, k1):
    """The model's own spectra at these wave numbers (C04 judges them)."""
    import torch

    with torch.no_grad():
        return pb.OPS(torch.tensor(k1, dtype=torch.get_default_dtype())).double().numpy()


def check_coherence(m, pb, fig, f, seps, vals):
    if not m.true(fig is not None, "coherence figure exists"):
        return
    sel = [int(np.argmin(np.abs(seps - x))) for x in np.asarray(pb.coherence_plot_separations, float)]
    mod = [np.asarray(x.detach(), float) for x in (pb.model_coherence_u, pb.model_coherence_v, pb.model_coherence_w)]
    for q, ax in enumerate(fig.axes):
        row, col = divmod(q, 3)
        lines = curves(ax)
        dat = [v for key, v in lines.items() if "Data" in key]
        mm = [v for key, v in lines.items() if "Model" in key]
        if row == 0:
            m.true("UVW"[col] in ax.get_title(), "coherence columns are named", trivial=True)
        if col == 0:
            m.true(f"{seps[sel[row]]:.1f}" in ax.get_ylabel(), f"coherence row {row} names its separation")
        if m.true(len(dat) == 1 and len(mm) == 1, "coherence panel shows data and model"):
            m.near(dat[0][0], f, "coherence abscissa", rtol=1e-9)
            m.near(dat[0][1], vals[col, sel[row]], "measured coherence curve", rtol=1e-9)
            m.near(mm[0][1], mod[col][row], "model coherence curve", rtol=1e-6, atol=1e-7)
