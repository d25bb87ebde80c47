"""C18: exported files, divergence and field plots show the field that was generated, at the right coordinates."""

import os
import pathlib
import re
import warnings

import numpy as np

from vf import work
from vf.work import loguniform

RULE = """A case is one generated (or random) vector field with unequal counts and spacings.  Oracles: an independent parser of
the written VTK file (extent, spacing, values in VTK's x-fastest order); central differences written here; the arrays
inside the plotly and matplotlib figures.  The stored field must not change."""
ASSUMPTIONS = ["a file holds the field at the time of writing; spacing is domain length over point count, as in generation"]


def parse_vti(path):
    with open(path, "rb") as f:
        b = f.read()
    cut = b.index(b'<AppendedData encoding="raw">')
    head = b[:cut].decode()
    start = b.index(b"_", cut) + 1
    ext = [int(v) for v in re.search(r'WholeExtent="([^"]*)"', head).group(1).split()]
    piece = [int(v) for v in re.search(r'<Piece Extent="([^"]*)"', head).group(1).split()]
    spacing = [float(v) for v in re.search(r'Spacing="([^"]*)"', head).group(1).split()]
    origin = [float(v) for v in re.search(r'Origin="([^"]*)"', head).group(1).split()]
    ht = np.dtype("<u8" if 'header_type="UInt64"' in head else "<u4")
    types = {"Float64": "<f8", "Float32": "<f4", "Int32": "<i4", "Int64": "<i8"}
    arrays = {}
    for a in re.findall(r"<DataArray ([^>]*)/>", head):
        at = dict(re.findall(r'(\w+)="([^"]*)"', a))
        o = start + int(at["offset"])
        n = int(np.frombuffer(b, ht, 1, o)[0])
        v = np.frombuffer(b, types[at["type"]], n // np.dtype(types[at["type"]]).itemsize, o + ht.itemsize)
        arrays[at["Name"]] = v.reshape(-1, int(at["NumberOfComponents"]))
    return ext, piece, spacing, origin, arrays, "CellData" in head


def central(f, h, axis):
    f = np.moveaxis(f, axis, 0)
    g = np.empty_like(f)
    g[1:-1] = (f[2:] - f[:-2]) / (2 * h)
    g[0] = (f[1] - f[0]) / h
    g[-1] = (f[-1] - f[-2]) / h
    return np.moveaxis(g, 0, axis)


def check(m):
    import drdmannturb as d
    from drdmannturb.fluctuation_generation import wind_plot
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    for i in range(m.n(40, 300)):
        name = f"vtk/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        cfg = work.field_config(r)
        if i == 1:  # a large file
            h = cfg["grid_dimensions"] / (2.0 ** cfg["grid_levels"] + 1)
            cfg["grid_levels"] = r.permutation([5, 5, 6])
            cfg["grid_dimensions"] = h * (2.0 ** cfg["grid_levels"] + 1)
        N = 2 ** np.asarray(cfg["grid_levels"]) + 1
        with m.case(name, **cfg):
            g = d.FluctuationFieldGenerator(**cfg)
            base = work.scratch("vtk")
            for step in range(2):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    g.generate(int(r.integers(1, 3)), **work.profile_args(r))
                u = np.array(g.total_fluctuation)
                stem = str(r.choice(["field", "box.v", "u_0.", "run a ", "x.vti.y"])) + str(step)
                target = os.path.join(base, stem)
                before = set(os.listdir(base))
                g.save_to_vtk(target if r.random() < 0.5 else pathlib.Path(target))
                m.equal(g.total_fluctuation, u, "exporting does not modify the field")
                new = sorted(set(os.listdir(base)) - before)
                if not m.true(new == [f"{stem}.vti"], f"one file of the requested name is written ({new})"):
                    break
                ext, piece, sp, org, arrays, cell = parse_vti(target + ".vti")
                n = u.shape[:3]
                last = n if cell else [k - 1 for k in n]
                m.true(ext == piece == [0, last[0], 0, last[1], 0, last[2]], f"extent {ext} for {n} values")
                m.near(np.array(sp), cfg["grid_dimensions"] / N, "spacing in the file", rtol=1e-12)
                m.near(np.array(org), np.zeros(3), "origin in the file", atol=0)
                want = u.transpose(2, 1, 0, 3).reshape(-1, 3)
                m.near(arrays["wind"], want, "values in the file, in VTK order", rtol=1e-13)
                # writing again replaces the file
                if r.random() < 0.5:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        g.generate(1, **work.profile_args(r))
                    u = np.array(g.total_fluctuation)
                    g.save_to_vtk(target)
                    m.near(parse_vti(target + ".vti")[4]["wind"], u.transpose(2, 1, 0, 3).reshape(-1, 3), "a file written again holds the later field", rtol=1e-13)

    for i in range(m.n(60, 500)):
        name = f"divergence/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        n = r.integers(2, 12, 3)
        h = loguniform(r, 0.01, 50, 3)
        cfg = work.field_config(r)
        with m.case(name, n=n, spacing=h):
            g = d.FluctuationFieldGenerator(**cfg)
            f = r.normal(0, 1, (*n, 3)) * loguniform(r, 0.1, 10)
            keep = f.copy()
            s = tuple(h) if r.random() < 0.5 else h
            got = g.evaluate_divergence(s, f)
            want = sum(central(f[..., c], h[c], c) for c in range(3))
            m.near(got, want, "divergence", atol=1e-11 * np.abs(f).max() / h.min())
            m.equal(f, keep, "field is not modified")
            # fields of whole numbers or in single precision
            fi = r.integers(-9, 10, (*n, 3))
            want = sum(central(fi[..., c].astype(float), h[c], c) for c in range(3))
            m.near(g.evaluate_divergence(h, fi), want, "divergence of a field of whole numbers", atol=1e-11 * 10 / h.min())
            fs = f.astype(np.float32)
            want = sum(central(fs[..., c].astype(float), h[c], c) for c in range(3))
            m.near(g.evaluate_divergence(h, fs), want, "divergence in single precision", atol=2e-6 * np.abs(f).max() / h.min())
            # exact on linear fields
            X = np.meshgrid(*(np.arange(k) * q for k, q in zip(n, h)), indexing="ij")
            A = r.normal(0, 1, (3, 3))
            lin = np.stack([sum(A[a, b] * X[b] for b in range(3)) for a in range(3)], -1)
            m.near(g.evaluate_divergence(h, lin), np.full(n, np.trace(A)), "divergence of a linear field", atol=1e-9 * np.abs(lin).max() / h.min() + 1e-12)
            for _ in range(2):
                g.generate(1, **work.profile_args(r))
                u = np.array(g.total_fluctuation)
                m.equal(g.evaluate_divergence(h, np.zeros((*n, 3))), np.zeros(n), "divergence of a field that vanishes, next to a stored field")
                want = sum(central(u[..., c], h[c], c) for c in range(3))
                m.near(g.evaluate_divergence(h), want, "divergence of the stored field", atol=1e-9 * np.abs(u).max() / h.min())
                if r.random() < 0.5:
                    m.near(g.evaluate_divergence(h * 2), want / 2, "divergence of the stored field on another spacing", atol=1e-9 * np.abs(u).max() / h.min())
            m.rejects(lambda: g.evaluate_divergence(h[:2], f), "two spacings", ValueError)
            m.rejects(lambda: g.evaluate_divergence(h, f[..., :2]), "a field with two components", ValueError)

    # many spacings, because rounding decides where a coordinate computed another way goes astray
    for i in range(m.n(20, 150)):
        name = f"grid/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        with m.case(name):
            for _ in range(40):
                n = [int(r.integers(1, 40)), int(r.integers(1, 40)), int(r.integers(1, 40))]
                n[int(r.integers(3))] = 1 if r.random() < 0.5 else 2
                n[int(r.integers(3))] = int(r.integers(1, 4))
                h = loguniform(r, 1e-3, 1e3, 3) if r.random() < 0.5 else r.integers(1, 100, 3) / 10.0 ** r.integers(0, 3, 3)
                X = np.meshgrid(*(np.arange(k) * q for k, q in zip(n, h)), indexing="ij")
                G = wind_plot.create_grid(tuple(h) if r.random() < 0.5 else h, tuple(n))
                for a in range(3):
                    m.near(G[a], X[a], f"grid coordinate {a + 1} for {n} points of spacing {h}", rtol=1e-12)

    for i in range(m.n(25, 200)):
        name = f"plotly/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        n = r.integers(1, 8, 3) if i else r.permutation([48, 49, 50])
        h = loguniform(r, 0.01, 50, 3)
        with m.case(name, n=n, spacing=h):
            size = float(loguniform(r, 1e-4, 1e5)) if i % 3 == 1 else 1.0
            f = r.normal(0, 3, (*n, 3)) * size
            if r.random() < 0.5:
                f = np.asfortranarray(f)
            keep = f.copy()
            X = np.meshgrid(*(np.arange(k) * q for k, q in zip(n, h)), indexing="ij")
            G = wind_plot.create_grid(tuple(h), tuple(n))
            for a in range(3):
                m.near(G[a], X[a], f"grid coordinate {a + 1}", rtol=1e-12)
            W = wind_plot.format_wind_field(f)
            for a in range(3):
                m.equal(W[a], f[..., a], f"component {a + 1} of the formatted field")
                m.true(W[a].flags["C_CONTIGUOUS"] and not np.shares_memory(W[a], f), "formatted components are C-ordered copies")
            figs = wind_plot.plot_velocity_components(tuple(h), f), wind_plot.plot_velocity_magnitude(tuple(h), f, transparent=bool(r.random() < 0.5))
            vals = [f[..., 0], f[..., 1], f[..., 2]], [np.sqrt((f**2).sum(-1))]
            for fig, want in zip(figs, vals):
                if not m.true(len(fig.data) == len(want), "one volume per quantity"):
                    continue
                for tr, w in zip(fig.data, want):
                    # point by point, whatever the order of the points
                    pts = np.stack([np.asarray(tr[c], float) for c in ("x", "y", "z")], -1)
                    idx = np.rint(pts / h).astype(int)
                    m.near(pts, idx * h, "points of the plot lie on the grid", rtol=1e-12, atol=1e-12)
                    m.true(len({tuple(p) for p in idx}) == np.prod(n) == len(pts), "every grid point is plotted once")
                    m.near(np.asarray(tr["value"], float), w[tuple(idx.T)], "value plotted at each point", rtol=1e-12, atol=1e-12 * size)
            titles = [a.text for a in figs[0].layout.annotations]
            m.true([t.split()[0] for t in titles] == ["x", "y", "z"], "titles name the components", trivial=True)
            m.equal(f, keep, "plotting does not modify the field")
            # components already laid out one after the other: taken as they are, values and array unchanged
            k = np.moveaxis(r.normal(0, 3, (*r.integers(1, 7, 3), 3)), -1, 0).copy()
            k0 = k.copy()
            figs = wind_plot.plot_velocity_components(tuple(h), k, reshape=False), wind_plot.plot_velocity_magnitude(tuple(h), k, reshape=False)
            for fig, want in zip(figs, ([k0[0], k0[1], k0[2]], [np.sqrt((k0**2).sum(0))])):
                if m.true(len(fig.data) == len(want), "one volume per quantity"):
                    for tr, w in zip(fig.data, want):
                        idx = np.rint(np.stack([np.asarray(tr[c], float) for c in ("x", "y", "z")], -1) / h).astype(int)
                        if not m.true(len({tuple(p) for p in idx}) == w.size == len(idx) and np.all(idx.max(0) < w.shape), "every grid point is plotted once (components laid out)"):
                            continue
                        m.near(np.asarray(tr["value"], float), w[tuple(idx.T)], "value plotted at each point (components laid out)", rtol=1e-12, atol=1e-12)
            m.equal(k, k0, "plotting does not modify components already laid out")

    import matplotlib.pyplot as plt

    for i in range(m.n(8, 60)):
        name = f"plane/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        c = work.lf_config(r)
        with m.case(name, **c):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g = LowFreqGenerator(dict(c), seed=1)
                try:
                    g.plot_velocity_fields()
                    m.violate("plotting before generation is accepted")
                except RuntimeError:
                    pass
                g.generate()
                plt.close("all")
                g.plot_velocity_fields()
            ims = [ax.images[0] for ax in plt.gcf().axes if ax.images]
            if m.true(len(ims) >= 2, "two panels"):
                dx = c["L1_factor"] * c["L_2d"] / 2 ** c["exp1"] / 1000
                dy = c["L2_factor"] * c["L_2d"] / 2 ** c["exp2"] / 1000
                for im, u in zip(ims, (g.u1, g.u2)):
                    a = np.asarray(im.get_array())
                    if im.origin == "upper":
                        a = a[::-1]
                    m.near(a, u.T, "field shown", rtol=1e-9)
                    m.near(np.array(im.get_extent()), np.array([-dx / 2, (2 ** c["exp1"] - 0.5) * dx, -dy / 2, (2 ** c["exp2"] - 0.5) * dy]), "extent of the picture in km", rtol=1e-6)
                    lo, hi = im.get_clim()
                    top = max(np.abs(g.u1).max(), np.abs(g.u2).max())
                    m.near(np.array([lo, hi]), np.array([-top, top]), "symmetric colour range", rtol=1e-9)
            plt.close("all")
