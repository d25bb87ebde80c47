"""C23: the studies of the low-frequency model report the fields they generated."""

import json
import os
import pickle
import re
import subprocess
import sys
import time
import warnings

import numpy as np

if __name__ == "__main__":
    sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]

from checks.c15 import estimate
from vf import work
from vf.core import VERIF
from vf.work import loguniform

RULE = """A case is one study (mesh sizes, domain sizes, grid and domain sizes together, rectangular domains, anisotropy angles,
spectra of one field, averaged spectra of two generators) on one configuration and number of realisations, in processes
of its own where the study uses them, with members delayed (so that they complete in another order) or failing.  A
recorder at LowFreqGenerator.generate keeps every field the study generated together with the configuration it was
generated for; the oracle recomputes from the record what the study must have returned, printed and drawn."""
ASSUMPTIONS = [
    "studies of fixed large size run with a stand-in for generate() that returns small random fields; the others run the real one",
    "where a target spectrum is drawn at hundreds of wave numbers, a closed form stands in for analytical_spectrum (C15 decides the real one)",
    "numbers read from printed text are compared to the digits printed",
]
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"


# ------------------------------------------------------------------------------------------------ recording
class Record:
    """Keep every generated field, also those generated in child processes."""

    def __init__(self, cls, standin=None, fails=None, delay=None, folder=None):
        self.cls, self.standin, self.fails, self.delay, self.folder = cls, standin, fails, delay, folder
        self.seen = []

    def __enter__(self):
        real = self.real = self.cls.generate
        rec = self

        def generate(gen, *a, **k):
            cfg = {
                "sigma2": gen.sigma2, "L_2d": gen.L_2d, "psi": gen.psi, "z_i": gen.z_i,
                "L1_factor": gen.user_L1 / gen.L_2d, "L2_factor": gen.user_L2 / gen.L_2d,
                "exp1": np.log2(gen.user_N1), "exp2": np.log2(gen.user_N2),
            }  # fmt: skip
            if rec.fails and rec.fails(cfg):
                raise RuntimeError("injected: this member cannot be computed")
            if rec.delay:
                time.sleep(rec.delay(cfg))
            if rec.standin:
                gen.u1_full, gen.u2_full = rec.standin(cfg)
                gen.u1, gen.u2 = rec.standin(cfg)
                out = gen.u1, gen.u2
            else:
                out = real(gen, *a, **k)
            one = dict(cfg=cfg, gen=id(gen), u1=np.array(out[0]), u2=np.array(out[1]), dx=gen.user_dx, dy=gen.user_dy)
            if rec.standin:
                one["full"] = np.array(gen.u1_full), np.array(gen.u2_full)
            rec.seen.append(one)
            if rec.folder:
                with open(os.path.join(rec.folder, f"{os.getpid()}-{len(rec.seen)}"), "wb") as f:
                    pickle.dump(one, f)
            return out

        self.cls.generate = generate
        return self

    def __exit__(self, *a):
        self.cls.generate = self.real


def drawn(plt):
    out = []
    for n in plt.get_fignums():
        fig = plt.figure(n)
        out.append([
            dict(
                title=ax.get_title(), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(),
                lines=[(str(ln.get_label()), np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float)) for ln in ax.lines],
                images=[(np.array(im.get_array()), im.origin, tuple(im.get_extent()), tuple(im.get_clim())) for im in ax.images],
                xticks=[t.get_text() for t in ax.get_xticklabels()], yticks=[t.get_text() for t in ax.get_yticklabels()],
                texts=[(t.get_position(), t.get_text()) for t in ax.texts],
            )
            for ax in fig.axes
        ])  # fmt: skip
    return out


def drive(jobs):
    """Run studies that use processes of their own (in a fresh process without threads)."""
    import contextlib
    import io

    import matplotlib.pyplot as plt

    from drdmannturb.fluctuation_generation.low_frequency import large_plot
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    results = []
    for j, job in enumerate(jobs):
        folder = os.path.abspath(f"rec{j}")
        os.mkdir(folder)
        key = "exp1" if job["study"] == "mesh" else "L1_factor"
        fails = (lambda c, key=key, job=job: abs(c[key] - job["fail"]) < 1e-9) if job.get("fail") is not None else None
        delays = {float(k): v for k, v in job["delay"].items()}
        small = None
        if job.get("standin"):

            def small(c):
                g = np.random.default_rng()
                return g.normal(0.3, 1, (6, 5)), g.normal(-0.2, 2, (6, 5))

        out, err = io.StringIO(), None
        plt.close("all")
        with Record(LowFreqGenerator, small, fails, lambda c: min((v for k, v in delays.items() if abs(k - c[key]) < 1e-9), default=0.0), folder):
            with contextlib.redirect_stdout(out), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    if job["study"] == "mesh":
                        large_plot.mesh_independence_study(**job["args"])
                    else:
                        large_plot.domain_size_study(**job["args"])
                except Exception as e:
                    import traceback

                    err = f"{type(e).__name__}: {e}", traceback.format_exc()[-1500:]
        seen = []
        for fn in sorted(os.listdir(folder)):
            with open(os.path.join(folder, fn), "rb") as f:
                seen.append(pickle.load(f))
        results.append(dict(seen=seen, figures=drawn(plt), err=err, out=out.getvalue()))
    with open("out.pkl", "wb") as f:
        pickle.dump(results, f)


def stats(seen):
    """Mean over realisations of norm and variance of u1 and u2."""
    s = [[(x["u1"] ** 2).sum() * x["dx"] * x["dy"], (x["u2"] ** 2).sum() * x["dx"] * x["dy"], x["u1"].var(), x["u2"].var()] for x in seen]
    return np.mean(s, axis=0)


def judge_sizes(m, job, res):
    """The figure of a study over mesh or domain sizes."""
    if res["err"]:
        m.violate(f"the study raised {res['err'][0]}"[:300], res["err"][1])
        return
    mesh = job["study"] == "mesh"
    key = "exp1" if mesh else "L1_factor"
    groups = {}
    for x in res["seen"]:
        c = x["cfg"]
        m.near(np.array([c["exp1"] if mesh else c["L1_factor"]]), np.array([c["exp2"] if mesh else c["L2_factor"]]), "square domains", rtol=1e-9)
        groups.setdefault(round(c[key], 9), []).append(x)
    members = [v for v in job["members"] if v != job.get("fail")]
    if not m.equal(np.array(sorted(groups)), np.array(sorted(round(float(v), 9) for v in members)), "members of the study that were generated"):
        return
    want = np.array([stats(groups[k]) for k in sorted(groups)])
    L = groups[min(groups)][0]["cfg"]["L_2d"]
    x = np.array(sorted(groups)) * (1 if mesh else L / 1000)
    axes = [a for f in res["figures"] for a in f]
    for word, cols in (("Norm", (0, 1)), ("Variance", (2, 3))):
        ax = [a for a in axes if word.lower() in a["title"].lower()]
        if not m.true(len(ax) == 1, f"one panel of the {word.lower()}"):
            continue
        for lab, j in zip(("u1", "u2"), cols):
            ln = [q for q in ax[0]["lines"] if q[0] == lab]
            if m.true(len(ln) == 1, f"one curve of {lab}") and m.near(ln[0][1], x, f"abscissae of the {word.lower()}", rtol=1e-9):
                m.near(ln[0][2], want[:, j], f"{word.lower()} of each member", rtol=1e-7)
        if not mesh and word == "Variance":
            tgt = [q for q in ax[0]["lines"] if "target" in q[0].lower()]
            if m.true(len(tgt) == 1, "target variance is drawn"):
                m.near(tgt[0][2], np.full(len(tgt[0][2]), groups[min(groups)][0]["cfg"]["sigma2"]), "target variance", rtol=1e-9)


def printed(text, label):
    """The number printed after a label."""
    hit = re.findall(re.escape(label) + r"\s*:?\s*(" + NUM + ")", text)
    return [float(h) for h in hit]


def capture(fn, *a, **k):
    import contextlib
    import io

    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = fn(*a, **k)
    return res, out.getvalue()


def small_config(r):
    c = work.lf_config(r)
    c["sigma2"] = float(loguniform(r, 0.5, 50))
    return c


def check(m):
    from drdmannturb.fluctuation_generation.low_frequency import large_plot
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    import matplotlib.pyplot as plt

    # ---------------------------------------------------------------- studies over mesh and domain sizes
    jobs = []
    for i in range(m.n(7, 24)):
        name = f"sizes/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        if i % 2 == 0:
            low = int(r.integers(2, 5))
            members = list(range(low, low + int(r.integers(2, 5))))
            job = dict(study="mesh", args=dict(low=low, high=members[-1]))
            if i == 4:
                members, job = list(range(4, 13)), dict(study="mesh", args={}, standin=True)
        else:
            pool = [5, 6, 7.5, 9, 10.25, 12, 16, 30]
            members = [float(v) for v in r.choice(pool, int(r.integers(1, 5)), replace=False)]
            if i == 1:
                members.insert(0, float(r.choice([2.0, 3.0, 4.0])))
            job = dict(study="domain", args=dict(factors=members))
            if i == 5:
                members, job = [float(v) for v in range(1, 17)], dict(study="domain", args={}, standin=True)
        job["members"] = members
        job["delay"] = {str(float(v)): float(r.uniform(0, 0.12)) for v in members[: 1 + len(members) // 2]}
        if len(members) > 2 and i % 3 == 2:
            job["fail"] = members[int(r.integers(0, len(members)))]
        jobs.append((name, job))
    if jobs:
        folder = os.path.abspath(work.scratch("sizes"))
        env = dict(os.environ, PYTHONPATH=os.environ.get("VERIF_REPO", "/repo"), PYTHONHASHSEED="0")
        p = None
        try:
            p = subprocess.run(
                [sys.executable, os.path.join(VERIF, "checks", "c23.py"), json.dumps([j for _, j in jobs])],
                cwd=folder, env=env, capture_output=True, text=True, timeout=m.n(300, 900),
            )  # fmt: skip
            with open(os.path.join(folder, "out.pkl"), "rb") as f:
                results = pickle.load(f)
        except (subprocess.TimeoutExpired, FileNotFoundError) as e:
            results = None
            with m.case("sizes", jobs=[j for _, j in jobs]):
                m.violate(f"the studies did not finish: {type(e).__name__}", p and p.stderr[-1500:])
        for (name, job), res in zip(jobs, results or []):
            with m.case(name, **job):
                judge_sizes(m, job, res)

    # ---------------------------------------------------------------- grid and domain sizes together
    def fields(r, scale=1.0):
        return lambda c: tuple(scale * r.normal(r.normal(), r.uniform(0.2, 2), (7, 5)) for _ in range(2))

    for i in range(m.n(2, 4)):
        name = f"grid/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        base, n = small_config(r), int(r.integers(1, 4))
        with m.case(name, n=n, **base):
            given = dict(base)
            plt.close("all")
            with Record(LowFreqGenerator, fields(r, 0.02 if i % 2 else 1.0)) as rec:
                _, out = capture(large_plot.length_AND_grid_size_study, given, do_plot=True, num_realizations=n)
            m.true(given == base, "the configuration is not altered")
            groups = {}
            for x in rec.seen:
                c = x["cfg"]
                groups.setdefault((round(c["exp1"]), round(c["L1_factor"], 6), round(c["exp2"]), round(c["L2_factor"], 6)), []).append(x)
                m.near(np.array([c[k] for k in ("sigma2", "L_2d", "psi", "z_i")]), np.array([base[k] for k in ("sigma2", "L_2d", "psi", "z_i")]), "physical parameters of the study", rtol=1e-12)
            m.true(all(k[0] == k[2] and k[1] == k[3] for k in groups), "square grids")
            exps, facs = sorted({k[0] for k in groups}), sorted({k[1] for k in groups})
            m.true(len(groups) == len(exps) * len(facs) and exps == [7, 8, 9, 10, 11] and facs == list(range(2, 21, 2)), "every combination is generated")
            if not m.true(all(len(g) == n for g in groups.values()), "the requested number of realisations"):
                continue
            var = np.array([[[np.mean([x[u].var() for x in groups[e, f, e, f]]) for f in facs] for e in exps] for u in ("u1", "u2")])
            figs = drawn(plt)
            for title, want in (("u1", var[0]), ("u2", var[1]), ("total", var.sum(0))):
                ax = [a for f in figs for a in f if a["images"] and title in a["title"].lower()]
                if not m.true(len(ax) == 1 and len(ax[0]["images"]) == 1, f"one map of the variance ({title})"):
                    continue
                img, origin, ext, clim = ax[0]["images"][0]
                # entries under their own tick labels, rows from the top or from the bottom
                cols = [float(t) for t in ax[0]["xticks"]]
                rows = [float(re.search(r"2\^(\d+)", t).group(1)) for t in ax[0]["yticks"]]
                m.equal(np.array(cols), np.array(facs, float), "domain factors along the map")
                m.equal(np.array(rows), np.array(exps, float), "grid sizes along the map")
                m.near(np.asarray(img, float), want, f"variance of every combination ({title})", rtol=1e-7)
                m.near(np.array(clim), np.array([0, 1.5 * base["sigma2"]]), "colour range", rtol=1e-9)
                for (cx, cy), t in ax[0]["texts"]:
                    w = want[int(cy), int(cx)]
                    m.near(np.array(float(t)), np.array(w), "number written on the map", atol=6e-4 if "e" not in t else 0, rtol=6e-3 if "e" in t else 1e-9)
                m.true(len(ax[0]["texts"]) == want.size, "every entry is written on the map")
            for lab, want in (("Avg u1 variance", var[0]), ("Avg u2 variance", var[1]), ("Avg Total variance", var.sum(0))):
                m.near(np.array(printed(out, lab)), want.ravel(), f"printed {lab}", atol=1e-6)
            plt.close("all")
    if not m.skip("grid/quiet"):
        r = m.rng("grid/quiet")
        with m.case("grid/quiet"):
            plt.close("all")
            with Record(LowFreqGenerator, fields(r)) as rec:
                capture(large_plot.length_AND_grid_size_study, small_config(r), num_realizations=1)
            m.true(not plt.get_fignums(), "nothing is drawn unless requested")
            m.true(len(rec.seen) == 50, "every combination is generated")

    # ---------------------------------------------------------------- rectangular domains
    pairs = [(16, 8), (16, 4), (8, 4), (8, 2), (4, 2), (2, 4), (2, 8), (4, 8), (4, 16), (8, 16)]
    sizes = [(11, 10), (11, 9), (11, 10), (12, 10), (11, 10), (10, 11), (10, 12), (10, 11), (10, 12), (10, 11)]
    for i in range(m.n(2, 4)):
        name = f"rectangles/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        base, n = small_config(r), int(r.integers(1, 6))
        with m.case(name, n=n, **base):
            given = dict(base)
            with Record(LowFreqGenerator, fields(r)) as rec:
                _, out = capture(large_plot.rectangular_domain_study, given, num_realizations=n, do_plot=bool(i % 2))
            m.true(given == base, "the configuration is not altered")
            if not m.true(len(rec.seen) == n * len(pairs), "the requested number of realisations of every domain"):
                continue
            blocks = out.split("L1_L2_factor")[1:]
            if not m.true(len(blocks) == len(pairs), "one report per domain"):
                continue
            for j, (b, pr, sz) in enumerate(zip(blocks, pairs, sizes)):
                seen = rec.seen[j * n : (j + 1) * n]
                for x in seen:
                    c = x["cfg"]
                    m.near(np.array([c[k] for k in ("L1_factor", "L2_factor", "exp1", "exp2")]), np.array([*pr, *sz], float), "domain and grid of the report", rtol=1e-9)
                    m.near(np.array([c[k] for k in ("sigma2", "L_2d", "psi", "z_i")]), np.array([base[k] for k in ("sigma2", "L_2d", "psi", "z_i")]), "physical parameters of the study", rtol=1e-12)
                m.true(str(pr) in b and str(sz) in b, "the report names its domain")
                v = np.mean([[x["u1"].var(), x["u2"].var()] for x in seen], 0)
                w = np.mean([[x["full"][0].var(), x["full"][1].var()] for x in seen], 0)
                for lab, want in (("Avg var u1", v[0]), ("Avg var u2", v[1]), ("Avg Total var", v.sum()), ("Avg Full u1 var", w[0]), ("Avg Full u2 var", w[1]), ("Avg Full Total var", w.sum()), ("Target sigma2", base["sigma2"])):
                    m.near(np.array(printed(b, lab)), np.array([want]), f"printed {lab}", rtol=1e-6)
            plt.close("all")

    # ---------------------------------------------------------------- anisotropy angles
    for i in range(m.n(8, 60)):
        name = f"angles/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        base, n = small_config(r), int(r.integers(1, 6))
        angles = [float(a) for a in r.choice([5, 20, 30.5, 43, 45, 60, 88], 1 if i == 0 else int(r.integers(1, 5)), replace=False)]
        if i in (1, 2) or r.random() < 0.2:  # angles close to each other
            a = float(r.uniform(3, 80))
            angles = [a, a + float(r.choice([0.04, 0.004, 0.4])), *angles[:1]]
        elif r.random() < 0.2:
            angles = [int(a) for a in r.choice(np.arange(1, 90), 2, replace=False)]
        plot = bool(i % 3 != 2)
        with m.case(name, n=n, angles=angles, plot=plot, **base):
            given, deg = dict(base), list(angles)
            plt.close("all")
            with Record(LowFreqGenerator) as rec:
                res, out = capture(large_plot.anisotropy_study, given, deg, num_realizations=n, do_plot=plot)
            m.true(given == base and deg == angles, "configuration and angles are not altered")
            if not m.true(sorted(res) == sorted(angles), "one result per angle"):
                continue
            by = {a: [x for x in rec.seen if abs(x["cfg"]["psi"] - np.deg2rad(a)) < 1e-12] for a in angles}
            m.true(sum(map(len, by.values())) == len(rec.seen), "only the requested angles are generated")
            for x in rec.seen:
                c = x["cfg"]
                m.near(np.array([c[k] for k in base if k != "psi"]), np.array([float(base[k]) for k in base if k != "psi"]), "parameters of the study", rtol=1e-9)
            figs, shown = drawn(plt), {}
            if plot:
                ax = [a for f in figs for a in f if a["images"]]
                if not m.true(len(figs) == 1 and len(ax) == 2 * len(angles), "two pictures per angle"):
                    continue
                tops = []
                dx, dy = by[angles[0]][0]["dx"] / 1000, by[angles[0]][0]["dy"] / 1000
                for j, a in enumerate(angles):
                    pic = [np.asarray(q["images"][0][0], float)[:: -1 if q["images"][0][1] == "upper" else 1] for q in ax[2 * j : 2 * j + 2]]
                    hit = [k for k, x in enumerate(by[a]) if all(p.shape == x[u].T.shape and np.allclose(p, x[u].T, rtol=1e-9, atol=0) for p, u in zip(pic, ("u1", "u2")))]
                    if not m.true(len(hit) >= 1, "the pictures of an angle show u1 and u2 of one field generated for it"):
                        continue
                    shown[a] = hit[0]
                    m.true(f"{a}" in ax[2 * j]["ylabel"], "the row names its angle")
                    tops.append(max(abs(p).max() for p in pic))
                    n1, n2 = by[a][0]["u1"].shape
                    for q in ax[2 * j : 2 * j + 2]:
                        m.near(np.array(q["images"][0][2]), np.array([-dx / 2, (n1 - 0.5) * dx, -dy / 2, (n2 - 0.5) * dy]), "extent of the picture in km", rtol=1e-6)
                m.true("u1" in ax[0]["title"] and "u2" in ax[1]["title"], "columns are named")
                if len(tops) == len(angles):
                    for q in ax:
                        m.near(np.array(q["images"][0][3]), max(tops) * np.array([-1.0, 1.0]), "common symmetric colour range", rtol=1e-9)
            else:
                m.true(not figs, "nothing is drawn unless requested")
            for j, a in enumerate(angles):
                v = np.array([[x["u1"].var(), x["u2"].var()] for x in by[a]])
                if not m.true(len(v) in (n, n + 1), "the requested number of realisations"):
                    continue
                cand = [v] if len(v) == n else [np.delete(v, k, 0) for k in ([shown[a]] if a in shown else range(len(v)))]
                got = np.array([res[a][k] for k in ("avg_u1_var", "avg_u2_var", "avg_total_var")])
                means = np.array([[*c.mean(0), c.mean(0).sum()] for c in cand])
                best = means[np.argmin(np.abs(means / got - 1).max(1))]
                m.near(got, best, "average variances of an angle", rtol=1e-9)
                for lab, w in zip(("Average var(u1)", "Average var(u2)", "Average var(Total)"), best):
                    p = printed(out, lab)
                    if m.true(len(p) == len(angles), "variances are printed for every angle"):
                        m.near(np.array(p[j]), np.array(w), f"printed {lab}", atol=1e-4)
            plt.close("all")

    # ---------------------------------------------------------------- spectra of one field
    def closed():
        """A stand-in for the theoretical spectra: cheap, different for every generator, component and wave number."""
        return lambda g, k1, *a, **k: tuple(g.sigma2 * g.L_2d / (j + 1 + (np.asarray(k1) * g.L_2d) ** 2) for j in (1, 2))

    for i in range(m.n(8, 50)):
        name = f"comparison/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        c = small_config(r)
        with m.case(name, **c):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g = LowFreqGenerator(dict(c), seed=int(r.integers(1 << 31)))
                g.generate()
                if i % 3 == 1:
                    g.generate()
            u = g.u1.copy(), g.u2.copy()
            plt.close("all")
            real = LowFreqGenerator.analytical_spectrum
            try:
                if i % 4:
                    LowFreqGenerator.analytical_spectrum = closed()
                _, out = capture(large_plot.plot_spectra_comparison, g)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    k, _ = estimate(u[0], c["L1_factor"] * c["L_2d"])
                    T = g.analytical_spectrum(k)
            finally:
                LowFreqGenerator.analytical_spectrum = real
            m.equal(g.u1, u[0], "the field is not modified")
            ax = [a for f in drawn(plt) for a in f]
            if not m.true(len(ax) == 2, "two panels"):
                continue
            for j, a in enumerate(ax):
                k, F = estimate(u[j], c["L1_factor"] * c["L_2d"])
                m.true(f"{j + 1}{j + 1}" in a["ylabel"], "the panel names its component")
                for word, y, tol in (("numerical", k * F, 1e-8), ("analytical", k * T[j], 1e-6)):
                    ln = [q for q in a["lines"] if word in q[0].lower()]
                    if m.true(len(ln) == 1, f"one {word} curve"):
                        m.near(ln[0][1], k * c["L_2d"], f"abscissae of the {word} curve", rtol=1e-9)
                        m.near(ln[0][2], y, f"{word} curve", rtol=tol, atol=1e-12 * np.max(np.abs(k * F)))
                if len(k) > 1:
                    dk = k[1] - k[0]
                    m.near(np.array(printed(out, f"Variance u{j + 1} (Actual)")), np.array([u[j].var()]), "printed variance of the field", atol=1e-4)
                    m.near(np.array(printed(out, f"Variance u{j + 1} (From F{j + 1}{j + 1}_num)")), np.array([dk * (2 * F.sum() - F[-1])]), "printed variance held by the spectrum", atol=1e-4)
            plt.close("all")

    # ---------------------------------------------------------------- averaged spectra of two generators
    for i in range(m.n(6, 40)):
        name = f"averaged/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        ca, cb, n = small_config(r), small_config(r), int(r.integers(1, 5))
        plot = bool(i % 3 != 2)
        if i % 3 == 1:  # as many points on another domain
            f = float(r.uniform(0.6, 1.6))
            cb = dict(ca, L1_factor=f * ca["L1_factor"], L2_factor=f * ca["L2_factor"], L_2d=float(loguniform(r, 300, 3e4)))
        with m.case(name, a=ca, b=cb, n=n, plot=plot):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ga, gb = LowFreqGenerator(dict(ca), seed=3), LowFreqGenerator(dict(cb), seed=4 + i)
                if i % 2:
                    ga.generate(), gb.generate()
            plt.close("all")
            real = LowFreqGenerator.analytical_spectrum
            LowFreqGenerator.analytical_spectrum = closed()
            try:
                with Record(LowFreqGenerator) as rec:
                    _, out = capture(large_plot.recreate_fig2, ga, gb, num_realizations=n, do_plot=plot)
            finally:
                LowFreqGenerator.analytical_spectrum = real
            mean, ks = {}, {}
            for w, g, c in (("a", ga, ca), ("b", gb, cb)):
                seen = [x for x in rec.seen if x["gen"] == id(g)]
                if not m.true(len(seen) == n, "the requested number of realisations"):
                    break
                L1 = c["L1_factor"] * c["L_2d"]
                ks[w] = estimate(seen[0]["u1"], L1)[0]
                mean[w] = [np.mean([estimate(x[u], L1)[1] for x in seen], 0) for u in ("u1", "u2")]
            if len(mean) < 2:
                continue
            spec = {(w, j): (ks[w] * c["L_2d"], ks[w] * mean[w][j]) for w, c in (("a", ca), ("b", cb)) for j in (0, 1)}
            form = {}
            for w, g in (("a", ga), ("b", gb)):
                for j in (0, 1):
                    form[w, j] = lambda x, g=g, j=j: x / g.L_2d * g.sigma2 * g.L_2d / (j + 2 + x**2)
            span = {"a": (0.1, 1e3), "b": (10**0.5, 10**4.5)}
            if plot:
                ax = [q for f in drawn(plt) for q in f]
                if m.true(len(ax) == 4, "four panels"):
                    for q, (w, j) in zip(ax, (("a", 0), ("a", 1), ("b", 0), ("b", 1))):
                        m.true(f"F_{{{j + 1}{j + 1}}}" in q["ylabel"], "the panel names its component")
                        ln = {k[0]: k for k in q["lines"]}
                        if not m.true("target" in ln and "numerical" in ln, "target and numerical curves"):
                            continue
                        m.near(ln["numerical"][1], spec[w, j][0], "abscissae of the numerical spectrum", rtol=1e-9)
                        m.near(ln["numerical"][2], spec[w, j][1], "averaged numerical spectrum", rtol=1e-8, atol=1e-12 * spec[w, j][1].max())
                        x = ln["target"][1]
                        m.near(np.array([x.min(), x.max()]), np.array(span[w]), "range of the target", rtol=1e-9)
                        m.near(ln["target"][2], form[w, j](x), "target spectrum", rtol=1e-8)
            else:
                m.true(not plt.get_fignums(), "nothing is drawn unless requested")
            # printed values: those of the curves at the abscissae printed with them
            for w, part in zip("ab", re.split(r"CASE \(b\)", out)):
                got = re.findall(rf"(Target|Numerical)\s*\(k1L=({NUM})\): k1F11=({NUM}), k1F22=({NUM})", part)
                near = re.findall(rf"near k1\*L_2d = ({NUM})", part)
                if m.true(len(got) == 2 * len(near) == 6, "three comparisons of target and numerical spectra"):
                    for q, (kind, x, y1, y2) in enumerate(got):
                        at = float(near[q // 2])
                        for j, y in ((0, y1), (1, y2)):
                            if kind == "Target":
                                f = form[w, j]
                                xs = np.geomspace(*span[w], 500)
                                idx = np.argmin(np.abs(xs - at))
                                m.near(np.array([float(x), float(y)]), np.array([xs[idx], f(xs[idx])]), "printed target", atol=np.array([6e-4, 6e-5]), rtol=1e-6)
                            else:
                                xs, ys = spec[w, j]
                                idx = np.argmin(np.abs(xs - at))
                                m.near(np.array([float(x), float(y)]), np.array([xs[idx], ys[idx]]), "printed numerical value", atol=np.array([6e-4, 6e-5]), rtol=1e-6)
                peaks = re.findall(rf"(Target|Numerical)\s*:\s*({NUM}) at k1L=({NUM})", part)
                if m.true(len(peaks) == 4, "peaks of both components"):
                    for q, (kind, y, x) in enumerate(peaks):
                        j = q // 2
                        xs = np.geomspace(*span[w], 500) if kind == "Target" else spec[w, j][0]
                        ys = form[w, j](xs) if kind == "Target" else spec[w, j][1]
                        m.near(np.array([float(y), float(x)]), np.array([ys.max(), xs[np.argmax(ys)]]), f"printed peak of the {kind.lower()} spectrum", atol=np.array([6e-5, 6e-4]), rtol=1e-6)
            plt.close("all")


if __name__ == "__main__":
    drive(json.loads(sys.argv[1]))
