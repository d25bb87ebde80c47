"""C17: synthetic spectra are the published formulas; measured coherence keeps its place whatever the order of the file."""

import os

import numpy as np

from checks.c06 import coherence_file
from vf import ref, work
from vf.work import loguniform

RULE = """A case is one call of a data generator (wave numbers over eight decades, in any order and precision) or one
coherence file (rows in any order, gaps, gaps in the index numbers, repeated lines, one to thirty separations, comment lines) followed by
another file.  Oracles: the Kaimal and von Karman formulas in float64; the table the file was written from."""
ASSUMPTIONS = ["generators: 2e-5 in single precision, 1e-11 in double precision"]


def check(m):
    import torch

    import drdmannturb as d

    for i in range(m.n(120, 1000)):
        name = f"generate/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        kind = ("kaimal", "vk")[i % 2]
        dtype = ("float32", "float64")[int(r.integers(2))]
        # the precision of the data is that of the wave numbers, whatever the default precision is
        default = dtype if r.random() < 0.5 else ("float32", "float64")[int(r.integers(2))]
        with work.default_dtype(default), m.case(name, kind=kind, dtype=dtype, default=default):
            k = loguniform(r, 1e-5 if i % 3 else 1e-9, 1e3, int(r.choice([1, 2, 20, 60])))
            if r.random() < 0.5:
                k.sort()
            t = torch.tensor(k, dtype=getattr(torch, dtype))
            whole = r.random() < 0.1
            if whole:
                t = torch.tensor(r.integers(1, 200, len(k)))
            keep = t.clone()
            k = t.double().numpy()
            if kind == "kaimal":
                z, u = float(loguniform(r, 0.5, 300)), float(loguniform(r, 0.05, 20))
                call = lambda t: d.generate_kaimal_spectra(t, zref=z, ustar=u)  # noqa: E731
                want = ref.kaimal(k, z, u)
            else:
                L, C = float(loguniform(r, *((0.05, 100) if i % 4 == 1 else (1e-5, 1e6)))), float(loguniform(r, 0.05, 20))
                call = lambda t: d.generate_von_karman_spectra(t, L=L, C=C)  # noqa: E731
                want = ref.von_karman(k, L, C)
                if r.random() < 0.2:
                    call = d.generate_von_karman_spectra
                    want = ref.von_karman(k, 0.59, 3.2)
            out = call(t)
            m.true(torch.equal(t, keep), "input is not modified", trivial=True)
            m.equal(out["k1"], keep, "wave numbers of the data set")
            if whole:
                m.true(out["ops"].dtype.is_floating_point, "data at integer wave numbers are real numbers")
                if not out["ops"].dtype.is_floating_point:
                    continue
                dtype = str(out["ops"].dtype)[6:]
            else:
                m.true(out["ops"].dtype == t.dtype, f"precision of the data is that of the wave numbers, got {out['ops'].dtype}", trivial=True)
            m.near(out["ops"], want, f"{kind} spectra", rtol=2e-5 if dtype == "float32" else 1e-11)
            perm = torch.tensor(r.permutation(len(k)))
            m.near(call(t[perm])["ops"], as64(out["ops"])[perm.numpy()], "each wave number on its own", rtol=2e-5)
            v = as64(out["ops"])
            m.true(np.all(v[:, [0, 1, 2], [0, 1, 2]] > 0), "autospectra are positive")

    # coherence files
    for i in range(m.n(60, 500)):
        name = f"coherence/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        pb = work.make_problem("CONST", ncomp=3, integ=dict(ops_num_points=4, coh_num_points=4))
        with m.case(name):
            for step in range(2):
                ns, nf = int(r.integers(1, 31)), int(r.integers(1, 20))
                seps = np.sort(loguniform(r, 1e-2, 300, ns))
                f = np.sort(loguniform(r, 1e-4, 20, nf))
                if r.random() < 0.3:
                    f[0] = 0.0
                if r.random() < 0.3:
                    seps[0] = 0.0
                vals = r.uniform(0, 1, (3, ns, nf))
                drop = set()
                if ns > 1 and nf > 1 and r.random() < 0.5:
                    for _ in range(int(r.integers(1, 5))):
                        # every separation and every frequency keeps at least one line
                        c = (int(r.integers(ns)), int(r.integers(nf)))
                        trial = drop | {c}
                        if sum(a == c[0] for a, _ in trial) < nf and sum(b == c[1] for _, b in trial) < ns:
                            drop = trial
                # estimates may leave [0, 1], and one component may be missing at a point where the others are not
                if r.random() < 0.4:
                    vals[:, r.random((ns, nf)) < 0.2] *= 1.4
                    vals[int(r.integers(3)), int(r.integers(ns)), int(r.integers(nf))] = -float(r.uniform(0, 0.2))
                if r.random() < 0.4:
                    for _ in range(int(r.integers(1, 4))):
                        vals[int(r.integers(3)), int(r.integers(ns)), int(r.integers(nf))] = np.nan
                idx = None
                if r.random() < 0.5:
                    idx = (np.sort(r.choice(200, ns, replace=False)), np.sort(r.choice(200, nf, replace=False)))
                if r.random() < 0.3:  # numbered in an order of the file's own
                    r.shuffle(seps)
                    r.shuffle(f)
                if ns > 2 and r.random() < 0.1:  # two pairs of points at the same distance
                    seps[1] = seps[2]
                repeat = int(r.choice([0, len(drop), int(r.integers(1, 4))])) if r.random() < 0.3 else 0
                path = coherence_file(f, seps, r, vals, shuffle=bool(r.random() < 0.7), drop=drop, idx=idx, repeat=repeat)
                with work.quiet():
                    pb.load_coherence_data(path)
                want = vals.copy()
                for a, b in drop:
                    want[:, a, b] = np.nan
                for c, nm in enumerate("uvw"):
                    m.near(getattr(pb, f"coherence_{nm}"), want[c], f"coherence of {nm} at its separation and frequency", rtol=1e-9, nan_ok=True)
                m.near(pb.coherence_spatial_seps, seps, "separations", rtol=1e-9)
                m.near(pb.coherence_frequencies, f, "frequencies", rtol=1e-9)
                m.true(tuple(pb.coherence_shape) == (ns, nf), "shape of the table")
                sel = np.asarray(pb.coherence_plot_separations)
                m.true(len(sel) == 4 and np.isclose(sel[0], seps[0]) and np.isclose(sel[-1], seps[-1]), "chosen separations span the table")

    # spectra CSV loader
    for i in range(m.n(16, 60)):
        name = f"csv/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        ct = (3, 4, 6)[i % 3]
        cols = ["uu", "vv", "ww", "uw", "vw", "uv"]
        need = {3: 3, 4: 4, 6: 6}[ct]
        with m.case(name, components=ct):
            base = work.scratch("csv")
            n = int(r.integers(2, 10))
            tab = r.uniform(0.1, 1, (n, 7))

            def write(names, base=base, tab=tab):
                p = os.path.join(base, f"ops-{len(os.listdir(base))}.csv")
                with open(p, "w") as h:
                    h.write(",".join(["f", *names]) + "\n")
                    for row in tab:
                        h.write(",".join(f"{v:.9g}" for v in row[: len(names) + 1]) + "\n")
                return p

            m.rejects(lambda: d.CustomDataLoader(os.path.join(base, "missing.csv"), ops_components_ct=ct), "a missing file", FileNotFoundError)
            lack = cols[int(r.integers(0, need))]
            m.rejects(lambda: d.CustomDataLoader(write([c for c in cols if c != lack]), ops_components_ct=ct), f"a table without {lack}", ValueError)
            try:
                ld = d.CustomDataLoader(write(cols[:need]), ops_components_ct=ct)
            except (AttributeError, NameError):
                m.known("custom-loader", "every complete table is refused")
            else:
                m.near(np.asarray(ld.ops_data_df["uu"].to_numpy()), tab[:, 1], "loaded table", rtol=1e-6)


def as64(t):
    return t.detach().double().numpy()
