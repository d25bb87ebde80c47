"""C05: eddy lifetimes and energy spectra have their documented values, symmetries and asymptotics."""

import numpy as np

from vf import ref, work
from vf.work import loguniform

RULE = """A case is one lifetime model (five types; random scales; network depth, width, activations and exponent) or one
energy spectrum, evaluated on wave vectors over eight decades with random signs and batch shapes; oracle: closed forms
in float64, the hypergeometric function through the incomplete beta function, the network by explicit matrix products."""
ASSUMPTIONS = ["k = 0 is excluded (the lifetimes diverge there)"]


def kvec(r, shape, L, lo=1e-4, hi=1e4):
    v = r.normal(size=shape + (3,))
    if r.random() < 0.4:
        v[..., int(r.integers(3))] = 0.0
    v /= np.sqrt((v**2).sum(-1, keepdims=True))
    return v * loguniform(r, lo, hi, shape)[..., None] / L


def check(m):
    import drdmannturb as d
    import torch

    for i in range(m.n(300, 2000)):
        name = f"lifetime/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        dtype = "float64" if r.random() < 0.5 else "float32"
        L, G = float(loguniform(r, 0.05, 50)), float(loguniform(r, 0.01, 20))
        shape = tuple(int(x) for x in r.integers(1, 5, int(r.integers(0, 4))))  # also a single wave vector
        k = kvec(r, shape, L)
        rt = 1e-7 if dtype == "float64" else 2e-4
        with work.default_dtype(dtype), m.case(name, lifetime=lifetime, dtype=dtype, L=L, Gamma=G, shape=shape):
            kw = dict(learn_nu=bool(r.random() < 0.5)) if lifetime == "TAUNET" else {}
            ops = work.make_ops(lifetime, L, G, 1.0, integ=dict(ops_num_points=3), nn=dict(nlayers=int(r.integers(1, 5)), hidden_layer_size=int(r.integers(1, 12))), **kw)
            if r.random() < 0.8:
                work.shake_network(ops, r, 0.5)
            tk = torch.tensor(k, dtype=getattr(torch, dtype))
            keep = tk.clone()
            with work.quiet(), torch.no_grad():
                t = ops.EddyLifetime(tk)
                flip = torch.tensor(r.choice([-1.0, 1.0], 3), dtype=tk.dtype)
                tf = ops.EddyLifetime(tk * flip)
            if shape == ():  # one value; the approximation gives it an axis of length one
                t, tf = t.reshape(()), tf.reshape(())
            m.true(torch.equal(tk, keep), "wave vectors are not modified", trivial=True)
            want = G * work.ref_tau(lifetime, L, ops)(tk.double().numpy())
            m.near(t, want, f"{lifetime} lifetime", rtol=rt)
            m.near(tf, t, "lifetime depends on the absolute value of each component only", rtol=rt)
            m.true(bool((t > 0).all()), "lifetime is positive")
            # changed scales take effect: Gamma is a pure factor, L rescales the argument
            if r.random() < 0.5:
                a, b = float(r.uniform(-1, 1)), float(r.uniform(-1, 1))
                with torch.no_grad(), work.quiet():
                    ops.logTimeScale += a
                    ops.logLengthScale += b
                    t2 = ops.EddyLifetime(tk).reshape(t.shape)
                L2 = L * np.exp(b)
                want2 = G * np.exp(a) * work.ref_tau(lifetime, L2, ops)(tk.double().numpy())
                m.near(t2, want2, f"{lifetime} lifetime after the scales changed", rtol=3 * rt)

    # one model, many batches: large ones, strided views, look-alike values, and scales or weights changed in between
    for i in range(m.n(30, 250)):
        name = f"sequence/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        L, G = float(loguniform(r, 0.05, 50)), float(loguniform(r, 0.01, 20))
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime, L=L, Gamma=G):
            kw = dict(learn_nu=bool(r.random() < 0.5)) if lifetime == "TAUNET" else {}
            nn = dict(nlayers=int(r.integers(1, 6)), hidden_layer_size=int(r.choice([1, 3, 10, 40])))
            ops = work.make_ops(lifetime, L, G, 1.0, integ=dict(ops_num_points=3), nn=nn, **kw)
            work.shake_network(ops, r, 0.3)
            k = kvec(r, (int(r.choice([3, 7, 40])), int(r.integers(2, 9))), L)
            for step in range(6):
                what = int(r.integers(8))
                if what == 0:  # large
                    k = kvec(r, (int(r.integers(3000, 9000)),), L)
                elif what == 1:  # same shape and first and last entries
                    k2 = kvec(r, k.shape[:-1], L)
                    k2.reshape(-1, 3)[0], k2.reshape(-1, 3)[-1] = k.reshape(-1, 3)[0], k.reshape(-1, 3)[-1]
                    k = k2
                elif what == 2:  # components exchanged
                    k = k[..., r.permutation(3)].copy()
                elif what == 3:
                    k = kvec(r, tuple(int(x) for x in r.integers(1, 5, 4)), L)
                elif what == 7:  # same shape, same smallest and largest vector, others in between
                    flat = k.reshape(-1, 3)
                    q = np.sqrt((flat**2).sum(-1))
                    k2 = kvec(r, (len(q),), 1.0, q.min(), q.max())
                    for j in (int(q.argmin()), int(q.argmax())):
                        k2[j] = flat[j]
                    k = k2.reshape(k.shape)
                elif what == 4:
                    work.shake_network(ops, r, 0.3)
                elif what == 5:
                    with torch.no_grad():
                        ops.logTimeScale += float(r.uniform(-0.5, 0.5))
                        ops.logLengthScale += float(r.uniform(-0.5, 0.5))
                else:  # scales replaced by another initialisation
                    L, G = float(loguniform(r, 0.05, 50)), float(loguniform(r, 0.01, 20))
                    with torch.no_grad():
                        ops.logTimeScale.fill_(float(np.log(G)))
                        ops.logLengthScale.fill_(float(np.log(L)))
                L, G = (float(x) for x in (ops.logLengthScale.detach().exp(), ops.logTimeScale.detach().exp()))
                tk = torch.tensor(k)
                if r.random() < 0.4 and k.ndim == 3:  # a non-contiguous view of the same values
                    tk = torch.tensor(np.ascontiguousarray(np.moveaxis(k, 0, 1))).transpose(0, 1)
                with work.quiet(), torch.no_grad():
                    t = ops.EddyLifetime(tk)
                if m.true(tuple(t.shape) == k.shape[:-1], f"lifetime of {k.shape} vectors has shape {tuple(t.shape)}", trivial=True):
                    m.near(t, G * work.ref_tau(lifetime, L, ops)(k), f"{lifetime} lifetime in a sequence of evaluations", rtol=1e-7)

    # without wave vectors: those of the last evaluation of the spectra, with the scales and weights of now
    for i in range(m.n(10, 80)):
        name = f"current/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        L, G = float(loguniform(r, 0.05, 50)), float(loguniform(r, 0.01, 20))
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime, L=L, Gamma=G):
            lo, hi, np_ = -2, 2, int(r.integers(2, 6))
            ops = work.make_ops(lifetime, L, G, 1.0, integ=dict(ops_log_min=lo, ops_log_max=hi, ops_num_points=np_))
            work.shake_network(ops, r, 0.3)
            g = ref.signed_log_grid(lo, hi, np_)
            k1 = loguniform(r, 0.01, 10, int(r.integers(1, 5)))
            K = np.stack(np.meshgrid(k1, g, g, indexing="ij"), -1)
            with work.quiet(), torch.no_grad():
                ops(torch.tensor(k1))
                for _ in range(3):
                    a, b = r.uniform(-0.5, 0.5, 2)
                    ops.logTimeScale += float(a)
                    ops.logLengthScale += float(b)
                    L, G = L * np.exp(b), G * np.exp(a)
                    work.shake_network(ops, r, 0.3)
                    m.near(ops.EddyLifetime(), G * work.ref_tau(lifetime, L, ops)(K), f"{lifetime} lifetime of the last evaluation's wave vectors", rtol=1e-7)

    # batches of the size of a fit or of a field
    for i in range(m.n(5, 20)):
        name = f"large/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime = work.LIFETIMES[i % 5]
        L, G = float(loguniform(r, 0.05, 50)), float(loguniform(r, 0.01, 20))
        shape = (int(r.integers(150000, 200000)),) if r.random() < 0.5 else tuple(int(x) for x in r.integers(50, 65, 3))
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime, L=L, Gamma=G, shape=shape):
            ops = work.make_ops(lifetime, L, G, 1.0, integ=dict(ops_num_points=3))
            work.shake_network(ops, r, 0.3)
            k = kvec(r, shape, L, 1e-5, 1e5)
            with work.quiet(), torch.no_grad():
                t = ops.EddyLifetime(torch.tensor(k))
            m.near(t, G * work.ref_tau(lifetime, L, ops)(k), f"{lifetime} lifetime of a large batch", rtol=1e-7)

    acts = {"relu": (torch.nn.ReLU, lambda x: np.maximum(x, 0)), "tanh": (torch.nn.Tanh, np.tanh),
            "sigmoid": (torch.nn.Sigmoid, lambda x: 1 / (1 + np.exp(-x)))}
    for i in range(m.n(120, 800)):
        name = f"network/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        nl = int(r.integers(1, 5))
        sizes = [int(x) for x in r.integers(1, 9, nl)] if r.random() < 0.6 else int(r.integers(1, 12))
        mode = str(r.choice(["none", "module", "list"]))
        names = [str(r.choice(list(acts))) for _ in range(nl)]
        if mode == "none":
            names, arg = ["relu"] * nl, None
        elif mode == "module":
            names = [names[0]] * nl
            arg = acts[names[0]][0]()
        else:
            arg = [acts[n][0]() for n in names]
        learn, nu0 = bool(r.random() < 0.5), float(r.uniform(-0.6, 0.6) if r.random() < 0.7 else r.uniform(-3, 3))
        with work.default_dtype("float64"), m.case(name, layers=nl, sizes=sizes, activations=names, nu=nu0, learn_nu=learn):
            net = d.TauNet(n_layers=nl, hidden_layer_sizes=sizes, activations=arg, learn_nu=learn, nu_init=nu0)
            w, nu = work.network_of(net)
            nu = nu if learn else nu0
            m.near(np.array(nu), np.array(nu0), "initial exponent", atol=1e-6)
            want_shapes = [3] + ([sizes] * nl if isinstance(sizes, int) else list(sizes)) + [3]
            if not m.true([x.shape for x in w] == [(b, a) for a, b in zip(want_shapes, want_shapes[1:])], "layer widths are those requested"):
                continue
            # weights that matter
            with torch.no_grad():
                for p in net.parameters():
                    if p.ndim == 2:
                        p.copy_(torch.tensor(r.normal(0, 0.6, tuple(p.shape))))
            w, _ = work.network_of(net)
            k = kvec(r, (int(r.integers(1, 9)),), 1.0, 1e-3, 1e3)
            got = net(torch.tensor(k))
            m.near(got, ref.taunet(k, w, nu, [acts[n][1] for n in names]), "network lifetime formula", rtol=1e-9)

    for i in range(m.n(40, 200)):
        name = f"mann/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        x = loguniform(r, 1e-5 if i % 3 else 1e-9, 1e5 if i % 3 else 1e8, (int(r.integers(1, 4)), int(r.integers(1, 9))) if i else (int(r.integers(300, 500)), 401))
        with m.case(name, kind="closed-form functions"):
            if x.size > 3:  # same shape, range and entries as the ones that follow
                m.near(d.MannEddyLifetime(torch.tensor(np.sort(x, None).reshape(x.shape))), ref.mann_tau(np.sort(x, None).reshape(x.shape)), "Mann lifetime in another order", rtol=2e-4)
            m.near(d.MannEddyLifetime(x), ref.mann_tau(x), "Mann lifetime (array)", rtol=1e-9)
            t = torch.tensor(x)
            with work.default_dtype("float64"):
                y = d.MannEddyLifetime(t)
                m.true(torch.is_tensor(y), "tensor in, tensor out", trivial=True)
                m.near(y, ref.mann_tau(x), "Mann lifetime (tensor)", rtol=1e-9)
            m.near(d.VKEnergySpectrum(t), ref.e_vk(x), "von Karman energy spectrum", rtol=1e-9)
            from drdmannturb.common import Learnable_EnergySpectrum, VKLike_EnergySpectrum

            m.near(VKLike_EnergySpectrum(t), ref.e_vk(x), "von Karman-like energy spectrum", rtol=1e-9)
            p, q = (float(r.uniform(0.5, 6)), float(r.uniform(0.5, 5))) if i % 3 else (float(r.uniform(-2, 9)), float(r.uniform(-1, 9)))
            m.near(Learnable_EnergySpectrum(t, torch.tensor(p, dtype=t.dtype), torch.tensor(q, dtype=t.dtype)), ref.e_pq(x, p, q), "learnable energy spectrum", rtol=1e-9)
            a, b = float(r.uniform(-2, 2)), float(r.uniform(-2, 2))
            m.near(d.Mann_linear_exponential_approx(t, torch.tensor(a, dtype=t.dtype), torch.tensor(b, dtype=t.dtype)), np.exp(a * np.log(x) + b), "log-linear surrogate", rtol=1e-9)
            nu = float(r.uniform(-1, 1) if i % 3 else r.uniform(-3, 3))
            s = r.choice([-1.0, 1.0], x.shape)
            with work.default_dtype("float64"):
                m.near(d.Rational(learn_nu=bool(r.random() < 0.5), nu_init=nu)(t * torch.tensor(s)), x ** (nu - 2 / 3) / (1 + x * x) ** (nu / 2), "rational kernel", rtol=1e-9)
    # the surrogate stays within its fit error of the true lifetime
    if not m.skip("surrogate"):
        with m.case("surrogate", kind="accuracy of the log-linear approximation"):
            ops = work.make_ops("MANN_APPROX", 1.0, 1.0, 1.0, integ=dict(ops_num_points=3))
            x = np.logspace(-3, 3, 40)
            k = torch.tensor(np.stack([x, 0 * x, 0 * x], -1), dtype=torch.get_default_dtype())
            with work.quiet(), torch.no_grad():
                t = ops.EddyLifetime(k).numpy()
            m.near(np.log(t), np.log(ref.mann_tau(x)), "surrogate is close to the Mann lifetime", atol=1.0)
