"""C09: a fitted model survives saving, loading and copying of its parameter vector."""

import io
import os
import pickle

import numpy as np

from checks.c06 import synthetic
from vf import work
from vf.work import loguniform

RULE = """A case is one problem (random lifetime, network, learnable spectrum and exponent, precision, freshly built or
calibrated) whose parameters are read, saved, loaded into another instance, or whose vector is changed afterwards; the
history of reads, writes, rejected writes and evaluations is random.  Oracle: bitwise equality of spectra and of the
parameter vector, and independence of the caller's arrays."""


def config(r, i):
    lifetime = work.LIFETIMES[i % 5]
    nn = dict(nlayers=int(r.integers(1, 4)), hidden_layer_size=int(r.integers(1, 9)))
    prob = dict(learn_nu=bool(r.random() < 0.5), use_learnable_spectrum=bool(r.random() < 0.5),
                p_exponent=float(r.uniform(3, 5)), q_exponent=float(r.uniform(2, 3.5)))
    scales = dict(L=float(loguniform(r, 0.2, 3)), Gamma=float(loguniform(r, 0.3, 5)), sigma=float(loguniform(r, 0.1, 10)))
    return lifetime, nn, prob, scales


def nparams(lifetime, nn, prob):
    n = 3 + (2 if prob["use_learnable_spectrum"] else 0)
    if lifetime == "TAUNET":
        h, k = nn["hidden_layer_size"], nn["nlayers"]
        n += 3 * h + (k - 1) * h * h + 3 * h + (1 if prob["learn_nu"] else 0)
    return n


def check(m):
    from pathlib import Path

    import torch
    from drdmannturb import CPU_Unpickler

    for i in range(m.n(12, 100)):
        name = f"unpickler/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        with m.case(name):
            t = {"a": torch.as_tensor(r.normal(0, 1, tuple(r.integers(0, 5, int(r.integers(0, 4)))))), "b": [torch.arange(int(r.integers(0, 9))), torch.nn.Parameter(torch.randn(3, dtype=torch.float64))],
                 "c": np.array(r.normal(0, 1, 4)), "d": ("x", 1.5, None), "e": torch.as_tensor(r.normal(0, 1, (4, 6)))[1:, ::2]}
            f = io.BytesIO()
            pickle.dump(t, f)
            f.seek(0)
            u = CPU_Unpickler(f).load()
            for x, y in ((t["a"], u["a"]), (t["b"][0], u["b"][0]), (t["b"][1], u["b"][1]), (t["e"], u["e"])):
                m.true(type(x) is type(y) and x.dtype == y.dtype and y.device.type == "cpu", "tensors keep their type and live on the CPU", trivial=True)
                m.equal(y.detach(), x.detach(), "tensor read back")
            m.equal(u["c"], t["c"], "array read back")
            m.true(u["d"] == t["d"], "other values are read back", trivial=True)

    for i in range(m.n(60, 500)):
        name = f"roundtrip/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime, nn, prob, scales = config(r, i)
        nc = int(r.choice([3, 4, 6]))
        dtype = "float64" if r.random() < 0.3 else "float32"
        fitted = bool(r.random() < 0.3)
        how = str(r.choice(["str", "path", "default-str", "default-path", "new-str", "nested-str", "slash-str", "relative-str", "relative-path", "dotted-str", "dot-str", "space-str", "again-str", "dots-str"]))
        with work.default_dtype(dtype), m.case(name, lifetime=lifetime, nn=nn, prob=prob, dtype=dtype, fitted=fitted, how=how):
            out = work.scratch("models")
            kw = {}
            if how.startswith("default"):
                kw["output_directory"] = out if how == "default-str" else Path(out)
            pb = work.make_problem(lifetime, **scales, ncomp=nc, nn=nn, prob=dict(prob, nepochs=1, wolfe_iter_count=2), integ=dict(ops_num_points=6), **kw)
            work.shake_network(pb.OPS, r, 0.4)
            k1 = torch.tensor(loguniform(r, 0.1, 20, 4), dtype=getattr(torch, dtype))
            if fitted:
                kk = torch.logspace(-1, 1, 5)
                with work.quiet():
                    pb.calibrate({"k1": kk, "ops": synthetic(kk)}, optimizer_class=torch.optim.Adam)
            v = np.array(pb.parameters).copy()
            with work.quiet():
                y = pb.eval(k1)
            target = {"str": out, "path": Path(out), "new-str": os.path.join(out, "new"), "nested-str": os.path.join(out, "a", "b"), "slash-str": out + "/",
                      "relative-str": os.path.relpath(out), "relative-path": Path(os.path.relpath(out)), "dotted-str": os.path.join(out, "fit.v1."),
                      "dot-str": "./" + os.path.relpath(out) + "/.", "space-str": os.path.join(out, " a fit "), "dots-str": os.path.join(out, "fit..2"), "again-str": out + "//x/../"}.get(how)
            if how == "again-str":
                os.makedirs(os.path.join(out, "x"))
            pb.save_model(target) if target is not None else pb.save_model()
            files = [os.path.join(a, f) for a, _, fs in os.walk(out) for f in fs]
            if not m.true(len(files) == 1 and files[0].endswith(".pkl"), f"exactly one model file is written where asked: {files}"):
                continue
            if target is not None:
                m.true(os.path.abspath(os.path.dirname(files[0])) == os.path.abspath(str(target)), f"model file lies in the directory given: {files[0]}")
            m.true(lifetime in os.path.basename(files[0]), "file name carries the lifetime type", trivial=True)
            with work.quiet():
                m.equal(pb.eval(k1), y, "saving does not change the model")
            with open(files[0], "rb") as f:
                nn2, prob2, loss2, phys2, v2 = CPU_Unpickler(f).load() if r.random() < 0.5 else pickle.load(f)
            m.equal(np.asarray(v2), v, "saved parameter vector")
            m.true(prob2 == pb.prob_params and loss2 == pb.loss_params, "saved problem and loss settings")
            m.true(nn2.nlayers == nn["nlayers"] and nn2.hidden_layer_size == nn["hidden_layer_size"], "saved network settings", trivial=True)
            m.true((phys2.L, phys2.Gamma, phys2.sigma) == (scales["L"], scales["Gamma"], scales["sigma"]), "saved physical settings", trivial=True)
            m.true(all(torch.equal(x, y) if torch.is_tensor(x) else x == y for x, y in ((getattr(phys2, q), getattr(pb.phys_params, q)) for q in pb.phys_params.__dict__)), "all physical settings are saved", trivial=True)
            torch.manual_seed(int(r.integers(1 << 30)))
            import drdmannturb as d

            with work.quiet():
                qb = d.CalibrationProblem(nn_params=nn2, prob_params=prob2, loss_params=loss2, phys_params=phys2,
                                          integration_params=d.IntegrationParameters(ops_num_points=6), logging_directory=work.scratch("tb"), output_directory=out)
                if r.random() < 0.5:
                    qb.eval(k1)
                qb.parameters = v2 if r.random() < 0.6 else torch.tensor(v2)
                y2 = qb.eval(k1)
            m.equal(np.asarray(qb.parameters), v, "restored parameter vector")
            m.near(y2, y, "restored model evaluates identically", rtol=1e-6 if dtype == "float32" else 1e-13)
            m.true(y2.dtype == y.dtype, "restored model keeps its precision", trivial=True)
            # saving again over an existing file
            with torch.no_grad():
                pb.OPS.logMagnitude += 0.5
            pb.save_model(target) if target is not None else pb.save_model()
            with open(files[0], "rb") as f:
                m.equal(np.asarray(pickle.load(f)[4]), np.asarray(pb.parameters), "saving again replaces the file")

    for i in range(m.n(15, 150)):  # the network on its own, copied in the usual ways
        name = f"copies/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        import copy

        from drdmannturb.nn_modules import TauNet

        learn, layers, width = bool(r.random() < 0.5), int(r.integers(1, 4)), int(r.integers(2, 8))
        how = ("deepcopy", "pickle", "torch-save", "state-dict")[i % 4]
        with m.case(name, how=how, learn=learn, layers=layers, width=width):
            def build():
                return TauNet(n_layers=layers, hidden_layer_sizes=width, learn_nu=learn)

            net = build()
            x = torch.as_tensor(r.normal(0, 3, (6, 3)), dtype=torch.float32)
            with torch.no_grad():
                for p in net.parameters():
                    p += torch.as_tensor(np.asarray(r.normal(0, 0.3, tuple(p.shape))), dtype=p.dtype)
                if r.random() < 0.5:
                    net(x)
                y = net(x).clone()
                if how == "deepcopy":
                    twin = copy.deepcopy(net)
                elif how == "pickle":
                    twin = pickle.loads(pickle.dumps(net))
                elif how == "torch-save":
                    f = io.BytesIO()
                    torch.save(net, f)
                    f.seek(0)
                    twin = torch.load(f, weights_only=False)
                else:
                    twin = build()
                    twin.load_state_dict(net.state_dict())
                m.equal(twin(x), y, "the copy evaluates as the original")
                p0, p1 = list(net.parameters()), list(twin.parameters())
                m.true(len(p0) == len(p1) and all(torch.equal(a, b) for a, b in zip(p0, p1)), "the copy has the parameters of the original")
                for p in p1:
                    p.mul_(-0.5).add_(0.3)
                m.equal(net(x), y, "changing the copy leaves the original as it was")
                m.true(not torch.equal(twin(x), y), "changing the copy's parameters changes the copy")

    for i in range(m.n(60, 500)):
        name = f"vector/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        torch.manual_seed(int(r.integers(1 << 30)))
        lifetime, nn, prob, scales = config(r, i)
        dtype = "float64" if r.random() < 0.4 else "float32"
        with work.default_dtype(dtype), m.case(name, lifetime=lifetime, nn=nn, prob=prob, dtype=dtype):
            pb = work.make_problem(lifetime, **scales, nn=nn, prob=prob, integ=dict(ops_num_points=5))
            k1 = torch.tensor(loguniform(r, 0.1, 20, 3), dtype=getattr(torch, dtype))
            v0 = np.array(pb.parameters).copy()
            n = nparams(lifetime, nn, prob)
            m.true(v0.shape == (n,), f"parameter vector has {v0.shape}, expected {n} entries")
            m.near(np.exp(v0[:3].astype(float)), np.array(list(scales.values())), "first three entries are the logarithms of the scales", rtol=1e-5)
            if prob["use_learnable_spectrum"]:
                m.near(v0[3:5], np.array([prob["p_exponent"], prob["q_exponent"]]), "entries four and five are the exponents", rtol=1e-6)
            if lifetime == "TAUNET":
                m.true(pb.num_trainable_params() == n - 3 - 2 * prob["use_learnable_spectrum"], f"{pb.num_trainable_params()} network parameters")
                th = v0[3 + 2 * prob["use_learnable_spectrum"]:].astype(float)
                m.near(pb.eval_trainable_norm().detach(), np.array(np.sqrt((th**2).sum())), "norm of the network parameters", rtol=1e-5)
                m.near(pb.eval_trainable_norm(1).detach(), np.array(np.abs(th).sum()), "1-norm of the network parameters", rtol=1e-5)
            else:
                m.rejects(pb.num_trainable_params, "number of network parameters without a network")
                m.rejects(pb.eval_trainable_norm, "norm of network parameters without a network")
            state = v0
            for step in range(int(r.integers(3, 9))):
                op = str(r.choice(["set-array", "set-tensor", "set-short", "set-long", "other-precision", "touch-read", "touch-input", "eval", "list", "reset-scales", "extreme"]))
                new = state + r.normal(0, 0.2, n).astype(v0.dtype)
                if op == "set-array":
                    pb.parameters = new
                    state = new.copy()
                elif op == "reset-scales":  # the initial scales again, everything else as it is
                    pb.log_dimensional_scales()
                    state = state.copy()
                    state[:3] = np.log(list(scales.values()))
                elif op == "extreme":  # any finite values are kept as they are
                    big = new * loguniform(r, 1e-12, 1e9, n).astype(v0.dtype)
                    big[int(r.integers(n))] = 0.0
                    pb.parameters = big
                    m.equal(np.asarray(pb.parameters), big, "parameter vector of extreme values")
                    pb.log_dimensional_scales()
                    m.equal(np.asarray(pb.parameters)[3:], big[3:], "resetting the scales leaves the rest of the vector alone")
                    pb.parameters = state
                elif op == "list":
                    pb.parameters = new.tolist()
                    state = new.copy()
                elif op == "other-precision":
                    give = new.astype("float32" if dtype == "float64" else "float64")
                    pb.parameters = give if r.random() < 0.5 else torch.tensor(give)
                    state = give.astype(v0.dtype)
                    m.true(all(p.dtype == getattr(torch, dtype) for p in pb.OPS.parameters()) and np.asarray(pb.parameters).dtype == v0.dtype, "a vector of another precision leaves the model in its own", trivial=True)
                elif op == "set-tensor":
                    pb.parameters = torch.tensor(new)
                    state = new.copy()
                elif op == "touch-input":
                    give = new.copy() if r.random() < 0.5 else torch.tensor(new)
                    pb.parameters = give
                    state = new.copy()
                    give[:] = 77.0
                elif op == "set-short":
                    m.rejects(lambda: setattr(pb, "parameters", new[:-1]), "a vector that is too short", ValueError)
                elif op == "set-long":
                    m.rejects(lambda: setattr(pb, "parameters", np.concatenate([new, new[:1]])), "a vector that is too long", ValueError)
                elif op == "touch-read":
                    p = pb.parameters
                    p[:] = -5.0
                else:
                    with work.quiet():
                        a, b = pb.eval(k1), pb.eval(k1)
                    m.equal(a, b, "evaluation is repeatable")
                if op == "reset-scales":  # logarithms taken in the model's own precision
                    m.near(np.asarray(pb.parameters), state, f"parameter vector after {op}", rtol=1e-6, atol=1e-7)
                    state = np.array(pb.parameters).copy()
                else:
                    m.equal(np.asarray(pb.parameters), state, f"parameter vector after {op}")
            # evaluation with the final vector equals that of a fresh problem given the same vector
            torch.manual_seed(int(r.integers(1 << 30)))
            qb = work.make_problem(lifetime, 1.0, 1.0, 1.0, nn=nn, prob=prob, integ=dict(ops_num_points=5))
            qb.parameters = state
            with work.quiet():
                m.near(qb.eval(k1), pb.eval(k1), "two problems with the same vector agree", rtol=1e-6 if dtype == "float32" else 1e-12)
            miss = Path(work.scratch("x")) / "missing"
            m.rejects(lambda: pb.save_model(miss), "a Path that is not a directory", ValueError)
            pb.output_directory = None
            m.rejects(lambda: pb.save_model(), "saving without any directory", ValueError)

    # noise on the initial parameters: of the magnitude asked for, the same for a seed, and never on the physical scales
    for i in range(m.n(15, 100)):
        name = f"noise/{i}"
        if m.skip(name):
            continue
        r = m.rng(name)
        lifetime, nn, prob, scales = config(r, i)
        nn["hidden_layer_size"] += 8
        mag, seed = float(loguniform(r, 1e-4, 1)), int(r.integers(1 << 30))
        with work.default_dtype("float64"), m.case(name, lifetime=lifetime, nn=nn, prob=prob, magnitude=mag):
            v = []
            for kw in ({}, dict(init_with_noise=True, noise_magnitude=mag), dict(init_with_noise=True, noise_magnitude=mag), dict(noise_magnitude=mag)):
                torch.manual_seed(seed)
                v.append(np.array(work.make_problem(lifetime, **scales, nn=nn, prob=dict(prob, **kw), integ=dict(ops_num_points=4)).parameters))
            m.near(np.exp(v[1][:3]), np.array(list(scales.values())), "the physical scales start where they were put", rtol=1e-9)
            m.equal(v[1], v[2], "the same seed gives the same noise")
            m.equal(v[0], v[3], "no noise unless asked for")
            if len(v[0]) > 3:
                e = (v[1] - v[0])[3:] / mag
                m.true(bool(np.all(e != 0)) and np.abs(e).max() < 7, "noise of the magnitude given on every other parameter", e.tolist()[:20])
            if len(v[0]) > 60:
                m.true(0.6 < e.std() < 1.5 and abs(e.mean()) < 0.6, "spread of the noise", [e.std(), e.mean()])
