"""Workload builders shared by the checks (random but reproducible inputs for the real package)."""

import contextlib
import io
import os

import numpy as np


def loguniform(r, lo, hi, size=None):
    return np.exp(r.uniform(np.log(lo), np.log(hi), size))


@contextlib.contextmanager
def default_dtype(name):
    import torch

    old = torch.get_default_dtype()
    torch.set_default_dtype(getattr(torch, name))
    try:
        yield
    finally:
        torch.set_default_dtype(old)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def scratch(name):
    """A fresh directory below the worker's own scratch directory (its cwd)."""
    i = 0
    while os.path.exists(p := os.path.abspath(f"{name}-{i}")):
        i += 1
    os.makedirs(p)
    return p


LIFETIMES = ("TAUNET", "MANN", "MANN_APPROX", "CONST", "TWOTHIRD")


def make_problem(
    lifetime="TAUNET",
    L=0.59,
    Gamma=3.9,
    sigma=3.2,
    ncomp=4,
    prob=None,
    loss=None,
    phys=None,
    nn=None,
    integ=None,
    **kw,
):
    import drdmannturb as d

    ip = dict(ops_num_points=12, coh_num_points=12)
    ip.update(integ or {})
    pp = dict(num_components=ncomp, eddy_lifetime=getattr(d.EddyLifetimeType, lifetime), nepochs=1)
    pp.update(prob or {})
    base = dict(logging_directory=scratch("tb"), output_directory=scratch("out"))
    base.update(kw)
    with quiet():
        return d.CalibrationProblem(
            nn_params=d.NNParameters(**(nn or {})),
            prob_params=d.ProblemParameters(**pp),
            loss_params=d.LossParameters(**(loss or {})),
            phys_params=d.PhysicalParameters(L=L, Gamma=Gamma, sigma=sigma, **(phys or {})),
            integration_params=d.IntegrationParameters(**ip),
            **base,
        )


def make_ops(lifetime, L, Gamma, sigma, integ=None, nn=None, **kw):
    import drdmannturb as d

    return d.OnePointSpectra(
        type_eddy_lifetime=getattr(d.EddyLifetimeType, lifetime),
        physical_params=d.PhysicalParameters(L=L, Gamma=Gamma, sigma=sigma),
        nn_parameters=d.NNParameters(**(nn or {})),
        integration_params=d.IntegrationParameters(**(integ or {})),
        **kw,
    )


def shake_network(ops, r, scale=0.5):
    """Give the network (if any) weights that matter: its own initialisation keeps them small."""
    import torch

    if hasattr(ops, "tauNet"):
        with torch.no_grad():
            for p in ops.tauNet.parameters():
                if p.ndim == 2:
                    p.copy_(torch.tensor(r.normal(0, scale, tuple(p.shape)), dtype=p.dtype))
                else:
                    p.copy_(torch.tensor(r.uniform(-0.6, 0.6), dtype=p.dtype))


def network_of(module):
    """(weights, nu) of a network lifetime, read through the generic module interface."""
    w = [p.detach().cpu().numpy().astype(float) for p in module.parameters() if p.ndim == 2]
    nu = [float(p.detach()) for p in module.parameters() if p.ndim == 0]
    return w, (nu[0] if nu else -1.0 / 3.0)


def ref_tau(lifetime, L, ops=None):
    """Reference dimensionless lifetime as a function of wave vectors (..., 3)."""
    from . import ref

    if lifetime == "TAUNET":
        w, nu = network_of(ops.tauNet)
        return lambda k: ref.taunet(np.asarray(k, float) * L, w, nu)

    def norm(k):
        return L * np.sqrt((np.asarray(k, float) ** 2).sum(-1))

    if lifetime == "MANN":
        return lambda k: ref.mann_tau(norm(k))
    if lifetime == "CONST":
        return lambda k: np.ones(np.shape(k)[:-1])
    if lifetime == "TWOTHIRD":
        return lambda k: norm(k) ** (-2 / 3)
    a, b = ref.mann_approx_coeffs()
    return lambda k: np.exp(a * np.log(norm(k)) + b)


LF_BASE = dict(sigma2=0.6, L_2d=15000.0, psi=np.deg2rad(43.0), z_i=500.0, L1_factor=2, L2_factor=1, exp1=6, exp2=5)


def lf_config(r, isotropic=True, big=False):
    """A random low-frequency configuration with a small computational grid."""
    L = float(loguniform(r, 200.0, 60000.0))
    e1 = int(r.integers(3, 8))
    e2 = int(r.integers(3, 7))
    f2 = float(loguniform(r, 0.3, 8.0))
    ratio = 2.0 ** (e1 - e2)
    f1 = f2 * ratio if isotropic else f2 * ratio * float(loguniform(r, 0.3, 3.0))
    # the computational grid covers at least 5 L_2d at the finer spacing: keep its size bounded
    d = min(f1 / 2**e1, f2 / 2**e2)
    n1, n2 = max(5, f1) / d, max(5, f2) / d
    cap = 6e6 if big else 4e5
    if n1 * n2 > cap:
        return lf_config(r, isotropic, big)
    return dict(
        sigma2=float(loguniform(r, 0.05, 5.0)),
        L_2d=L,
        psi=float(r.uniform(0.1, 1.47)),
        z_i=float(loguniform(r, 50.0, 2000.0)),
        L1_factor=f1,
        L2_factor=f2,
        exp1=e1,
        exp2=e2,
    )


def field_config(r, model=None, fat=False):
    """A random, small block-generation configuration: keyword arguments of the generator, all admissible."""
    levels = r.integers(1, 5 if not fat else 6, 3)
    L = float(loguniform(r, 0.5, 80.0))
    n = 2.0**levels + 1
    # spacing between L/4 and 3 L in each direction, so that buffers and margins stay small
    dims = n * L * loguniform(r, 0.25, 3.0, 3)
    gamma = float(loguniform(r, 0.2, 5.0))
    cfg = dict(
        friction_velocity=float(loguniform(r, 0.05, 5.0)),
        reference_height=float(loguniform(r, 1.0, 200.0)),
        grid_dimensions=np.array(dims),
        grid_levels=np.array(levels, dtype=int),
        model=model or str(r.choice(["Mann", "VK"])),
        length_scale=L,
        time_scale=gamma,
        energy_spectrum_scale=float(loguniform(r, 0.01, 10.0)),
        seed=int(r.integers(0, 2**31)),
        blend_num=int(r.choice([0, 1, 2, 3, 7, 10])),
    )
    # less usual but admissible: a long or a two-point axis, numbers given as integers
    z = r.random()
    if z < 0.06:
        axis = int(r.integers(3))
        spacing = dims[axis] / n[axis]
        levels[axis] = int(r.choice([0, 6, 7])) if axis == 0 else int(r.choice([0, 6]))
        levels[[a for a in range(3) if a != axis]] = np.minimum(levels[[a for a in range(3) if a != axis]], 2)
        cfg["grid_levels"] = np.array(levels, dtype=int)
        cfg["grid_dimensions"][axis] = spacing * (2.0 ** levels[axis] + 1)
    elif z < 0.14:
        for key in ("friction_velocity", "reference_height", "time_scale", "length_scale", "energy_spectrum_scale"):
            if r.random() < 0.6:
                cfg[key] = max(1, round(cfg[key]))
        n = 2 ** cfg["grid_levels"] + 1
        cfg["grid_dimensions"] = np.maximum(1, np.round(n * cfg["length_scale"] * loguniform(r, 0.3, 3.0, 3))).astype(int)
    elif z < 0.2:
        cfg["grid_levels"] = cfg["grid_levels"].astype(np.int32)
        cfg["grid_dimensions"] = cfg["grid_dimensions"].astype(np.float32)
    return cfg


def profile_args(r, kind=None):
    kind = kind or str(r.choice(["LOG", "PL"]))
    z0 = float(loguniform(r, 1e-3, 1.0))
    a = dict(zref=float(loguniform(r, 5.0, 200.0)), uref=float(loguniform(r, 0.5, 40.0)), z0=z0, windprofiletype=kind)
    if kind == "PL":
        a["plexp"] = float(r.uniform(0.05, 0.5)) if r.random() < 0.8 else float(r.choice([0.0, 0.7, 1e-3]))
    elif r.random() < 0.15:
        a["plexp"] = 0.2  # not used by the logarithmic profile
    return a


def ref_profile(z, a):
    from . import ref

    if a["windprofiletype"] == "LOG":
        return ref.log_profile(z, a["zref"], a["uref"], a["z0"])
    return ref.power_profile(z, a["zref"], a["uref"], a["plexp"])
