"""Planted bugs: edits to /repo/drdmannturb, what they need to show, and a demonstration of each."""

CK = "fluctuation_generation/covariance_kernels.py"
NN = "fluctuation_generation/nn_covariance.py"
SM = "fluctuation_generation/sampling_methods.py"
GRF = "fluctuation_generation/gaussian_random_fields.py"
FF = "fluctuation_generation/fluctuation_field_generator.py"
LF = "fluctuation_generation/low_frequency/fluctuation_field_generator.py"
WP = "fluctuation_generation/wind_plot.py"
OPS = "spectra_fitting/one_point_spectra.py"
CAL = "spectra_fitting/calibration.py"
LOSS = "spectra_fitting/loss_functions.py"
DG = "spectra_fitting/data_generator.py"
COM = "common.py"
NM = "nn_modules.py"
PAR = "parameters.py"

PLANTS = []


def plant(id, property, needs, breaks, edits, demo):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


# ---------------------------------------------------------------------------------------------------- C01
plant(
    "c01-arctan-branch",
    "C01",
    "a wave vector whose shear-rotation angle exceeds a right angle (k^2 + k3 beta k1 < 0): strong shear, k1 and k3 of opposite sign",
    "the Mann kernel takes the principal branch of the arctangent, so its square is not the sheared spectral tensor there",
    [(CK, "C2 = k2 * kk0 / s ** (3 / 2) * np.arctan2(numerator, denominator)", "C2 = k2 * kk0 / s ** (3 / 2) * np.arctan(numerator / denominator)")],
    '''
from drdmannturb.fluctuation_generation import MannCovariance

L, G, E0 = 0.8, 3.9, 1.3
kern = MannCovariance(ndim=3, length_scale=L, E0=E0, Gamma=G)


def phi11(k1, k2, k3):
    """Integrate the shear distortion of one wave vector step by step and return Phi_11."""
    from scipy.special import hyp2f1
    from scipy.integrate import solve_ivp
    k = np.array([k1, k2, k3]); kk = k @ k
    beta = G * (kk * L**2) ** (-1 / 3) / np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -1 / (kk * L**2)))
    k0 = np.array([k1, k2, k3 + beta * k1])
    def rhs(t, z):
        q = np.array([k1, k2, k0[2] - t * k1]); z = z.reshape(3, 3)
        A = np.zeros((3, 3)); A[0, 2] = 1.0
        return (-(A @ z) + 2 * np.outer(q, q) / (q @ q) @ (A @ z)).ravel()
    Z = solve_ivp(rhs, (0, beta), np.eye(3).ravel(), rtol=1e-10, atol=1e-12).y[:, -1].reshape(3, 3)
    kk0 = k0 @ k0
    E = E0 * L ** (17 / 3) / (4 * np.pi) / (1 + L**2 * kk0) ** (17 / 6)
    iso = E * (np.eye(3) * kk0 - np.outer(k0, k0))
    return Z @ iso @ Z.T


worst = 0
for k in [(1.0, 1.0, 1.0), (0.3, 0.4, 1.0), (1.0, 0.3, -1.0), (0.7, -0.5, -0.6), (-0.5, 0.4, 0.5)]:
    f = [np.array([k[0]]), np.array([k[1]]), np.array([k[2]])]
    S = kern.precompute_Spectrum(f)[..., 0, 0, 0]
    got, want = (S @ S.conj().T).real, phi11(*k)
    worst = max(worst, np.abs(got - want).max() / np.abs(want).max())
check(worst < 1e-5, f"kernel squared is the sheared tensor (worst {worst:.2e})")
''',
)

plant(
    "c01-hyp-asymptote",
    "C01",
    "wave numbers with |k| L above 25, i.e. a fine grid or a large length scale",
    "the Mann kernel uses the leading asymptote of the eddy lifetime's hypergeometric factor for large arguments with the wrong "
    "exponent of the length scale, so the lifetime jumps there",
    [
        (
            CK,
            """            beta[np.where(kk == 0)] = 0
""",
            """            beta[np.where(kk == 0)] = 0

            # the hypergeometric factor tends to one and is slow to evaluate
            large = kk * self.L**2 > 625.0
            beta[large] = self.Gamma * (kk[large] * self.L) ** (-1 / 3)
""",
        ),
        (CK, "        SqrtSpectralTens = np.tile(np.zeros(Nd), (3, 3, 1, 1, 1))\n        tmpTens = np.tile(np.zeros(Nd), (3, 3, 1, 1, 1))", "        SqrtSpectralTens, tmpTens = (np.zeros((3, 3, *Nd)) for _ in range(2))"),
    ],
    '''
from drdmannturb.fluctuation_generation import MannCovariance

L, G, E0 = 30.0, 2.5, 1.0
kern = MannCovariance(ndim=3, length_scale=L, E0=E0, Gamma=G)
# the vertical component needs no shear solution: Phi_33 = E(k0) / (4 pi k^4) (k1^2 + k2^2)
from scipy.special import hyp2f1
worst = 0
for k in [(0.1, 0.2, 0.3), (0.5, 0.4, -0.2), (0.9, 0.1, 0.8), (2.0, 1.0, 1.5)]:
    S = kern.precompute_Spectrum([np.array([x]) for x in k])[..., 0, 0, 0]
    kk = sum(x * x for x in k)
    beta = G * (kk * L * L) ** (-1 / 3) / np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -1 / (kk * L * L)))
    kk0 = k[0] ** 2 + k[1] ** 2 + (k[2] + beta * k[0]) ** 2
    want = E0 * L ** (17 / 3) / (4 * np.pi) * kk0**2 / (1 + L * L * kk0) ** (17 / 6) / kk**2 * (k[0] ** 2 + k[1] ** 2)
    worst = max(worst, abs((S @ S.conj().T).real[2, 2] / want - 1))
check(worst < 1e-8, f"Phi_33 of the Mann kernel (worst {worst:.2e})")
''',
)

# ---------------------------------------------------------------------------------------------------- C02
plant(
    "c02-nn-single-beta",
    "C02",
    "a learned eddy lifetime whose shear displaces the wave vector by more than three times its vertical component's scale",
    "the neural-network kernel limits the displaced vertical wave number after the displaced magnitude was formed, so the isotropic factor and the shear matrix refer to different vectors",
    [
        (
            NN,
            """            tmpTens[0, 1, ...] = -const * k30
""",
            """            k30 = np.clip(k30, -20.0 / self.L, 20.0 / self.L)
            tmpTens[0, 1, ...] = -const * k30
""",
        ),
        (NN, "            k2 = k[1, ...]\n            k3 = k[2, ...]", "            k2, k3 = k[1, ...], k[2, ...]"),
    ],
    '''
from drdmannturb import PhysicalParameters, NNParameters, EddyLifetimeType
from drdmannturb.spectra_fitting import OnePointSpectra
from drdmannturb.fluctuation_generation import NNCovariance

torch.manual_seed(3)
L, G = 1.7, 3.0
ops = OnePointSpectra(EddyLifetimeType.TAUNET, PhysicalParameters(L=L, Gamma=G, sigma=1.0), nn_parameters=NNParameters(nlayers=2, hidden_layer_size=6))
kern = NNCovariance(ndim=3, length_scale=L, E0=1.0, Gamma=G, ops=ops, h_ref=1.0)
f = [np.array([-9.0, -0.3, 0.2, 4.0, 12.0]), np.array([-8.0, 0.7, 3.0]), np.array([-14.0, -0.5, 0.4, 3.0, 13.0])]
S = kern.precompute_Spectrum(f)
k = np.array(np.meshgrid(*f, indexing="ij"))
d = np.einsum("i...,ij...->j...", k, S)
size = np.sqrt(np.einsum("i...,i...->...", k, k)) * np.sqrt(np.abs(S**2).sum((0, 1)))
worst = (np.abs(d).max(0) / size).max()
check(worst < 1e-6, f"kernel output orthogonal to the wave vector (worst {worst:.1e})")
''',
)

# ---------------------------------------------------------------------------------------------------- C03
_DRD = '''
from drdmannturb import PhysicalParameters, NNParameters, ProblemParameters, LossParameters, EddyLifetimeType, CalibrationProblem
from drdmannturb.parameters import IntegrationParameters
from drdmannturb.fluctuation_generation import FluctuationFieldGenerator


def problem(L=0.7, Gamma=2.5, sigma=0.4, seed=1, **kw):
    torch.manual_seed(seed)
    with quiet():
        return CalibrationProblem(
            nn_params=NNParameters(nlayers=2, hidden_layer_size=4),
            prob_params=ProblemParameters(eddy_lifetime=EddyLifetimeType.TAUNET, **kw),
            loss_params=LossParameters(),
            phys_params=PhysicalParameters(L=L, Gamma=Gamma, sigma=sigma),
            integration_params=IntegrationParameters(),
            output_directory=".",
        )


def saved(pb, folder):
    os.makedirs(folder, exist_ok=True)
    pb.save_model(folder)
    return os.path.join(folder, os.listdir(folder)[0])


def generator(path, ustar=1.0, zref=1.0, seed=5):
    with quiet():
        return FluctuationFieldGenerator(
            friction_velocity=ustar, reference_height=zref, grid_dimensions=np.array([20.0, 8.0, 8.0]) * zref,
            grid_levels=np.array([4, 3, 3]), model="DRD", path_to_parameters=path, seed=seed, blend_num=1,
        )
'''

plant(
    "c03-stale-fit",
    "C03",
    "two fits saved to the same path one after the other in one process, with a generator built after each",
    "the generator remembers what it loaded by path, so the second one realises the first fit",
    [
        (FF, '            with open(path_to_parameters, "rb") as file:\n                params = pickle.load(file) if device == "cpu" else CPU_Unpickler(file).load()', '            if str(path_to_parameters) not in _LOADED:\n                with open(path_to_parameters, "rb") as file:\n                    _LOADED[str(path_to_parameters)] = pickle.load(file) if device == "cpu" else CPU_Unpickler(file).load()\n            params = _LOADED[str(path_to_parameters)]'),
        (FF, "class FluctuationFieldGenerator:", "_LOADED: dict = {}  # parsed model files\n\n\nclass FluctuationFieldGenerator:"),
    ],
    _DRD
    + '''
a, b = problem(L=0.7), problem(L=1.1, Gamma=1.9, seed=2)
p = saved(a, "m"); ga = generator(p)
q = saved(b, "m"); gb = generator(q)
check(abs(ga.Covariance.L - 0.7) < 1e-5, f"first generator has length scale {ga.Covariance.L}")
check(abs(gb.Covariance.L - 1.1) < 1e-5 and abs(gb.Covariance.Gamma - 1.9) < 1e-5, f"second generator has length scale {gb.Covariance.L}")
''',
)

plant(
    "c03-fit-domain-clamp",
    "C03",
    "physical wave numbers beyond kL = 1000, i.e. a grid much finer than the fitted length scale, or a large reference height",
    "the kernel holds the learned eddy lifetime constant beyond the network's training range, whereas the model follows its asymptote",
    [(NN, "            beta_torch = self.Gamma * self.OPS.tauNet(k_torch)", "            beta_torch = self.Gamma * self.OPS.tauNet(k_torch.clamp(-300.0, 300.0))")],
    _DRD
    + '''
pb = problem(L=0.7)
g = generator(saved(pb, "m"), zref=50.0)
for scale in (1.0, 30.0, 900.0):
    k = np.array([0.8, 0.3, 0.5]) * scale
    phys = [np.array([x / (0.7 * 50.0)]) for x in k]
    S = g.Covariance.precompute_Spectrum(phys)[..., 0, 0, 0]
    got = (S @ S.conj().T).real[2, 2]
    beta = pb.OPS.EddyLifetime(torch.tensor(k / 0.7, dtype=torch.get_default_dtype())).item()
    kp = np.array([x[0] for x in phys]); Lp = 35.0
    k0 = kp + np.array([0, 0, beta * kp[0]])
    E0 = 0.4 * 50.0 ** (-2 / 3)
    kk, kk0 = kp @ kp, k0 @ k0
    want = E0 * Lp ** (17 / 3) / (4 * np.pi) * kk0**2 / (1 + Lp**2 * kk0) ** (17 / 6) / kk**2 * (kp[0] ** 2 + kp[1] ** 2)
    check(abs(got / want - 1) < 1e-3, f"Phi_33 at |k| L = {np.linalg.norm(k):.0f}: {got:.4e}, model {want:.4e}")
''',
)

# ---------------------------------------------------------------------------------------------------- C04
_OPS = '''
from drdmannturb import PhysicalParameters, NNParameters, EddyLifetimeType
from drdmannturb.parameters import IntegrationParameters
from drdmannturb.spectra_fitting import OnePointSpectra


def model(kind=EddyLifetimeType.TWOTHIRD, L=0.6, Gamma=2.0, sigma=0.3, n=40, seed=1, **kw):
    torch.manual_seed(seed)
    with quiet():
        return OnePointSpectra(
            kind, PhysicalParameters(L=L, Gamma=Gamma, sigma=sigma), nn_parameters=NNParameters(nlayers=2, hidden_layer_size=5),
            integration_params=IntegrationParameters(ops_num_points=n), **kw,
        )
'''

plant(
    "c04-grid-by-length",
    "C04",
    "two evaluations in a row of one model with different wave numbers of equal count and equal end points",
    "the integration mesh is kept when the wave-number vector looks the same (length and end points), so the second call is answered with the first one's mesh",
    [
        (
            OPS,
            """        self.k = torch.stack(torch.meshgrid(k1_input, self.ops_grid_k2, self.ops_grid_k3, indexing="ij"), dim=-1)
        self.k123 = self.k[..., 0], self.k[..., 1], self.k[..., 2]
""",
            """        key = (k1_input.numel(), float(k1_input[0]), float(k1_input[-1]), input_dtype)
        if getattr(self, "_mesh_key", None) != key:  # the mesh does not change during a calibration
            self.k = torch.stack(torch.meshgrid(k1_input, self.ops_grid_k2, self.ops_grid_k3, indexing="ij"), dim=-1)
            self.k123 = self.k[..., 0], self.k[..., 1], self.k[..., 2]
            self._mesh_key = key
""",
        )
    ],
    _OPS
    + '''
m = model()
a = torch.tensor([0.1, 0.2, 0.4, 10.0]); b = torch.tensor([0.1, 2.0, 5.0, 10.0])
with torch.no_grad():
    m(a)
    second = m(b)
    alone = model()(b)
check(torch.allclose(second, alone, rtol=1e-5), "an evaluation does not depend on the one before")
''',
)

plant(
    "c04-chunk-tail",
    "C04",
    "more than 64 wave numbers in one call whose count is not a multiple of 64",
    "evaluation in chunks pads the last chunk by starting it earlier, and pastes it at the unpadded offset, so the last chunk's spectra belong to other wave numbers",
    [
        (OPS, "        kF = torch.stack([k1_input * self.quad23(Phi) for Phi in self.Phi])\n\n        return kF", "        kF = torch.stack([k1_input * self.quad23(Phi) for Phi in self.Phi])\n\n        if head is not None:\n            return torch.cat((head, kF[:, : n_total - head.shape[1]]), dim=1)\n        return kF"),
        (
            OPS,
            """        # Get dtype from input
        input_dtype = k1_input.dtype
""",
            """        # Long inputs are evaluated piecewise to bound the memory for the mesh
        head = None
        n_total = len(k1_input)
        if n_total > 64:
            n_head = 64 * ((n_total - 1) // 64)
            head = torch.cat([self.forward(piece) for piece in k1_input[:n_head].split(64)], dim=1)
            k1_input = k1_input[-64:]

        # Get dtype from input
        input_dtype = k1_input.dtype
""",
        ),
    ],
    _OPS
    + '''
m = model(n=20)
k = torch.logspace(-2, 2, 70)
with torch.no_grad():
    whole = m(k)
    single = torch.cat([m(k[i : i + 1]) for i in range(70)], dim=1)
check(whole.shape == single.shape and torch.allclose(whole, single, rtol=1e-4), "70 wave numbers answered each on its own")
''',
)

# ---------------------------------------------------------------------------------------------------- C05
plant(
    "c05-mann-floor",
    "C05",
    "wave numbers with kL below 0.01",
    "the Mann eddy lifetime is evaluated at no less than kL = 0.01 to keep the hypergeometric function away from its pole, so it stops following its small-wave-number law",
    [(COM, "    x = kL.cpu().detach().numpy() if torch.is_tensor(kL) else kL\n", "    x = np.maximum(kL.cpu().detach().numpy() if torch.is_tensor(kL) else kL, 1e-2)\n")],
    '''
from drdmannturb.common import MannEddyLifetime
for kL in (1.0, 0.05, 0.005):
    ratio = MannEddyLifetime(np.array([kL / 2]))[0] / MannEddyLifetime(np.array([kL]))[0]
    import mpmath as mp
    f = lambda x: float(mp.mpf(x) ** (-2 / mp.mpf(3)) / mp.sqrt(mp.hyp2f1(mp.mpf(1) / 3, mp.mpf(17) / 6, mp.mpf(4) / 3, -mp.mpf(x) ** -2)))
    check(abs(ratio / (f(kL / 2) / f(kL)) - 1) < 1e-6, f"eddy lifetime ratio at kL = {kL}: {ratio:.6f}")
''',
)

plant(
    "c05-abs-after-layer",
    "C05",
    "a wave-vector batch in which one vector has components of mixed sign",
    "the network sees the wave vector reflected as a whole instead of component by component, so the lifetime depends on relative signs",
    [(NM, "        k_mod = self._mlp_forward(k.abs()).norm(dim=-1)", "        k_mod = self._mlp_forward(k * torch.sign(k.sum(dim=-1, keepdim=True) + 1e-30)).norm(dim=-1)")],
    '''
from drdmannturb.nn_modules import TauNet
torch.manual_seed(0)
net = TauNet(2, 8)
with torch.no_grad():
    for p in net.linears.parameters():
        p.mul_(3.0)
    k = torch.tensor([[0.3, 1.2, 0.7]])
    ref = net(k)
    for s in ([-1, -1, -1], [1, 1, 1], [-1, 1, 1], [1, -1, 1], [1, 1, -1]):
        check(torch.allclose(net(k * torch.tensor(s)), ref, rtol=1e-5), f"eddy lifetime even in each component, signs {s}")
''',
)

# ---------------------------------------------------------------------------------------------------- C06
plant(
    "c06-grid-kept",
    "C06",
    "coherence evaluated, then the model's length scale changed (by training or assignment), then coherence evaluated again",
    "the coherence integration grid of the first evaluation is kept, so later ones are not computed at the current length scale",
    [
        (
            OPS,
            """            coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor

        # Create""",
            """            coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
            self.coh_grid_k2, self.coh_grid_k3 = coh_grid_k2, coh_grid_k3

        # Create""",
        ),
        (OPS, "        n_seps = len(spatial_separations)\n        n_freqs = len(k1_input)\n", "        n_seps, n_freqs = len(spatial_separations), len(k1_input)\n"),
    ],
    _OPS
    + '''
import math
k1, r = torch.tensor([0.2, 1.0]), torch.tensor([0.5, 1.5])
with torch.no_grad(), quiet():
    m = model(L=0.2)
    m.SpectralCoherence(k1, r)
    m.logLengthScale.fill_(math.log(5.0))
    later = m.SpectralCoherence(k1, r)
    fresh = model(L=5.0).SpectralCoherence(k1, r)
worst = (later - fresh).abs().max().item()
check(worst < 1e-5, f"coherence after a change of length scale equals that of a fresh model (difference {worst:.1e})")
''',
)

plant(
    "c06-sorted-frequencies",
    "C06",
    "a coherence file whose frequency numbers do not increase with frequency",
    "the model coherence is computed on sorted frequencies and stored back in file order, so columns belong to other frequencies",
    [(CAL, "            coherence_freq_nonzero = self.coherence_frequencies[nonzero_mask]", "            coherence_freq_nonzero = np.sort(self.coherence_frequencies[nonzero_mask])")],
    '''
from drdmannturb import PhysicalParameters, NNParameters, ProblemParameters, LossParameters, EddyLifetimeType, CalibrationProblem
from drdmannturb.parameters import IntegrationParameters
from drdmannturb.spectra_fitting import generate_kaimal_spectra

k1 = torch.logspace(-1, 1, 5)
for freqs in ([0.5, 1.0, 4.0], [4.0, 0.5, 1.0]):
    with open("c.dat", "w") as f:
        f.write("sep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\\n")
        for i in range(4):
            for j, fr in enumerate(freqs):
                f.write(f"{i} {j} {0.5 * (i + 1)} {fr} 0.5 0.4 0.3\\n")
    with quiet():
        pb = CalibrationProblem(
            nn_params=NNParameters(), prob_params=ProblemParameters(eddy_lifetime=EddyLifetimeType.TWOTHIRD, nepochs=1, wolfe_iter_count=1),
            loss_params=LossParameters(alpha_pen1=0.0, alpha_pen2=0.0), phys_params=PhysicalParameters(L=0.6, Gamma=2.0, sigma=0.3, Uref=2.0),
            integration_params=IntegrationParameters(ops_num_points=10, coh_num_points=30), output_directory=".", logging_directory="log",
        )
        pb.calibrate(generate_kaimal_spectra(k1, 1.0, 1.0), coherence_data_file="c.dat")
        with torch.no_grad():
            kk = pb.phys_params.wavenumber_conversion_factor * torch.tensor(freqs, dtype=torch.get_default_dtype()) / 2.0
            want = pb.OPS.SpectralCoherence(kk, torch.tensor([0.5, 1.0, 1.5, 2.0]))
    check(torch.allclose(pb.model_coherence_u, want[0], atol=1e-5), f"model coherence columns follow the file's frequencies {freqs}")
''',
)

# ---------------------------------------------------------------------------------------------------- C07
plant(
    "c07-six-swapped",
    "C07",
    "a six-component calibration whose vw and uv data differ",
    "the misfit compares the model's vw spectrum with the uv data and the reverse",
    [
        (
            CAL,
            """                    data_ops[:, 1, 2],  # vw
                    data_ops[:, 0, 1],  # uv
                )""",
            """                    data_ops[:, 0, 1],  # uv
                    data_ops[:, 1, 2],  # vw
                )""",
        )
    ],
    '''
from drdmannturb import PhysicalParameters, NNParameters, ProblemParameters, LossParameters, EddyLifetimeType, CalibrationProblem
from drdmannturb.parameters import IntegrationParameters

k1 = torch.logspace(-1, 1, 6)
with quiet():
    pb = CalibrationProblem(
        nn_params=NNParameters(), prob_params=ProblemParameters(eddy_lifetime=EddyLifetimeType.TWOTHIRD, num_components=6, nepochs=0),
        loss_params=LossParameters(alpha_pen1=0.0, alpha_pen2=0.0), phys_params=PhysicalParameters(L=0.6, Gamma=2.0, sigma=0.3),
        integration_params=IntegrationParameters(ops_num_points=15), output_directory=".", logging_directory="log",
    )
    y = torch.tensor(pb.eval(k1))
    ops = torch.zeros(6, 3, 3)
    for c, (i, j) in enumerate([(0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1)]):
        ops[:, i, j] = y[c] * (1.0 + 0.3 * c)
    pb.calibrate({"k1": k1, "ops": ops, "coherence": None})
want = np.mean([np.log(1.0 + 0.3 * c) ** 2 for c in range(6)])
check(abs(pb.loss.item() - want) < 1e-4 * want, f"initial objective {pb.loss.item():.6f}, documented {want:.6f}")
''',
)

plant(
    "c07-reg-without-nu",
    "C07",
    "a calibration that learns nu with network regularisation switched on",
    "the regularisation averages over the weight matrices only and leaves out the learned exponent, which belongs to the network's parameters",
    [(CAL, "            self.gen_theta_NN = lambda: parameters_to_vector(self.OPS.tauNet.parameters())", "            self.gen_theta_NN = lambda: parameters_to_vector(self.OPS.tauNet.linears.parameters())")],
    '''
from drdmannturb import PhysicalParameters, NNParameters, ProblemParameters, LossParameters, EddyLifetimeType, CalibrationProblem
from drdmannturb.parameters import IntegrationParameters
from drdmannturb.spectra_fitting import generate_kaimal_spectra

for nu in (False, True):
    torch.manual_seed(0)
    with quiet():
        pb = CalibrationProblem(
            nn_params=NNParameters(nlayers=1, hidden_layer_size=3), prob_params=ProblemParameters(eddy_lifetime=EddyLifetimeType.TAUNET, learn_nu=nu, nepochs=0),
            loss_params=LossParameters(alpha_pen1=0.0, alpha_pen2=0.0, beta_reg=2.0), phys_params=PhysicalParameters(L=0.6, Gamma=2.0, sigma=0.3),
            integration_params=IntegrationParameters(ops_num_points=15), output_directory=".", logging_directory="log",
        )
        pb.calibrate(generate_kaimal_spectra(torch.logspace(-1, 1, 5), 1.0, 1.0))
    theta = torch.cat([p.detach().reshape(-1) for p in pb.OPS.tauNet.parameters()])
    want = 2.0 * theta.square().mean().item()
    got = pb.LossAggregator.component_losses["regularization"][0]
    check(abs(got / want - 1) < 1e-5, f"regularisation with learn_nu={nu}: {got:.6f}, documented {want:.6f}")
''',
)

# ---------------------------------------------------------------------------------------------------- C08
plant(
    "c08-last-closure-scales",
    "C08",
    "an optimiser whose last evaluation of the objective is not at the accepted step (Adam always; the line search when its last trial is rejected)",
    "the reported scales are those at the last evaluation of the objective, not the fitted model's",
    [
        (
            CAL,
            """            "L": np.exp(self.parameters[0]),
            "Γ": np.exp(self.parameters[1]),
            "σ": np.exp(self.parameters[2]),
""",
            """            "L": self.scales[0],
            "Γ": self.scales[1],
            "σ": self.scales[2],
""",
        ),
        (
            CAL,
            """            self.loss.backward()
            self.e_count += 1
""",
            """            self.loss.backward()
            self.e_count += 1
            self.scales = self.OPS.LengthScale.item(), self.OPS.TimeScale.item(), self.OPS.Magnitude.item()
""",
        ),
    ],
    '''
from drdmannturb import PhysicalParameters, NNParameters, ProblemParameters, LossParameters, EddyLifetimeType, CalibrationProblem
from drdmannturb.parameters import IntegrationParameters
from drdmannturb.spectra_fitting import generate_kaimal_spectra

with quiet():
    pb = CalibrationProblem(
        nn_params=NNParameters(), prob_params=ProblemParameters(eddy_lifetime=EddyLifetimeType.TWOTHIRD, nepochs=4, tol=0.0),
        loss_params=LossParameters(alpha_pen1=0.0, alpha_pen2=0.0), phys_params=PhysicalParameters(L=0.6, Gamma=2.0, sigma=0.3),
        integration_params=IntegrationParameters(ops_num_points=15), output_directory=".", logging_directory="log",
    )
    out = pb.calibrate(generate_kaimal_spectra(torch.logspace(-1, 1, 6), 1.0, 1.0), optimizer_class=torch.optim.Adam)
now = np.exp(pb.parameters[:3])
got = np.array([out["L"], out["Γ"], out["σ"]])
check(np.allclose(got, now, rtol=1e-6), f"reported scales {got}, model's {now}")
''',
)

plant(
    "c08-relative-tolerance",
    "C08",
    "a calibration that starts far from the data (objective above one) with a tolerance it would reach late",
    "the objective is compared with the tolerance relative to its start, so the loop ends early above the tolerance",
    [
        (CAL, "            if self.loss.item() < tol:\n", "            if self.loss.item() < tol * max(1.0, self.LossAggregator.component_losses[\"total\"][0]):\n"),
    ],
    '''
from drdmannturb import PhysicalParameters, NNParameters, ProblemParameters, LossParameters, EddyLifetimeType, CalibrationProblem
from drdmannturb.parameters import IntegrationParameters
from drdmannturb.spectra_fitting import generate_kaimal_spectra

for L, sigma in ((0.6, 0.3), (0.05, 0.001)):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        pb = CalibrationProblem(
            nn_params=NNParameters(), prob_params=ProblemParameters(eddy_lifetime=EddyLifetimeType.TWOTHIRD, nepochs=12, wolfe_iter_count=2, learning_rate=0.1, tol=0.02),
            loss_params=LossParameters(alpha_pen1=0.0, alpha_pen2=0.0), phys_params=PhysicalParameters(L=L, Gamma=2.0, sigma=sigma),
            integration_params=IntegrationParameters(ops_num_points=20), output_directory=".", logging_directory="log",
        )
        pb.calibrate(generate_kaimal_spectra(torch.logspace(-1, 1, 8), 1.0, 1.0))
    epochs = buf.getvalue().count("took")
    check(pb.loss.item() < 0.02 or epochs == 12, f"ended after {epochs} of 12 epochs at {pb.loss.item():.4f}, tolerance 0.02")
''',
)

# ---------------------------------------------------------------------------------------------------- C09
plant(
    "c09-save-updates-scales",
    "C09",
    "saving a model after a calibration (or parameter assignment) moved its scales",
    "saving overwrites the physical parameters the caller supplied with the fitted scales, so the settings in memory and in the file are not those of the problem",
    [
        (
            CAL,
            """        filename = save_dir + "/" + str(self.prob_params.eddy_lifetime) + ".pkl"
""",
            """        filename = f"{save_dir}/{self.prob_params.eddy_lifetime}.pkl"
        # store the scales of the model as it stands
        self.phys_params.L, self.phys_params.Gamma, self.phys_params.sigma = self.OPS.exp_scales()
""",
        )
    ],
    _DRD
    + '''
pb = problem(L=0.7)
v = pb.parameters.copy(); v[:3] += 0.3
pb.parameters = v
before = (pb.phys_params.L, pb.phys_params.Gamma, pb.phys_params.sigma)
saved(pb, "m")
after = (pb.phys_params.L, pb.phys_params.Gamma, pb.phys_params.sigma)
check(before == after, f"settings before saving {before}, after {after}")
check(np.array_equal(pb.parameters, v), "parameters unchanged by saving")
''',
)

plant(
    "c09-long-vector",
    "C09",
    "a parameter vector longer than the model's (from a model with more layers or with learned exponents)",
    "a vector that is too long is accepted and its head is loaded",
    [(CAL, "        if len(param_vec) != current_num_params:", "        if len(param_vec) < current_num_params:")],
    _DRD
    + '''
pb = problem()
v = pb.parameters.copy()
for bad in (v[:-1], np.concatenate([v + 1.0, v[:2]])):
    refused = False
    try:
        pb.parameters = bad
    except ValueError:
        refused = True
    check(refused and np.array_equal(pb.parameters, v), f"vector of length {len(bad)} instead of {len(v)} is refused")
''',
)

# ---------------------------------------------------------------------------------------------------- C10
plant(
    "c10-global-errstate",
    "C10",
    "any numerical code after a Mann kernel was built that relies on numpy's floating-point error settings",
    "building the spectrum leaves division and invalid-value warnings switched off for the whole process",
    [
        (CK, '        with np.errstate(divide="ignore", invalid="ignore"):\n            beta = (', '        np.seterr(divide="ignore", invalid="ignore")\n        if kk.size:\n            beta = ('),
    ],
    '''
from drdmannturb.fluctuation_generation import MannCovariance
before = np.geterr()
MannCovariance(ndim=3, length_scale=1.0, E0=1.0, Gamma=2.0).precompute_Spectrum([np.array([0.0, 1.0])] * 3)
check(np.geterr() == before, f"error settings before {before}, after {np.geterr()}")
''',
)

plant(
    "c10-shared-prng",
    "C10",
    "two seeded random fields (or generators) alive at once whose sampling is interleaved, or one reseeded while the other is in use",
    "all random fields share one pseudo-random stream",
    [
        (GRF, "        self.prng = np.random.RandomState()\n", "        self.prng = _default_prng()\n"),
        (GRF, "class GaussianRandomField:", "_PRNG: list = []\n\n\ndef _default_prng() -> np.random.RandomState:\n    if not _PRNG:\n        _PRNG.append(np.random.RandomState())\n    return _PRNG[0]\n\n\nclass GaussianRandomField:"),
    ],
    '''
from drdmannturb.fluctuation_generation import FluctuationFieldGenerator


def gen(seed):
    return FluctuationFieldGenerator(friction_velocity=1.0, reference_height=1.0, grid_dimensions=np.array([4.0, 2.0, 2.0]), grid_levels=np.array([3, 2, 2]),
        model="VK", length_scale=0.5, time_scale=1.0, energy_spectrum_scale=1.0, seed=seed, blend_num=0)


def blocks(g, n):
    with quiet():
        return g.generate(n, 1.0, 1.0, 0.01, "LOG").copy()


alone = blocks(gen(7), 2)
a, b = gen(7), gen(8)
one = blocks(a, 1); blocks(b, 1); two = blocks(a, 1)
check(np.array_equal(one, alone[: len(one)]), "first block next to another generator")
check(np.array_equal(two, alone), "second block after another generator's block")
''',
)

# ---------------------------------------------------------------------------------------------------- C11
_GEN = '''
from drdmannturb.fluctuation_generation import FluctuationFieldGenerator


def gen(seed=7, model="VK", levels=(3, 3, 2), dims=(6.0, 3.0, 2.0), L=0.5, G=1.0, blend=2, **kw):
    with quiet():
        return FluctuationFieldGenerator(friction_velocity=kw.pop("ustar", 1.0), reference_height=kw.pop("href", 1.0), grid_dimensions=np.array(dims),
            grid_levels=np.array(levels), model=model, length_scale=L, time_scale=G, energy_spectrum_scale=1.0, seed=seed, blend_num=blend, **kw)


def blocks(g, n, zref=1.0, uref=1.0, z0=0.01, prof="LOG", plexp=None):
    with quiet():
        return g.generate(n, zref, uref, z0, prof, plexp).copy()
'''

plant(
    "c11-reseed-per-call",
    "C11",
    "a seeded generator asked for its blocks in more than one call",
    "every call to generate restarts the random stream, so blocks of a later call repeat the new noise of an earlier one instead of continuing the sequence",
    [
        (
            FF,
            """        for i in range(num_blocks):
            # --- Generate and normalize block ---
            t_block = self._generate_block()
""",
            """        if self.seed is not None:
            self.RF.reseed(self.seed)

        for i in range(0, num_blocks):
            t_block = self._generate_block()
""",
        )
    ],
    _GEN
    + '''
whole = blocks(gen(), 3)
g = gen(); blocks(g, 1); parts = blocks(g, 2)
check(np.array_equal(whole, parts), "three blocks at once and in two calls")
''',
)

plant(
    "c11-roll-new-rows",
    "C11",
    "blend_num of at least two and a third block",
    "the noise window advances by the number of rows of the block plus the overlap of the blending region, so successive windows do not share the documented overlap",
    [(FF, "            noise = np.roll(self.noise, -self.Nx, axis=0)\n", "            noise = np.roll(self.noise, -(self.Nx + max(0, self.blend_num - 1)), axis=0)\n")],
    _GEN
    + '''
for blend in (0, 1, 4):
    g = gen(blend=blend)
    windows = []
    inner = g.RF.sample
    g.RF.sample = lambda noise: (windows.append(noise.copy()), inner(noise))[1]
    blocks(g, 3)
    for a, b in zip(windows, windows[1:]):
        check(np.array_equal(a[g.Nx :], b[: len(a) - g.Nx]), f"consecutive noise windows share their overlap, blend {blend}")
''',
)

# ---------------------------------------------------------------------------------------------------- C12
plant(
    "c12-std-for-rms",
    "C12",
    "a block whose spatial mean is not small against its rms: a domain not much larger than the length scale",
    "blocks are scaled by their standard deviation instead of their root mean square",
    [(FF, "        sd = np.sqrt(np.mean(curr_block**2))\n", "        sd = np.std(curr_block)\n")],
    _GEN
    + '''
for L in (0.2, 6.0):
    g = gen(L=L, G=0.4, blend=0)
    w = blocks(g, 1, uref=3.0)
    z = np.linspace(0, 2.0, w.shape[2])
    w[..., 0] -= 3.0 * np.log(z / 0.01 + 1) / np.log(100.0)
    rms = np.sqrt((w**2).mean())
    check(abs(rms - 1) < 1e-5, f"block rms {rms:.6f} for length scale {L}")
''',
)

plant(
    "c12-profile-kept",
    "C12",
    "one generator used with two different mean profiles",
    "the mean profile of the first block is kept for the later ones",
    [
        (
            FF,
            """        if windprofiletype == "LOG":
            mean_profile_z = self.log_law(z_space, z0, zref, uref)
""",
            """        if getattr(self, "_profile_type", None) == windprofiletype and len(self._profile) == len(z_space):
            mean_profile_z = self._profile
        elif windprofiletype == "LOG":
            mean_profile_z = self.log_law(z_space, z0, zref, uref)
""",
        ),
        (
            FF,
            """        mean_profile = np.zeros_like(curr_block)
""",
            """        self._profile_type, self._profile = windprofiletype, mean_profile_z
        mean_profile = np.zeros_like(curr_block)
""",
        ),
    ],
    _GEN
    + '''
g = gen(blend=0)
n = len(blocks(g, 1, uref=1.0))
w = blocks(g, 1, uref=9.0)
z = np.linspace(0, 2.0, w.shape[2])
for part, u in ((w[:n], 1.0), (w[n:], 9.0)):
    f = part.copy(); f[..., 0] -= u * np.log(z / 0.01 + 1) / np.log(100.0)
    rms = np.sqrt((f**2).mean())
    check(abs(rms - 1) < 1e-5, f"fluctuation rms {rms:.6f} about the profile with uref = {u}")
''',
)

# ---------------------------------------------------------------------------------------------------- C13
plant(
    "c13-buffer-returned",
    "C13",
    "the result of one sampling kept while the same field is sampled again",
    "the FFTW sampler returns its work array scaled in place, which the next sample overwrites",
    [(SM, "        return self.fft_x[self.DomainSlice] / self.TransformNorm\n", "        field = self.fft_x[self.DomainSlice]\n        field /= self.TransformNorm\n        return field\n")],
    '''
from drdmannturb.fluctuation_generation import GaussianRandomField, Covariance


class Kernel(Covariance):
    def __init__(self):
        super().__init__(ndim=3)
    def precompute_Spectrum(self, F):
        k = np.meshgrid(*F, indexing="ij")
        return 1.0 / (1.0 + sum(x * x for x in k))


rf = GaussianRandomField(Kernel(), grid_level=np.array([2, 2, 2]), grid_shape=np.array([4, 4, 4]), grid_dimensions=np.array([1.0, 1.0, 1.0]), sampling_method="fftw")
rf.reseed(1)
a = rf.sample(); keep = a.copy()
rf.sample()
check(np.array_equal(a, keep), "an earlier sample is not modified by the next")
''',
)

plant(
    "c13-shared-plans",
    "C13",
    "two vector fields of the same grid sampled concurrently from two threads",
    "transform plans and their work arrays are shared between all samplers of one grid shape, so concurrent samples mix",
    [
        (
            SM,
            """        self.fft_x = pyfftw.empty_aligned(shpR, dtype="float32")
        self.fft_y = pyfftw.empty_aligned(shpC, dtype="complex64")
""",
            """        # planning is expensive: share the work arrays between samplers of one shape
        key = tuple(int(n) for n in shpR)
        if key not in _WORK:
            _WORK[key] = (pyfftw.empty_aligned(shpR, dtype="float32"), pyfftw.empty_aligned(shpC, dtype="complex64"))
        self.fft_x, self.fft_y = _WORK[key]
""",
        ),
        (SM, 'METHOD_VF_FFTW = "vf_fftw"\n', 'METHOD_VF_FFTW = "vf_fftw"\n\n_WORK: dict = {}\n'),
    ],
    '''
import threading
from drdmannturb.fluctuation_generation import VectorGaussianRandomField, VonKarmanCovariance


def field(L):
    return VectorGaussianRandomField(ndim=3, grid_level=np.array([5, 5, 5]), grid_shape=np.array([48, 48, 48]), grid_dimensions=np.array([1.0, 1.0, 1.0]),
        sampling_method="vf_fftw", Covariance=VonKarmanCovariance(3, L, 1.0))


fields = [field(0.3), field(1.0)]
rng = np.random.RandomState(0)
noise = [rng.normal(size=(48, 48, 48, 3)) for _ in range(2)]
alone = [f.sample(n) for f, n in zip(fields, noise)]
bad = []


def work(i):
    for _ in range(12):
        if not np.array_equal(fields[i].sample(noise[i]), alone[i]):
            bad.append(i)


sys.setswitchinterval(1e-5)
threads = [threading.Thread(target=work, args=(i,)) for i in range(2)]
[t.start() for t in threads]; [t.join() for t in threads]
check(not bad, f"{len(bad)} of 24 concurrent samples differ")
''',
)

# ---------------------------------------------------------------------------------------------------- C14
plant(
    "c14-absolute-cutoff",
    "C14",
    "a length scale beyond about 12 km, so that the lowest wave numbers of the computational grid fall below 1e-4 per metre",
    "the guard against the zero wave number uses an absolute threshold that also removes the largest eddies of a large domain",
    [(LF, "                if _k_sq < 1e-20:", "                if _k_sq < 1e-8:")],
    '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

for L in (2000.0, 20000.0):
    cfg = dict(sigma2=1.0, L_2d=L, psi=0.8, z_i=500.0, L1_factor=6, L2_factor=6, exp1=6, exp2=6)
    g = LowFreqGenerator(cfg, seed=3)
    g.generate()
    a = np.abs(np.fft.fft2(g.u1_full))
    check(a[0, 1] > 1e-6 * a.max(), f"lowest lateral mode present for L_2d = {L} ({a[0, 1] / a.max():.1e})")
''',
)

plant(
    "c14-denominator-guard",
    "C14",
    "a length scale beyond about 50 km, where the spectrum's denominator is legitimately tiny near its peak",
    "the guard against dividing by zero in the variance integral drops the energy-containing range of long length scales",
    [(LF, "            if denominator < 1e-30:\n                return 0.0\n\n            # kappa^3", "            if denominator < 1e-22:\n                return 0.0\n\n            # kappa^3")],
    '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
import mpmath as mp

for L, z in ((800.0, 50.0), (90000.0, 500.0)):
    cfg = dict(sigma2=1.0, L_2d=L, psi=0.8, z_i=z, L1_factor=6, L2_factor=6, exp1=4, exp2=4)
    c = LowFreqGenerator(cfg).c
    f = lambda x: x**3 / (1 + x * x) ** (mp.mpf(7) / 3) / (1 + x * x * (z / L) ** 2)
    want = 1 / (2 * mp.quad(f, [0, 1, 10, 100, 1000, mp.inf]) * mp.mpf(L) ** (mp.mpf(14) / 3 - 4))
    check(abs(c / float(want) - 1) < 1e-4, f"variance constant for L_2d={L}, z_i={z}: {c:.6e}, documented {float(want):.6e}")
''',
)

# ---------------------------------------------------------------------------------------------------- C15
plant(
    "c15-low-wavenumber-zero",
    "C15",
    "a streamwise wave number below 1e-6 per metre",
    "the theoretical spectra report zero there instead of their low-wave-number limit",
    [(LF, "            if abs(k1_val) < 1e-15:", "            if abs(k1_val) < 1e-6:")],
    '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
g = LowFreqGenerator(dict(sigma2=1.0, L_2d=15000.0, psi=0.8, z_i=500.0, L1_factor=6, L2_factor=6, exp1=4, exp2=4))
F11, F22 = g.analytical_spectrum(np.array([2e-6, 1e-6 * 1.01, 5e-7]))
check(abs(F11[2] / F11[1] - 1) < 0.05, f"F11 flat at low wave numbers: {F11}")
''',
)

plant(
    "c15-first-column-scale",
    "C15",
    "a field on a grid with different numbers of points along x and y",
    "the estimator's inner loop runs over the streamwise count in both directions, so part of the transverse wave numbers is left out (or read beyond the array)",
    [
        (
            LF,
            """            for r in range(N1):
                for c in range(N2):
                    # Check""",
            """            for r in range(N1):
                for c in range(min(N1, N2)):
                    # Check""",
        )
    ],
    '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
for e1, e2 in ((5, 5), (4, 6)):
    g = LowFreqGenerator(dict(sigma2=1.0, L_2d=3000.0, psi=0.8, z_i=500.0, L1_factor=6, L2_factor=6, exp1=e1, exp2=e2), seed=1)
    g.generate()
    k, F11, F22 = g.compute_spectrum()
    a = np.abs(np.fft.fft2(g.u1)) ** 2
    want = a.sum(1)[1 : 2 ** (e1 - 1) + 1] * g.user_L1 / (2 ** (2 * (e1 + e2)) * 2 * np.pi)
    check(np.allclose(F11, want, rtol=1e-6), f"estimated F11 sums the periodogram, grid 2^{e1} x 2^{e2}")
''',
)

# ---------------------------------------------------------------------------------------------------- C16
_LFCFG = '''
cfg = dict(sigma2=1.0, L_2d=10.0, psi=0.8, z_i=2.0, L1_factor=6, L2_factor=6, exp1=6, exp2=6)
'''
plant(
    "c16-extrapolate",
    "C16",
    "a three-dimensional domain that extends beyond the two-dimensional one",
    "beyond the last row of the two-dimensional field its values are extrapolated instead of vanishing",
    [(LF, "            bounds_error=False,\n            fill_value=0.0,\n        )", "            bounds_error=False,\n            fill_value=None,\n        )")],
    '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
g = LowFreqGenerator(dict(sigma2=1.0, L_2d=100.0, psi=0.8, z_i=20.0, L1_factor=6, L2_factor=6, exp1=4, exp2=4), seed=1)
g.generate()
u, v = g.interp_slice(np.array([10.0, 300.0, 610.0, 1000.0]), np.array([50.0, 200.0]))
check(np.any(u[:2]) and np.any(v[:2]), "values inside the domain")
check(not np.any(u[2:]) and not np.any(v[2:]), f"zero beyond the domain: {v[2:].ravel()}")
''',
)

plant(
    "c16-pairwise-seed",
    "C16",
    "a seeded generator with a low-frequency model compared with the same seed without one",
    "constructing the low-frequency part consumes from the generator's noise stream, so the small-scale field is no longer the one of the same seed",
    [
        (FF, '            print("Generating low-frequency field...")\n', '            print("Generating low-frequency field...")\n            self.low_freq_gen.prng = self.RF.prng\n'),
        (FF, "        self.low_freq_gen: LowFreqGenerator | None = None\n", "        self.low_freq_gen = None\n"),
    ],
    _GEN
    + _LFCFG
    + '''
with quiet():
    a = gen(blend=0); b = gen(blend=0, config_2d_model=cfg)
w, v = blocks(a, 2), blocks(b, 2)
check(np.array_equal(w[..., 2], v[..., 2]), "vertical component is that of the same seed without the low-frequency model")
''',
)

# ---------------------------------------------------------------------------------------------------- C17
plant(
    "c17-kaimal-n-rounding",
    "C17",
    "Kaimal spectra at very low reduced frequencies",
    "reduced frequencies are rounded to four decimals",
    [(DG, "    n = 1 / (2 * np.pi) * k1 * zref", "    n = torch.round(1 / (2 * np.pi) * k1 * zref, decimals=4)")],
    '''
from drdmannturb.spectra_fitting import generate_kaimal_spectra
k1 = torch.logspace(-5, 2, 7, dtype=torch.float64)
d = generate_kaimal_spectra(k1, 3.0, 0.7)
n = k1 * 3.0 / (2 * np.pi)
want = 0.49 * 52.5 * n / (1 + 33 * n) ** (5 / 3)
check(d["ops"].dtype == torch.float64 and torch.allclose(d["ops"][:, 0, 0], want, rtol=1e-12), "Kaimal formula at every wave number")
''',
)

plant(
    "c17-first-seen-order",
    "C17",
    "a complete coherence file whose separations do not appear in the order of their numbers",
    "separations are listed in order of first appearance while the values are ordered by number",
    [(CAL, '        sep_mapping = df.groupby("sep_idx")["spatial_sep"].first().sort_index()', '        sep_mapping = df.groupby("sep_idx", sort=False)["spatial_sep"].first()')],
    '''
from drdmannturb import PhysicalParameters, NNParameters, ProblemParameters, LossParameters, EddyLifetimeType, CalibrationProblem
from drdmannturb.parameters import IntegrationParameters
with quiet():
    pb = CalibrationProblem(nn_params=NNParameters(), prob_params=ProblemParameters(eddy_lifetime=EddyLifetimeType.TWOTHIRD), loss_params=LossParameters(),
        phys_params=PhysicalParameters(L=0.6, Gamma=2.0, sigma=0.3), integration_params=IntegrationParameters(ops_num_points=5), output_directory=".")
for order in ([0, 1, 2], [2, 0, 1]):
    with open("c.dat", "w") as f:
        f.write("sep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\\n")
        for i in order:
            for j in range(2):
                f.write(f"{i} {j} {10.0 * (i + 1)} {0.1 * (j + 1)} {0.1 * (i + 1)} {0.2 * (i + 1)} {0.3 * (i + 1)}\\n")
    with quiet():
        pb.load_coherence_data("c.dat")
    check(np.allclose(pb.coherence_u[:, 0], np.asarray(pb.coherence_spatial_seps) / 100.0), f"coherence belongs to its separation, rows in order {order}")
''',
)

# ---------------------------------------------------------------------------------------------------- C18
plant(
    "c18-magnitude-in-place",
    "C18",
    "the magnitude plot called with components that are already laid out (reshape off)",
    "the squares are formed in place, so plotting changes the caller's field",
    [
        (
            WP,
            "    wind_magnitude = np.sqrt(formatted_wind_field[0] ** 2 + formatted_wind_field[1] ** 2 + formatted_wind_field[2] ** 2)\n",
            "    wind_magnitude = np.zeros_like(formatted_wind_field[0])\n    for component in formatted_wind_field:\n        wind_magnitude += np.multiply(component, component, out=component)\n    wind_magnitude = np.sqrt(wind_magnitude)\n",
        )
    ],
    '''
from drdmannturb.fluctuation_generation import plot_velocity_magnitude
rng = np.random.RandomState(0)
w = rng.normal(size=(3, 4, 5, 3))
comps = np.stack([w[..., i] for i in range(3)])
keep = comps.copy()
class Parts(np.ndarray):
    pass
fig = plot_velocity_magnitude((1.0, 1.0, 1.0), w)
check(np.allclose(np.sort(np.asarray(fig.data[0].value)), np.sort(np.sqrt((w**2).sum(-1)).ravel())), "magnitude plotted")
arr = rng.normal(size=(3, 3, 3, 3)); keep = arr.copy()
plot_velocity_magnitude((1.0, 1.0, 1.0), arr, reshape=False)
check(np.array_equal(arr, keep), "plotting leaves the field unchanged")
''',
)

plant(
    "c18-isotropic-spacing",
    "C18",
    "a grid whose vertical spacing differs from the streamwise one",
    "the divergence uses one spacing for the two other directions",
    [(FF, "[np.gradient(field[..., i], spacing[i], axis=i) for i in range(3)]", "[np.gradient(field[..., i], spacing[min(i, 1)], axis=i) for i in range(3)]")],
    _GEN
    + '''
g = gen()
x, y, z = np.meshgrid(np.arange(5) * 0.5, np.arange(4) * 0.25, np.arange(6) * 2.0, indexing="ij")
f = np.stack([x, 2 * y, 3 * z], -1)
d = g.evaluate_divergence((0.5, 0.25, 2.0), f)
check(np.allclose(d, 6.0), f"divergence of (x, 2y, 3z) is 6, got {d.mean():.3f}")
''',
)

# ---------------------------------------------------------------------------------------------------- C19
plant(
    "c19-layer-size-zero",
    "C19",
    "a list of hidden layer sizes containing a zero",
    "a zero-width layer is accepted and silently removes the network's correction",
    [(NM, "                if size <= 0:\n", "                if size < 0:\n")],
    '''
from drdmannturb.nn_modules import TauNet
TauNet(2, [3, 4])
for bad in ([3, -1], [3, 0]):
    refused = False
    try:
        TauNet(2, bad)
    except ValueError:
        refused = True
    check(refused, f"layer sizes {bad} refused")
''',
)

plant(
    "c19-pl-skips-checks",
    "C19",
    "a power-law profile with a non-positive reference velocity or roughness length",
    "the positivity check is skipped for the power law",
    [(FF, "        if any(param <= 0 for param in [zref, uref, z0]):", '        if windprofiletype == "LOG" and any(param <= 0 for param in [zref, uref, z0]):')],
    _GEN
    + '''
for prof, ple in (("LOG", None), ("PL", 0.2)):
    for bad in (dict(uref=-1.0), dict(z0=0.0), dict(zref=-2.0)):
        refused = False
        try:
            blocks(gen(), 1, prof=prof, plexp=ple, **bad)
        except ValueError:
            refused = True
        check(refused, f"{prof} with {bad} refused")
''',
)

# ---------------------------------------------------------------------------------------------------- C20
plant(
    "c20-first-window",
    "C20",
    "more recorded evaluations than the diagnostics window",
    "the diagnostics describe the first window of the run instead of the most recent one",
    [(LOSS, "        recent_losses = {key: values[-window:] for key, values in self.component_losses.items()}", "        recent_losses = {key: values[:window] for key, values in self.component_losses.items()}")],
    '''
from drdmannturb.spectra_fitting import LossAggregator
from drdmannturb import LossParameters
agg = LossAggregator(LossParameters(alpha_pen1=0.0, alpha_pen2=0.0), torch.logspace(-1, 1, 4), 1.0, tb_log_dir="log")
data = torch.ones(3, 4)
for i in range(12):
    agg.eval(data * float(np.exp(np.sqrt(12.0 - i))), data, None, i)
d = agg.get_loss_diagnostics(window=4)
want = np.mean([4.0, 3.0, 2.0, 1.0])
check(abs(d["total_mean"] - want) < 1e-4, f"mean over the last four objective values {d['total_mean']:.4f}, expected {want}")
''',
)

plant(
    "c20-ema-penalty",
    "C20",
    "both curvature penalties switched on with different values, over at least two evaluations",
    "the moving average of the second-order penalty follows the first-order one",
    [(LOSS, 'self.ema_decay * self.running_averages["pen2"] + (1 - self.ema_decay) * pen2_val', 'self.ema_decay * self.running_averages["pen2"] + (1 - self.ema_decay) * pen1_val')],
    '''
from drdmannturb.spectra_fitting import LossAggregator
from drdmannturb import LossParameters
agg = LossAggregator(LossParameters(alpha_pen1=1.0, alpha_pen2=1.0), torch.logspace(-1, 1, 6), 1.0, tb_log_dir="log")
data = torch.ones(3, 6); y = torch.exp(torch.rand(3, 6, generator=torch.Generator().manual_seed(0)))
avg = None
for i in range(4):
    agg.eval(y, data, None, i); y = y**1.5
    v = agg.component_losses["pen2"][-1]
    avg = v if avg is None else 0.9 * avg + 0.1 * v
check(abs(agg.running_averages["pen2"] / avg - 1) < 1e-6, f"moving average of the curvature penalty {agg.running_averages['pen2']:.5f}, expected {avg:.5f}")
''',
)

# ---------------------------------------------------------------------------------------------------- C21
plant(
    "c21-six-labels",
    "C21",
    "plotting a six-component fit whose vw and uv data differ",
    "the data of the two mixed components appear in each other's panels",
    [(CAL, "            data_component_map = {0: 0, 1: 1, 2: 2, 3: 3, 4: 5, 5: 4}", "            data_component_map = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5}")],
    '''
from drdmannturb import PhysicalParameters, NNParameters, ProblemParameters, LossParameters, EddyLifetimeType, CalibrationProblem
from drdmannturb.parameters import IntegrationParameters
k1 = torch.logspace(-1, 1, 6)
with quiet():
    pb = CalibrationProblem(nn_params=NNParameters(), prob_params=ProblemParameters(eddy_lifetime=EddyLifetimeType.TWOTHIRD, num_components=6, nepochs=0), loss_params=LossParameters(),
        phys_params=PhysicalParameters(L=0.6, Gamma=2.0, sigma=0.3), integration_params=IntegrationParameters(ops_num_points=8), output_directory=".", logging_directory="log")
    ops = torch.rand(6, 3, 3, generator=torch.Generator().manual_seed(0)) + 0.1
    pb.calibrate({"k1": k1, "ops": ops, "coherence": None})
    pb.plot(plot_tau=False)
for panel, (i, j) in enumerate([(0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1)]):
    want = ops[:, i, j].numpy() * (-1 if panel == 3 else 1)
    check(np.allclose(pb.lines_SP_data[panel].get_ydata(), want), f"panel {panel} shows component {i + 1}{j + 1}")
''',
)

plant(
    "c21-lifetime-diagonal",
    "C21",
    "the lifetime figure of a model whose lifetime depends on direction or magnitude (any but the constant one)",
    "the curve along the diagonal is drawn at the sum of its components instead of their norm",
    [(CAL, "k_4 = torch.stack([k_gd, k_gd, k_gd], dim=-1) / 3 ** (1 / 2)", "k_4 = torch.stack([k_gd, k_gd, k_gd], dim=-1) / 3", 1)],
    '''
from drdmannturb import PhysicalParameters, NNParameters, ProblemParameters, LossParameters, EddyLifetimeType, CalibrationProblem
from drdmannturb.parameters import IntegrationParameters
from drdmannturb.spectra_fitting import generate_kaimal_spectra
with quiet():
    pb = CalibrationProblem(nn_params=NNParameters(), prob_params=ProblemParameters(eddy_lifetime=EddyLifetimeType.TWOTHIRD, nepochs=0), loss_params=LossParameters(),
        phys_params=PhysicalParameters(L=0.6, Gamma=2.0, sigma=0.3), integration_params=IntegrationParameters(ops_num_points=8), output_directory=".", logging_directory="log")
    pb.calibrate(generate_kaimal_spectra(torch.logspace(-1, 1, 6), 1.0, 1.0))
    pb.plot(plot_tau=True)
a, b = pb.lines_LT_model1.get_ydata(), pb.lines_LT_model4.get_ydata()
check(np.allclose(a, b, rtol=1e-5), "an isotropic lifetime is the same along an axis and the diagonal at equal magnitude")
''',
)
