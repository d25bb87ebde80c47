"""Second batch of planted bugs (see plants.py)."""

from plants import CAL, CK, COM, DG, FF, GRF, LF, LOSS, NM, NN, OPS, PAR, SM, WP, _GEN, plant  # noqa: F401

_CAL = '''
from drdmannturb import PhysicalParameters, NNParameters, ProblemParameters, LossParameters, EddyLifetimeType, CalibrationProblem
from drdmannturb.parameters import IntegrationParameters
from drdmannturb.spectra_fitting import generate_kaimal_spectra


def problem(lifetime="TAUNET", prob=None, loss=None, phys=None, integ=None, log="log"):
    with quiet():
        return CalibrationProblem(
            nn_params=NNParameters(nlayers=2, hidden_layer_size=4),
            prob_params=ProblemParameters(**{**dict(eddy_lifetime=EddyLifetimeType[lifetime], nepochs=0), **(prob or {})}),
            loss_params=LossParameters(**(loss or {})), phys_params=PhysicalParameters(**{**dict(L=0.6, Gamma=2.0, sigma=0.3), **(phys or {})}),
            integration_params=IntegrationParameters(**{**dict(ops_num_points=15, coh_num_points=12), **(integ or {})}), output_directory="out", logging_directory=log,
        )
'''

plant(
    "c01-mesh-kept",
    "C01",
    "two Mann kernels of the same grid size and the same vertical wave numbers but different streamwise or lateral ones, in one process",
    "the mesh of wave vectors is kept between kernels and recognised by its shape and last vertical wave number only",
    [
        (
            CK,
            '        k = np.array(list(np.meshgrid(*Frequencies, indexing="ij")))\n',
            '''        key = (tuple(Nd), float(Frequencies[2][-1]))
        if MannCovariance._mesh.get("key") != key:
            MannCovariance._mesh = {"key": key, "k": np.array(list(np.meshgrid(*Frequencies, indexing="ij")))}
        k = MannCovariance._mesh["k"]
''',
            1,
        ),
        (CK, "    def __init__(self, ndim: int = 3, length_scale: float = 1.0, E0: float = 1.0, Gamma: float = 1.0, **kwargs):", "    _mesh: dict = {}\n\n    def __init__(self, ndim: int = 3, length_scale: float = 1.0, E0: float = 1.0, Gamma: float = 1.0, **kwargs):"),
    ],
    """
from drdmannturb.fluctuation_generation import MannCovariance

z = np.array([0.0, 1.0, -1.0])
one = [np.array([0.0, 1.0, -1.0]), np.array([0.5, 2.0]), z]
two = [np.array([0.0, 3.0, -3.0]), np.array([0.5, 2.0]), z]
k = MannCovariance(ndim=3, length_scale=0.7, E0=1.0, Gamma=2.0)
a = k.precompute_Spectrum(one)
b = k.precompute_Spectrum(two)
kv = np.array(np.meshgrid(*two, indexing="ij"))
div = np.abs(np.einsum("ixyz,ijxyz->jxyz", kv, b)).max() / np.abs(b).max()
check(div < 1e-9, f"second grid's tensor belongs to its own wave vectors (divergence {div:.1e})")
""",
)

plant(
    "c02-strain-cap",
    "C02",
    "a learned lifetime at the largest eddies of a domain much longer than the length scale, where the strain exceeds twenty",
    "the strain is limited where the wave vector is sheared but not where the velocity is, so the two no longer match",
    [(NN, "            k30 = k3 + beta * k1\n", "            k30 = k3 + np.minimum(beta, 20.0) * k1\n")],
    """
from drdmannturb import EddyLifetimeType, PhysicalParameters, NNParameters
from drdmannturb.fluctuation_generation import NNCovariance
from drdmannturb.spectra_fitting import OnePointSpectra

torch.manual_seed(1)
ops = OnePointSpectra(type_eddy_lifetime=EddyLifetimeType.TAUNET, physical_params=PhysicalParameters(L=0.6, Gamma=3.0, sigma=0.2), nn_parameters=NNParameters(nlayers=2, hidden_layer_size=6))
kern = NNCovariance(ndim=3, length_scale=0.6, E0=0.2, Gamma=3.0, ops=ops, h_ref=1.0)
f = [np.array([1e-2, 1e-1, 1.0, -3e-2]), np.array([2e-2, -0.3, 2.0]), np.array([-1e-2, 0.1, 1.5])]
S = kern.precompute_Spectrum(f)
kv = np.array(np.meshgrid(*f, indexing="ij"))
size = np.sqrt((kv**2).sum(0)) * np.abs(S).max((0, 1))
div = (np.abs(np.einsum("ixyz,ijxyz->jxyz", kv, S)).max(0) / size).max()
check(div < 1e-9, f"kernel orthogonal to the wave vector ({div:.1e})")
""",
)

plant(
    "c03-streaks-undistorted",
    "C03",
    "modes of zero streamwise wave number of a generator built from a saved fit",
    "the lifetime is zeroed wherever the streamwise wave number vanishes instead of at the zero vector only, so these modes keep the isotropic tensor",
    [(NN, "            beta[np.where(kk == 0)] = 0", "            beta[np.where(k[0, ...] == 0)] = 0")],
    """
from drdmannturb import EddyLifetimeType, PhysicalParameters, NNParameters
from drdmannturb.fluctuation_generation import NNCovariance
from drdmannturb.spectra_fitting import OnePointSpectra

torch.manual_seed(1)
ops = OnePointSpectra(type_eddy_lifetime=EddyLifetimeType.TAUNET, physical_params=PhysicalParameters(L=0.6, Gamma=3.0, sigma=0.2), nn_parameters=NNParameters(nlayers=2, hidden_layer_size=6))
kern = NNCovariance(ndim=3, length_scale=0.6, E0=0.2, Gamma=3.0, ops=ops, h_ref=1.0)
at = lambda k1: (lambda s: (s @ s.conj().T).real)(kern.precompute_Spectrum([np.array([k1]), np.array([0.7]), np.array([0.4])])[..., 0, 0, 0])
a, b = at(0.0), at(1e-7)
check(np.abs(a - b).max() < 1e-3 * np.abs(b).max(), f"tensor continuous at k1 = 0: {a[0, 0]:.5f} against {b[0, 0]:.5f}")
""",
)

plant(
    "c04-rounded-wavenumbers",
    "C04",
    "wave numbers of a model in physical units with a length scale of hundreds of metres",
    "wave numbers are rounded to four decimals on the quadrature mesh",
    [(OPS, "        self.k = torch.stack(torch.meshgrid(k1_input, self.ops_grid_k2", "        self.k = torch.stack(torch.meshgrid(torch.round(k1_input, decimals=4), self.ops_grid_k2")],
    """
from drdmannturb import EddyLifetimeType, PhysicalParameters
from drdmannturb.spectra_fitting import OnePointSpectra

def spectra(L, ks):
    ops = OnePointSpectra(type_eddy_lifetime=EddyLifetimeType.CONST, physical_params=PhysicalParameters(L=L, Gamma=1.0, sigma=0.3))
    ops.ops_grid_k2 = ops.ops_grid_k2 / L
    ops.ops_grid_k3 = ops.ops_grid_k3 / L
    with torch.no_grad():
        return ops(torch.tensor(ks) / L)[0].numpy()


ks = [0.5, 0.55, 0.6, 0.7]
a, b = spectra(1.0, ks), spectra(1000.0, ks)
r = b / a / (b[0] / a[0])
check(np.abs(r - 1).max() < 2e-3, f"a long length scale only rescales the spectra: {r}")
""",
)

plant(
    "c05-surrogate-range",
    "C05",
    "the power-law surrogate of a model whose length scale is not one",
    "the surrogate is fitted over a range of dimensional wave numbers, so its coefficients depend on the length scale at first use",
    [(OPS, "        kL_temp = np.logspace(-3, 3, 50)\n", "        kL_temp = np.logspace(-3, 3, 50) * self.LengthScale.item()\n")],
    """
from drdmannturb import EddyLifetimeType, PhysicalParameters
from drdmannturb.spectra_fitting import OnePointSpectra

kL = torch.tensor([[0.1, 0.0, 0.0], [1.0, 0.0, 0.0], [10.0, 0.0, 0.0]])
out = []
for L in (1.0, 0.2, 40.0):
    ops = OnePointSpectra(type_eddy_lifetime=EddyLifetimeType.MANN_APPROX, physical_params=PhysicalParameters(L=L, Gamma=1.0, sigma=0.3))
    with quiet(), torch.no_grad():
        out.append(np.asarray(ops.EddyLifetime(kL / L)).ravel())
check(np.allclose(out[0], out[1], rtol=1e-4) and np.allclose(out[0], out[2], rtol=1e-4), f"a function of kL only: {out}")
""",
)

plant(
    "c06-negative-separation",
    "C06",
    "a negative separation",
    "negative separations are treated as zero",
    [(OPS, "            phase = 1j * k2_grid * (r)", "            phase = 1j * k2_grid * max(r, 0.0)")],
    """
from drdmannturb import EddyLifetimeType, PhysicalParameters
from drdmannturb.spectra_fitting import OnePointSpectra

ops = OnePointSpectra(type_eddy_lifetime=EddyLifetimeType.CONST, physical_params=PhysicalParameters(L=0.6, Gamma=1.0, sigma=0.3), use_coherence=True)
with quiet(), torch.no_grad():
    c = ops.SpectralCoherence(torch.tensor([0.5, 2.0]), torch.tensor([-0.4, 0.4])).numpy()
check(np.allclose(c[:, 0], c[:, 1], rtol=1e-4), "coherence even in the separation")
""",
)

plant(
    "c06-frequency-threshold",
    "C06",
    "a coherence file with frequencies below a thousandth of a hertz",
    "the threshold below which a frequency counts as zero is raised, so low frequencies are reported as perfectly coherent",
    [(CAL, "            min_freq = 1e-6", "            min_freq = 1e-3")],
    _CAL
    + """
open("coh.dat", "w").write("sep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\\n" + "".join(
    f"{i} {j} {30.0 * i} {f} 0.5 0.5 0.5\\n" for i in range(4) for j, f in enumerate([5e-4, 2e-3, 1e-1])))
pb = problem("CONST", loss=dict(gamma_coherence=1.0), phys=dict(L=5.0, Gamma=1.0, Uref=10.0))
with quiet():
    pb.calibrate(generate_kaimal_spectra(torch.logspace(-1, 1, 5), 1.0, 1.0), coherence_data_file="coh.dat")
    k1 = torch.tensor([5e-4, 2e-3, 1e-1], dtype=torch.float64) / (2 * np.pi) / 10.0
    want = pb.OPS.SpectralCoherence(k1.float(), torch.tensor([0.0, 30.0, 60.0, 90.0])).detach().numpy()
got = pb.model_coherence_u.detach().numpy()
check(np.allclose(got, want[0], rtol=1e-3, atol=1e-5), f"model coherence at 5e-4 Hz: {got[:, 0]} against {want[0][:, 0]}")
""",
)

plant(
    "c07-curvature-spacing",
    "C07",
    "a curvature penalty on wave numbers that are not evenly spaced in the logarithm",
    "the second difference is divided by the spacing on one side instead of the mean spacing",
    [(LOSS, "        self.h2 = torch.diff(0.5 * (self.logk1[:-1] + self.logk1[1:]))", "        self.h2 = self.h1[1:]")],
    """
from drdmannturb.parameters import LossParameters
from drdmannturb.spectra_fitting import LossAggregator

for x in (np.linspace(-1, 1, 6), np.array([-1.0, -0.9, -0.2, 0.1, 1.3, 1.5])):
    la = LossAggregator(params=LossParameters(alpha_pen2=1.0), k1space=torch.exp(torch.tensor(x)), zref=1.0, tb_log_dir="log")
    y = torch.exp(torch.tensor(1.5 * x**2)).unsqueeze(0)
    got = la.Pen2ndOrder(y, 0).item()
    slope = np.diff(1.5 * x**2) / np.diff(x); mid = 0.5 * (x[1:] + x[:-1])
    want = np.mean((np.diff(slope) / np.diff(mid)) ** 2)
    check(abs(got / want - 1) < 1e-6, f"curvature penalty {got:.5f}, documented {want:.5f}")
""",
)

plant(
    "c07-outlier-clip",
    "C07",
    "a model that is off by more than a factor of e**5 from the data somewhere, as at the start of a fit with poor scales",
    "single squared log-ratios are clipped in the misfit",
    [(LOSS, "        mse_loss = torch.mean(torch.log(torch.abs(model / target)).square())", "        mse_loss = torch.mean(torch.log(torch.abs(model / target)).square().clamp(max=25.0))")],
    """
from drdmannturb.parameters import LossParameters
from drdmannturb.spectra_fitting import LossAggregator

la = LossAggregator(params=LossParameters(), k1space=torch.logspace(-1, 1, 4), zref=1.0, tb_log_dir="log")
for r in (2.0, 1e4):
    got = la.eval(torch.full((4, 4), r), torch.ones(4, 4), None, 0).item()
    check(abs(got / np.log(r) ** 2 - 1) < 1e-5, f"misfit {got:.4f} for a ratio of {r}")
""",
)

plant(
    "c07-first-data-kept",
    "C07",
    "a second calibration of the same problem with other data at the same wave numbers",
    "the data of the first calibration are kept and fitted again",
    [
        (CAL, "        self.data = data\n", '        self.data = data if getattr(self, "data", None) is None or len(self.data["k1"]) != len(data["k1"]) else self.data\n'),
        (CAL, '        data_ops = data["ops"]\n', '        data_ops = self.data["ops"]\n', 0),
    ],
    _CAL
    + """
d1 = generate_kaimal_spectra(torch.logspace(-1, 1, 6), 1.0, 1.0)
d2 = {**d1, "ops": 7.0 * d1["ops"]}
pb = problem("CONST")
with quiet():
    pb.calibrate(d1)
    a = pb.LossAggregator.component_losses["mse"][0]
    pb.calibrate(d2)
    b = pb.LossAggregator.component_losses["mse"][0]
    fresh = problem("CONST", log="log2")
    fresh.calibrate(d2)
    c = fresh.LossAggregator.component_losses["mse"][0]
check(abs(b / c - 1) < 1e-5, f"second calibration fits its own data: {b:.5f} against {c:.5f} (first {a:.5f})")
""",
)

plant(
    "c08-noise-on-reuse",
    "C08",
    "a problem calibrated a second time",
    "an optimiser's earlier result is perturbed when a problem is calibrated again although no noise was requested",
    [(CAL, "        self.e_count: int = 0\n", '        if hasattr(self, "calibrated_params"):\n            self.initialize_parameters_with_noise()  # leave the previous optimum\n        self.e_count: int = 0\n')],
    _CAL
    + """
d = generate_kaimal_spectra(torch.logspace(-1, 1, 6), 1.0, 1.0)
pb = problem("CONST")
with quiet():
    pb.calibrate(d)
    before = pb.parameters.copy()
    pb.calibrate(d)
check(np.array_equal(before, pb.parameters), "no epochs and no noise requested: parameters unchanged")
""",
)

plant(
    "c09-appended-file",
    "C09",
    "saving twice to the same place",
    "the file is opened for appending, so reading it back gives the first model saved there",
    [(CAL, '        with open(filename, "wb+") as file:', '        with open(filename, "ab+") as file:')],
    _CAL
    + """
import pickle, pathlib
pb = problem()
os.makedirs("d")
pb.save_model("d")
x = pb.parameters.copy(); x[0] = 0.25
pb.parameters = x
pb.save_model("d")
f = list(pathlib.Path("d").glob("*.pkl"))
check(len(f) == 1 and pickle.load(open(f[0], "rb"))[-1][0] == np.float32(0.25), "the file holds the model last saved")
""",
)

plant(
    "c10-config-cache",
    "C10",
    "one configuration dictionary used for two low-frequency generators with a setting changed in between",
    "the variance constant is stored in the caller's configuration and reused",
    [(LF, "        self.c = self._compute_c()", '        self.c = config.setdefault("_c", None) or self._compute_c()\n        config["_c"] = self.c')],
    """
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

cfg = dict(sigma2=1.0, L_2d=1000.0, psi=0.8, z_i=500.0, L1_factor=6, L2_factor=6, exp1=4, exp2=4)
a = LowFreqGenerator(cfg, seed=3).generate()[0].var()
cfg["sigma2"] = 9.0
b = LowFreqGenerator(cfg, seed=3).generate()[0].var()
check(abs(b / a - 9) < 1e-6, f"nine times the variance asked for: {b / a:.3f}")
""",
)

plant(
    "c10-reseed-global",
    "C10",
    "code that draws from numpy's global generator around the construction of a seeded field generator",
    "seeding a field also seeds numpy's global generator",
    [(GRF, "            self.prng.seed(seed)\n", "            self.prng.seed(seed)\n            np.random.seed(seed)\n")],
    _GEN
    + """
np.random.seed(99)
want = np.random.normal(size=3)
np.random.seed(99)
g = gen(seed=7)
check(np.array_equal(np.random.normal(size=3), want), "numpy's global stream undisturbed")
""",
)

plant(
    "c11-buffer-capped",
    "C11",
    "a buffer longer than the block, i.e. strong shear or a domain shorter than three shear lengths",
    "the buffer around a block is limited to the block's own length",
    [(FF, "        self.n_buffer = ceil((3 * Gamma * L) / dx)", "        self.n_buffer = min(ceil((3 * Gamma * L) / dx), int(Nx))")],
    _GEN
    + """
for G in (0.5, 6.0):
    g = gen(L=0.5, G=G)
    dx = 6.0 / 9
    want = 9 + 2 * int(np.ceil(3 * G * 0.5 / dx)) + 1
    blocks(g, 1)
    got = np.asarray(g.noise).shape[0]
    check(got == want, f"noise window of {got} planes, documented {want} (Gamma {G})")
""",
)

plant(
    "c12-zero-exponent",
    "C12",
    "a power-law profile with exponent zero (uniform mean wind)",
    "an exponent of zero is taken for a missing one and replaced by one seventh",
    [(FF, "            mean_profile_z = self.power_law(z_space, zref, uref, plexp)", "            mean_profile_z = self.power_law(z_space, zref, uref, plexp or 1 / 7)")],
    _GEN
    + """
a = blocks(gen(), 1, uref=3.0, prof="PL", plexp=0.0)
b = blocks(gen(), 1, uref=5.0, prof="PL", plexp=0.0)
d = b[..., 0] - a[..., 0]
check(np.allclose(d[..., 1:], 2.0, atol=1e-5), f"uniform profile: difference between {d.min():.3f} and {d.max():.3f}")
""",
)

plant(
    "c12-rms-floor",
    "C12",
    "a spectrum amplitude so small that the raw field is below 1e-6",
    "the rms is bounded from below before the block is divided by it",
    [(FF, "        sd = np.sqrt(np.mean(curr_block**2))\n", "        sd = max(np.sqrt(np.mean(curr_block**2)), 1e-6)\n")],
    _GEN
    + """
def field(ustar):
    a = blocks(gen(ustar=ustar), 1, uref=1.0)
    b = blocks(gen(ustar=ustar), 1, uref=2.0)
    return 2 * a - b

for u in (1.0, 1e-8):
    f = field(u)
    check(abs(np.sqrt((f**2).mean()) - 1) < 1e-4, f"unit rms with friction velocity {u}: {np.sqrt((f**2).mean()):.6f}")
""",
)

plant(
    "c13-noise-consumed",
    "C13",
    "noise that the caller uses again after a sine-transform sampling",
    "the sine-transform sampler multiplies the caller's noise by the spectrum in place",
    [(SM, "        y = self.Spectrum * noise\n", "        y = np.multiply(noise, self.Spectrum, out=noise)\n", 0)],
    """
from drdmannturb.fluctuation_generation.covariance_kernels import Covariance
from drdmannturb.fluctuation_generation.gaussian_random_fields import GaussianRandomField


class K(Covariance):
    def __init__(self):
        self.ndim = 3
    def precompute_Spectrum(self, F):
        k = np.meshgrid(*F, indexing="ij")
        return 1.0 / (1.0 + k[0] ** 2 + k[1] ** 2 + k[2] ** 2)


for m in ("fft", "dct", "dst"):
    f = GaussianRandomField(Covariance=K(), grid_level=np.array([2, 2, 2]), grid_shape=np.array([5, 5, 5]), grid_dimensions=np.array([1.0, 2.0, 1.5]), sampling_method=m)
    f.reseed(3)
    n = f.sample_noise()
    keep = n.copy()
    f.sample(n)
    check(np.array_equal(n, keep), f"{m} leaves the noise alone")
""",
)

plant(
    "c14-window-offset",
    "C14",
    "requested domains padded by different amounts along the two directions",
    "the window is offset laterally by the streamwise margin",
    [(LF, "        start_y = (ny_computed - ny_requested) // 2", "        start_y = min((nx_computed - nx_requested) // 2, ny_computed - ny_requested)")],
    """
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

for f1, f2, e1, e2 in ((2, 2, 4, 4), (2, 4, 4, 5), (4, 1, 6, 4)):
    g = LowFreqGenerator(dict(sigma2=1.0, L_2d=1000.0, psi=0.8, z_i=500.0, L1_factor=f1, L2_factor=f2, exp1=e1, exp2=e2), seed=3)
    u, v = g.generate()
    n, m = g.u1_full.shape
    a, b = (n - u.shape[0]) // 2, (m - u.shape[1]) // 2
    check(np.array_equal(u, g.u1_full[a : a + u.shape[0], b : b + u.shape[1]]), f"centred window for factors {f1}, {f2}")
""",
)

plant(
    "c15-padded-length",
    "C15",
    "a requested domain smaller than five length scales along the stream, so that the computational grid is longer",
    "the estimator is scaled with the length of the computational domain instead of the field's own",
    [(LF, "        scaling_factor = self.user_L1 /", "        scaling_factor = self.comp_L1 /")],
    """
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

for f in (6, 2):
    g = LowFreqGenerator(dict(sigma2=1.0, L_2d=1000.0, psi=0.8, z_i=500.0, L1_factor=f, L2_factor=f, exp1=5, exp2=5), seed=3)
    u, v = g.generate()
    k, F11, F22 = g.compute_spectrum()
    w = np.full(len(k), 2.0); w[-1] = 1.0
    U = np.fft.fft2(u)
    want = (np.abs(U[1:]) ** 2).sum() / u.size**2
    got = (w * F11).sum() * (2 * np.pi / (f * 1000.0)) * 1.0
    check(abs(got / want - 1) < 0.1, f"variance conserved for {f} length scales: {got / want:.3f}")
""",
)

plant(
    "c16-padded-centre",
    "C16",
    "a low-frequency domain narrower than five length scales, so that its computational grid is wider",
    "the block is centred in the computational width instead of the requested one",
    [(FF, "                y_center_2d = L_2d_y / 2.0", "                y_center_2d = self.low_freq_gen.comp_L2 / 2.0")],
    _GEN
    + """
for f2 in (6, 2):
    cfg = dict(sigma2=0.6, L_2d=20.0, psi=0.7, z_i=5.0, L1_factor=6, L2_factor=f2, exp1=5, exp2=5)
    a = blocks(gen(), 1)
    g = gen(config_2d_model=dict(cfg))
    b = blocks(g, 1)
    y0 = 20.0 * f2 / 2 - 1.5
    want = g.low_freq_gen.interp_slice(np.arange(9) * 6.0 / 9, y0 + np.arange(9) * 3.0 / 9)[0]
    check(np.allclose((b - a)[..., 0, 0], want, atol=1e-4), f"centred laterally in a domain of {f2} length scales")
""",
)

plant(
    "c17-gap-zero",
    "C17",
    "a coherence file with missing rows",
    "missing values of the third component are filled with zero",
    [(CAL, "            coh_w = np.full((n_seps, n_freqs), np.nan)", "            coh_w = np.zeros((n_seps, n_freqs))")],
    _CAL
    + """
rows = [f"{i} {j} {10.0 * i} {0.1 * (j + 1)} 0.5 0.4 0.3\\n" for i in range(4) for j in range(3) if (i, j) != (2, 1)]
open("coh.dat", "w").write("sep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\\n" + "".join(rows))
pb = problem("CONST")
with quiet():
    pb.load_coherence_data("coh.dat")
for c in "uvw":
    check(np.isnan(getattr(pb, "coherence_" + c)[2, 1]), f"missing value of {c} stays missing")
""",
)

plant(
    "c18-arange-grid",
    "C18",
    "a spacing for which n times the spacing is not exactly representable, with unlucky rounding",
    "grid coordinates are built with arange over the extent, which gives one point too many for some spacings",
    [(WP, "    y = np.array([spacing[1] * n for n in range(shape[1])])", "    y = np.arange(0.0, spacing[1] * shape[1], spacing[1])")],
    """
from drdmannturb.fluctuation_generation import create_grid

for h in np.random.default_rng(1).uniform(0.1, 2.0, 400):
    for n in (3, 5, 9, 17):
        X, Y, Z = create_grid((1.0, h, 1.0), (2, n, 2))
        check(Y.shape == (2, n, 2), f"{n} points of spacing {h}") if Y.shape != (2, n, 2) else None
print("ok")
""",
)

plant(
    "c18-edge-order",
    "C18",
    "the divergence on the boundary of the block",
    "one-sided differences at the boundary use another order than the documented default along the vertical",
    [(FF, "return np.ufunc.reduce(np.add, [np.gradient(field[..., i], spacing[i], axis=i) for i in range(3)])", "return np.ufunc.reduce(np.add, [np.gradient(field[..., i], spacing[i], axis=i, edge_order=1 + (i == 2)) for i in range(3)])")],
    _GEN
    + """
g = gen()
f = np.random.default_rng(0).normal(size=(6, 5, 4, 3))
got = g.evaluate_divergence((0.5, 0.3, 0.2), f)
want = sum(np.gradient(f[..., i], (0.5, 0.3, 0.2)[i], axis=i) for i in range(3))
check(np.allclose(got, want), "divergence is the sum of numpy's gradients")
""",
)

plant(
    "c19-missing-ignored",
    "C19",
    "calibration data with a missing value",
    "missing values are left out of the misfit instead of being refused",
    [(LOSS, "        mse_loss = torch.mean(torch.log(torch.abs(model / target)).square())", "        mse_loss = torch.nanmean(torch.log(torch.abs(model / target)).square())")],
    _CAL
    + """
d = generate_kaimal_spectra(torch.logspace(-1, 1, 6), 1.0, 1.0)
d["ops"][2, 1, 1] = float("nan")
pb = problem("CONST")
try:
    with quiet():
        pb.calibrate(d)
    refused = False
except (ValueError, RuntimeError):
    refused = True
check(refused, "data with a missing value refused")
""",
)

plant(
    "c20-window-ignored",
    "C20",
    "learning-rate advice asked for a window other than fifty",
    "the advice is always based on the last fifty evaluations",
    [(LOSS, "        diagnostics = self.get_loss_diagnostics(window)", "        diagnostics = self.get_loss_diagnostics()")],
    """
from drdmannturb.parameters import LossParameters
from drdmannturb.spectra_fitting import LossAggregator

la = LossAggregator(params=LossParameters(), k1space=torch.logspace(-1, 1, 4), zref=1.0, tb_log_dir="log")
for e in range(60):
    r = 3.0 if e < 40 else 3.0 * 0.9 ** (e - 40)
    la.eval(torch.full((4, 4), 1.0 + r), torch.ones(4, 4), None, e)
for w in (50, 20, 60):
    t = la.component_losses["total"][-w:]
    imp = (np.mean(t[: w // 2]) - np.mean(t[w // 2 :])) / np.mean(t[: w // 2])
    adv = la.should_adjust_learning_rate(100, w)
    print(w, imp, adv)
la2 = LossAggregator(params=LossParameters(), k1space=torch.logspace(-1, 1, 4), zref=1.0, tb_log_dir="log2")
for e in range(30):
    la2.eval(torch.full((4, 4), 4.0), torch.ones(4, 4), None, e)
check(la2.should_adjust_learning_rate(100, 20)["reason"] == "stagnation", "stagnation over the last twenty evaluations noticed after thirty")
""",
)

plant(
    "c20-thinned-log",
    "C20",
    "more than one recorded evaluation with network regularisation",
    "only every tenth value of the regularisation is written to the event log",
    [(LOSS, '        self.writer.add_scalar("Regularization", reg_loss, epoch)', '        if epoch % 10 == 0:\n            self.writer.add_scalar("Regularization", reg_loss, epoch)')],
    """
from drdmannturb.parameters import LossParameters
from drdmannturb.spectra_fitting import LossAggregator
from tensorboard.backend.event_processing.event_accumulator import EventAccumulator

la = LossAggregator(params=LossParameters(beta_reg=1.0), k1space=torch.logspace(-1, 1, 4), zref=1.0, tb_log_dir="log")
for e in range(7):
    la.eval(torch.full((4, 4), 2.0), torch.ones(4, 4), torch.ones(3) * e, e)
la.writer.flush()
ea = EventAccumulator("log"); ea.Reload()
n = len(ea.Scalars("Regularization"))
check(n == 7, f"{n} of 7 recorded values in the event log")
""",
)

plant(
    "c21-reference-moves",
    "C21",
    "the lifetime figure after the model's scales have changed",
    "the reference lifetime is drawn with the model's current length and time scales instead of the problem's",
    [(CAL, "self.phys_params.Gamma * MannEddyLifetime(self.phys_params.L * k_gd).cpu().detach().numpy()", "self.OPS.exp_scales()[1] * MannEddyLifetime(self.OPS.exp_scales()[0] * k_gd).cpu().detach().numpy()")],
    _CAL
    + """
import matplotlib
matplotlib.use("Agg")
pb = problem()
d = generate_kaimal_spectra(torch.logspace(-1, 1, 6), 1.0, 1.0)
with quiet():
    pb.calibrate(d)
    pb.plot()
    a = pb.lines_LT_ref.get_ydata().copy()
    x = pb.parameters.copy(); x[1] += 1.0
    pb.parameters = x
    pb.plot()
    b = pb.lines_LT_ref.get_ydata().copy()
check(np.allclose(a, b), f"reference unchanged ({b[0] / a[0]:.3f})")
""",
)

plant(
    "c21-file-stem",
    "C21",
    "a file name containing a dot",
    "everything after the last dot of the requested file name is dropped",
    [(CAL, '            base_filename = save_filename if save_filename else "drdmannturb_final_spectra_fit"', '            base_filename = Path(save_filename).stem if save_filename else "drdmannturb_final_spectra_fit"')],
    _CAL
    + """
import matplotlib
matplotlib.use("Agg")
pb = problem()
with quiet():
    pb.calibrate(generate_kaimal_spectra(torch.logspace(-1, 1, 6), 1.0, 1.0))
    pb.plot(save=True, save_dir="pics", save_filename="fit_nu0.5", plot_tau=False)
check(os.listdir("pics") == ["fit_nu0.5_spectra.png"], f"named file written: {os.listdir('pics')}")
""",
)
