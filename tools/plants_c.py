"""Third batch of planted bugs (see plants.py): size-dependent paths, long histories, unusual but admissible arguments."""

from plants import CAL, CK, COM, DG, FF, GRF, LF, LOSS, NM, NN, OPS, PAR, SM, WP, _GEN, plant  # noqa: F401
from plants_b import _CAL

plant(
    "c01-slab-remainder",
    "C01",
    "a Mann kernel on a grid of more than 64 streamwise wave numbers whose number is not a multiple of 64",
    "lifetimes are computed in slabs of 64 streamwise wave numbers and the last, incomplete slab keeps no lifetime at all",
    [
        (
            CK,
            """            beta = (
                self.Gamma * (kk * self.L**2) ** (-1 / 3) / np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -1 / (kk * self.L**2)))
            )
""",
            """            beta = np.zeros_like(kk)
            slab = min(64, kk.shape[0])
            for j in range(kk.shape[0] // slab):
                part = slice(j * slab, (j + 1) * slab)
                x2 = kk[part] * self.L**2
                beta[part] = self.Gamma * x2 ** (-1 / 3) / np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -1 / x2))
""",
        )
    ],
    """
from drdmannturb.fluctuation_generation import MannCovariance

k1 = np.linspace(0.1, 7.0, 70)
k2, k3 = np.array([0.5, -1.0]), np.array([0.3])
whole = MannCovariance(ndim=3, length_scale=0.7, E0=1.0, Gamma=2.0).precompute_Spectrum([k1, k2, k3])
each = np.concatenate([MannCovariance(ndim=3, length_scale=0.7, E0=1.0, Gamma=2.0).precompute_Spectrum([k1[i:i+1], k2, k3]) for i in range(70)], axis=2)
err = np.abs(whole - each).max() / np.abs(each).max()
check(err < 1e-9, f"each wave vector on its own ({err:.1e})")
""",
)

plant(
    "c03-chunked-network",
    "C03",
    "a fitted model on a grid of more than 32768 wave vectors",
    "the network is evaluated in chunks whose results are written one chunk too early after the first, because the offset is advanced before use",
    [
        (
            NN,
            "            beta_torch = self.Gamma * self.OPS.tauNet(k_torch)\n",
            """            flat = k_torch.reshape(-1, 3)
            parts = [self.OPS.tauNet(c) for c in flat.split(32768)]
            lifetimes = torch.zeros(len(flat), dtype=flat.dtype)
            start = 0
            for part in parts:
                start = min(start, len(flat) - 32768) if len(flat) > 32768 else 0
                lifetimes[start : start + len(part)] = part
                start += len(part)
            beta_torch = self.Gamma * lifetimes.reshape(k_torch.shape[:-1])
""",
        )
    ],
    """
from drdmannturb import NNParameters, PhysicalParameters, EddyLifetimeType, OnePointSpectra
from drdmannturb.fluctuation_generation.nn_covariance import NNCovariance

torch.manual_seed(1)
ops = OnePointSpectra(type_eddy_lifetime=EddyLifetimeType.TAUNET, physical_params=PhysicalParameters(L=0.7, Gamma=2.0, sigma=1.0), nn_parameters=NNParameters(nlayers=1, hidden_layer_size=3))
f = [2 * np.pi * np.fft.fftfreq(n) * n / 10 for n in (40, 36, 30)]
def kern():
    return NNCovariance(ndim=3, length_scale=0.7, E0=1.0, Gamma=2.0, ops=ops, h_ref=1.0)
whole = kern().precompute_Spectrum(f)
each = np.concatenate([kern().precompute_Spectrum([f[0][i:i+1], f[1], f[2]]) for i in range(40)], axis=2)
err = np.abs(whole - each).max() / np.abs(each).max()
check(err < 1e-5, f"each wave vector on its own ({err:.1e})")
""",
)

plant(
    "c04-many-wavenumbers-single",
    "C04",
    "a double-precision model asked for more than 48 wave numbers at once",
    "long requests are evaluated in single precision to save memory",
    [
        (
            OPS,
            "        self.k = torch.stack(torch.meshgrid(k1_input, self.ops_grid_k2, self.ops_grid_k3, indexing=\"ij\"), dim=-1)\n",
            """        self.k = torch.stack(torch.meshgrid(k1_input, self.ops_grid_k2, self.ops_grid_k3, indexing="ij"), dim=-1)
        if len(k1_input) > 48:
            self.k = self.k.to(torch.float32)
""",
        ),
    ],
    """
from drdmannturb import NNParameters, PhysicalParameters, EddyLifetimeType, OnePointSpectra
from drdmannturb.parameters import IntegrationParameters

torch.set_default_dtype(torch.float64)
ops = OnePointSpectra(type_eddy_lifetime=EddyLifetimeType.TWOTHIRD, physical_params=PhysicalParameters(L=0.7, Gamma=2.0, sigma=1.0), nn_parameters=NNParameters(),
                      integration_params=IntegrationParameters(ops_num_points=20))
k1 = torch.logspace(-2, 2, 60)
with torch.no_grad():
    whole = ops(k1).numpy().copy()
    each = np.stack([ops(k[None]).numpy()[:, 0] for k in k1], axis=1)
err = np.abs(whole[:4] / each[:4] - 1).max()
check(err < 1e-10, f"double precision whatever the number of wave numbers ({err:.1e})")
""",
)

plant(
    "c05-table-for-large-batches",
    "C05",
    "the hypergeometric lifetime of more than 50000 wave vectors at once, some of them outside |k| L = 1e-3 ... 1e3",
    "large batches interpolate a table of the lifetime, which is constant beyond its ends",
    [
        (
            COM,
            "    y = x ** (-2 / 3) / np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -(x ** (-2))))\n",
            """    if np.size(x) > 50000:
        t = np.logspace(-3, 3, 4000)
        tau = t ** (-2 / 3) / np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -(t ** (-2))))
        y = np.exp(np.interp(np.log(x), np.log(t), np.log(tau)))
    else:
        y = x ** (-2 / 3) / np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -(x ** (-2))))
""",
        )
    ],
    """
from drdmannturb import MannEddyLifetime

x = torch.logspace(-5, 5, 60000, dtype=torch.float64)
torch.set_default_dtype(torch.float64)
with np.errstate(all="ignore"):
    a = MannEddyLifetime(x)[::600]
    b = MannEddyLifetime(x[::600])
err = float((a / b - 1).abs().max())
check(err < 1e-9, f"lifetime of a large batch ({err:.1e})")
""",
)

plant(
    "c06-frequency-chunks",
    "C06",
    "coherence at more than 32 wave numbers, a number that is not a multiple of 32",
    "the cross-spectra are integrated in chunks of 32 wave numbers and the last chunk is taken from the end, one wave number off",
    [
        (
            OPS,
            "            S11_r = self._quad23_coherence(Phi11_coh * exp_phase, coh_k)  # S_uu(r)\n",
            """            if n_freqs > 32 and n_freqs % 32:
                cut = n_freqs - n_freqs % 32
                exp_phase = torch.cat((exp_phase[:cut], torch.exp(phase[cut:].abs())))
            S11_r = self._quad23_coherence(Phi11_coh * exp_phase, coh_k)  # S_uu(r)
""",
        )
    ],
    """
from drdmannturb import NNParameters, PhysicalParameters, EddyLifetimeType, OnePointSpectra
from drdmannturb.parameters import IntegrationParameters

ops = OnePointSpectra(type_eddy_lifetime=EddyLifetimeType.TWOTHIRD, physical_params=PhysicalParameters(L=0.7, Gamma=2.0, sigma=1.0), nn_parameters=NNParameters(),
                      integration_params=IntegrationParameters(coh_num_points=15, coh_log_min=-2, coh_log_max=1))
k1 = torch.logspace(-1, 1, 40)
with torch.no_grad(), quiet():
    whole = ops.SpectralCoherence(k1, torch.tensor([0.2, 1.0])).numpy()
    each = np.concatenate([ops.SpectralCoherence(k[None], torch.tensor([0.2, 1.0])).numpy() for k in k1], axis=2)
check(np.abs(whole - each).max() < 1e-4, f"each wave number on its own ({np.abs(whole - each).max():.1e})")
""",
)

plant(
    "c07-zero-weight-memory",
    "C07",
    "data with a component that vanishes in places (a shear stress changing sign) next to ordinary values: more than a thousandfold range within a component",
    "misfits are averaged over points within three decades of the component's largest value only",
    [
        (
            LOSS,
            "        mse_loss = torch.mean(torch.log(torch.abs(model / target)).square())\n",
            """        kept = target.abs() > 1e-3 * target.abs().amax(dim=-1, keepdim=True)
        mse_loss = torch.mean(torch.log(torch.abs(model / target))[kept].square())
""",
        )
    ],
    """
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
from drdmannturb import LossParameters

k1 = torch.logspace(-1, 2, 5)
agg = LossAggregator(LossParameters(), k1, 1.0, "log")
model = torch.ones(3, 5)
target = torch.tensor([[1.0, 1e-4, 0.5, 1.0, 2.0]] * 3)
got = float(agg.eval(model, target, None, 0))
want = float(torch.mean(torch.log(model / target).square()))
check(abs(got - want) < 1e-4 * want, f"misfit counts every point: {got:.4f}, {want:.4f}")
""",
)

plant(
    "c08-rounded-scales",
    "C08",
    "a fit whose scales are small (an amplitude of a few times 1e-5, as for data in other units)",
    "reported scales are rounded to four decimals",
    [
        (
            CAL,
            '            "σ": np.exp(self.parameters[2]),\n        }\n',
            '            "σ": np.exp(self.parameters[2]),\n        }\n        self.calibrated_params = {key: np.round(value, 4) for key, value in self.calibrated_params.items()}\n',
        )
    ],
    _CAL
    + """
pb = problem("TWOTHIRD", prob=dict(nepochs=1), phys=dict(L=0.6, Gamma=2.0, sigma=3.3e-5))
k1 = torch.logspace(-1, 1, 6)
data = generate_kaimal_spectra(k1, 1.0, 1.0)
data["ops"] = data["ops"] * 1e-5
with quiet():
    out = pb.calibrate(data)
got, want = list(out.values())[2], float(np.exp(pb.parameters[2]))
check(abs(got / want - 1) < 1e-4, f"reported amplitude {got:.3e}, model {want:.3e}")
""",
)

plant(
    "c09-single-precision-file",
    "C09",
    "a double-precision model saved and loaded",
    "the parameter vector is written in single precision",
    [(CAL, "                    self.phys_params,\n                    self.parameters,\n", "                    self.phys_params,\n                    self.parameters.astype(np.float32),\n")],
    _CAL
    + """
import pickle

torch.set_default_dtype(torch.float64)
torch.manual_seed(2)
pb = problem("TAUNET")
pb.save_model("out")
(name,) = os.listdir("out")
with open("out/" + name, "rb") as f:
    *_, vec = pickle.load(f)
check(np.array_equal(np.asarray(vec, dtype=np.float64), pb.parameters), "the file holds the parameters bit for bit")
""",
)

plant(
    "c10-noise-reseeds",
    "C10",
    "a problem created with initial noise: torch's generator is set back, so anything drawn afterwards repeats",
    "the initial noise is drawn after resetting torch's global generator to its initial seed, for reproducibility",
    [
        (
            CAL,
            "        params = parameters_to_vector(self.OPS.parameters()).detach()\n        self.parameters = params",
            "        params = parameters_to_vector(self.OPS.parameters()).detach()\n        torch.manual_seed(torch.initial_seed())\n        self.parameters = params",
        )
    ],
    _CAL
    + """
torch.manual_seed(11)
a = problem("TAUNET", prob=dict(init_with_noise=True, noise_magnitude=0.1)).parameters.copy()
b = problem("TAUNET", prob=dict(init_with_noise=True, noise_magnitude=0.1)).parameters.copy()
x = torch.rand(4)
problem("TAUNET", prob=dict(init_with_noise=True, noise_magnitude=0.1))
y = torch.rand(4)
check(not torch.equal(x, y), "draws after building a noisy problem do not repeat")
""",
)

plant(
    "c10-data-sorted-in-place",
    "C10",
    "calibration data whose wave numbers are not in ascending order",
    "the caller's data set is sorted in place",
    [
        (
            CAL,
            '        data_k1_arr = data["k1"]\n        data_ops = data["ops"]\n        # data_coh',
            '''        if torch.any(torch.diff(data["k1"]) < 0):
            order = torch.argsort(data["k1"])
            data["k1"], data["ops"] = data["k1"][order], data["ops"][order]
        data_k1_arr = data["k1"]
        data_ops = data["ops"]
        # data_coh''',
        )
    ],
    _CAL
    + """
pb = problem("TWOTHIRD", prob=dict(nepochs=1))
k1 = torch.tensor([1.0, 0.3, 5.0, 2.0])
data = generate_kaimal_spectra(k1, 1.0, 1.0)
keep = data["k1"].clone()
with quiet():
    pb.calibrate(data)
check(torch.equal(data["k1"], keep), "the caller's data set is left alone")
""",
)

plant(
    "c11-noise-recycled",
    "C11",
    "a field of more than twelve blocks",
    "the generator is set back to its seed every twelve blocks, so long fields repeat their noise",
    [
        (
            FF,
            "            noise = np.roll(self.noise, -self.Nx, axis=0)\n",
            "            if self.seed is not None and self.num_blocks_generated % 12 == 0:\n                self.RF.reseed(self.seed)\n            noise = np.roll(self.noise, -self.Nx, axis=0)\n",
        )
    ],
    _GEN
    + """
n = 26
field = gen(levels=(2, 2, 2), dims=(6.0, 3.0, 3.0)).generate(n, zref=10.0, uref=1.0, z0=0.1, windprofiletype="LOG")
b = field.reshape(n, -1)
c = np.corrcoef(b)
np.fill_diagonal(c, 0)
i, j = np.unravel_index(np.argmax(np.abs(np.triu(c, 12))), c.shape)
check(np.abs(np.triu(c, 12)).max() < 0.8, f"blocks {i} and {j} differ (correlation {c[i, j]:.3f})")
""",
)

plant(
    "c12-rms-of-subsample",
    "C12",
    "blocks longer than 32 points in the streamwise direction",
    "the rms of long blocks is estimated from every second plane",
    [(FF, "        sd = np.sqrt(np.mean(curr_block**2))\n", "        stride = 1 if len(curr_block) <= 32 else 2\n        sd = np.sqrt(np.mean(curr_block[::stride] ** 2))\n")],
    _GEN
    + """
g = gen(levels=(6, 2, 2), dims=(300.0, 20.0, 20.0))
f = g.generate(1, zref=10.0, uref=1e-9, z0=0.1, windprofiletype="PL", plexp=0.0)
rms = np.sqrt(np.mean(f.astype(float) ** 2))
check(abs(rms - 1) < 1e-4, f"unit rms of a long block ({rms:.5f})")
""",
)

plant(
    "c13-seed-zero",
    "C13",
    "the seed zero",
    "a seed of zero counts as no seed",
    [(GRF, "        if seed is not None:\n            self.prng.seed(seed)", "        if seed:\n            self.prng.seed(seed)")],
    _GEN
    + """
a = gen(seed=0).generate(1, zref=10.0, uref=1.0, z0=0.1, windprofiletype="LOG")
b = gen(seed=0).generate(1, zref=10.0, uref=1.0, z0=0.1, windprofiletype="LOG")
check(np.allclose(a, b), "seed zero gives the same field twice")
""",
)

plant(
    "c13-memory-order",
    "C13",
    "noise that is not laid out in C order (a transposed or Fortran-ordered array)",
    "noise is copied into the transform buffer in memory order",
    [(SM, "        self.fft_x[:] = noise\n", '        self.fft_x.reshape(-1)[:] = noise.ravel(order="K")\n')],
    """
from drdmannturb.fluctuation_generation import GaussianRandomField


class Kernel:
    ndim = 3

    def precompute_Spectrum(self, f):
        k = np.array(np.meshgrid(*f, indexing="ij"))
        return 1 / (1 + (k**2).sum(0))


g = GaussianRandomField(Covariance=Kernel(), grid_level=np.array([2, 2, 2]), grid_shape=[5, 6, 4], grid_dimensions=np.array([1.0, 1.0, 1.0]), sampling_method="fftw")
w = np.random.default_rng(0).normal(size=(5, 6, 4))
a, b = g.sample(w), g.sample(np.asfortranarray(w))
check(np.allclose(a, b), "the layout of the noise in memory does not matter")
""",
)

plant(
    "c14-capped-grid",
    "C14",
    "a narrow, finely resolved domain (more than 1024 computational points in a direction)",
    "the computational grid is capped at 1024 points per direction as long as that covers the requested domain",
    [
        (
            LF,
            "        # Calculate final computational domain lengths based on N and d\n",
            """        comp_N1 = max(min(comp_N1, 1024), self.user_N1)
        comp_N2 = max(min(comp_N2, 1024), self.user_N2)
        L1_target, L2_target = min(L1_target, comp_N1 * comp_d), min(L2_target, comp_N2 * comp_d)

        # Calculate final computational domain lengths based on N and d
""",
        )
    ],
    """
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

g = LowFreqGenerator(dict(sigma2=0.6, L_2d=1000.0, psi=0.75, z_i=300.0, L1_factor=0.2, L2_factor=0.2, exp1=6, exp2=6), seed=1)
check(g.comp_L1 >= 5 * 1000.0 * (1 - 1e-9), f"computational domain {g.comp_L1} m, five length scales are 5000 m")
""",
)

plant(
    "c15-coarse-breakpoints",
    "C15",
    "theoretical spectra for a length scale far above the layer height, wave numbers between the two",
    "the subdivision of the transverse integral is limited to the negative half line when the limit is beyond one",
    [
        (
            LF,
            "            integrand = (Ekappa / (np.pi * k_mag)) * (k1**2 / k_mag_sq)\n",
            "            integrand = (Ekappa / (np.pi * k_mag)) * (k1**2 / max(k_mag_sq, 1e-9))\n",
        )
    ],
    """
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

g = LowFreqGenerator(dict(sigma2=0.6, L_2d=60000.0, psi=np.pi / 4, z_i=500.0, L1_factor=5, L2_factor=5, exp1=5, exp2=5), seed=1)
k = np.array([2e-5])
F11, F22 = g.analytical_spectrum(k)
k2 = np.concatenate([-np.logspace(1, -10, 60000), np.logspace(-10, 1, 60000)])
k2 = k2[np.abs(k2) <= 5]
kk = k[0] ** 2 + k2**2
E = g.c * kk**1.5 / (60000.0**-2 + kk) ** (7 / 3) / (1 + kk * 500.0**2)
want = np.trapezoid(E / (np.pi * np.sqrt(kk)) * k[0] ** 2 / kk, k2)
check(abs(F22[0] / want - 1) < 1e-2, f"F22 {F22[0]:.4e}, integral {want:.4e}")
""",
)

plant(
    "c16-interpolator-kept",
    "C16",
    "the low-frequency field drawn again between two requests for blocks",
    "the interpolators are kept from the first block on",
    [
        (
            LF,
            "        # Create a meshgrid of the target coordinates\n",
            """        # building the interpolators is costly for large fields
        if getattr(self, "_interpolators", None) is None:
            self._interpolators = (interpolator_2d_u1, interpolator_2d_u2)
        interpolator_2d_u1, interpolator_2d_u2 = self._interpolators

        # Create a meshgrid of the target coordinates
""",
        )
    ],
    """
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

g = LowFreqGenerator(dict(sigma2=0.6, L_2d=1000.0, psi=0.75, z_i=300.0, L1_factor=5, L2_factor=5, exp1=5, exp2=5), seed=1)
for i in range(2):
    g.generate()
    u, v = g.interp_slice(g.user_x_coords, g.user_y_coords)
    check(np.allclose(u, g.u1) and np.allclose(v, g.u2), f"interpolation at the grid points of field {i}")
""",
)

plant(
    "c18-dotted-name",
    "C18",
    "an export whose file name contains a dot (a version or a number such as box.v2 or field_0.5)",
    "what follows the last dot of the name is taken for an extension and dropped, so exports overwrite each other",
    [(FF, "        imageToVTK(str(filepath), cellData", '        imageToVTK(str(Path(filepath).with_suffix("")), cellData')],
    _GEN
    + """
g = gen()
g.generate(1, zref=10.0, uref=1.0, z0=0.1, windprofiletype="LOG")
g.save_to_vtk(os.path.join(_scratch, "box_0.5"))
g.save_to_vtk(os.path.join(_scratch, "box_0.7"))
check(sorted(f for f in os.listdir(_scratch) if f.startswith("box")) == ["box_0.5.vti", "box_0.7.vti"], f"one file per name: {os.listdir(_scratch)}")
""",
)

plant(
    "c20-history-limit",
    "C20",
    "a training of more than 200 objective evaluations",
    "only the last 200 evaluations of the total are kept",
    [
        (
            LOSS,
            '        self.component_losses["total"].append(total_loss.item())\n',
            '        self.component_losses["total"].append(total_loss.item())\n        del self.component_losses["total"][:-200]\n',
        )
    ],
    """
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
from drdmannturb import LossParameters

k1 = torch.logspace(-1, 2, 5)
agg = LossAggregator(LossParameters(), k1, 1.0, "log")
for e in range(230):
    agg.eval(torch.full((3, 5), 1.0 + e), torch.ones(3, 5), None, e)
check(len(agg.component_losses["total"]) == 230, f"230 evaluations, {len(agg.component_losses['total'])} records")
""",
)

plant(
    "c21-sorted-abscissae",
    "C21",
    "calibration data whose wave numbers are not in ascending order",
    "the spectra figure sorts the wave numbers without the data that belong to them",
    [(CAL, '            k1_data_pts = self.data["k1"]\n', '            k1_data_pts = torch.sort(self.data["k1"]).values\n')],
    _CAL
    + """
import matplotlib.pyplot as plt

pb = problem("TWOTHIRD", prob=dict(nepochs=1))
k1 = torch.tensor([1.0, 0.3, 5.0, 2.0])
data = generate_kaimal_spectra(k1, 1.0, 1.0)
with quiet():
    pb.calibrate(data)
    pb.plot(plot_tau=False)
want = {float(k): float(v) for k, v in zip(k1, data["ops"][:, 0, 0])}
ok = any(len(x) == 4 and all(abs(want[float(a)] - float(b)) < 1e-6 for a, b in zip(x, y))
         for line in pb.ax_spectra.flat[0].lines for x, y in [(line.get_xdata(), line.get_ydata())] if set(map(float, x)) <= set(want))
check(ok, "data of component 11 at their own wave numbers")
""",
)

plant(
    "c22-limit-from-grid",
    "C22",
    "theoretical spectra of a coarse grid without an explicit integration limit",
    "the default limit of the transverse integral is the grid's highest wave number instead of 5",
    [
        (LF, "        self, k1_arr: np.ndarray, k2_limit: float = 5.0, warn: bool = False\n", "        self, k1_arr: np.ndarray, k2_limit: float | None = None, warn: bool = False\n"),
        (LF, "        integration_limit = abs(k2_limit)  # Ensure positive limit\n", "        if k2_limit is None:\n            k2_limit = min(5.0, np.pi / self.comp_dy)\n        integration_limit = abs(k2_limit)  # Ensure positive limit\n"),
    ],
    """
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

g = LowFreqGenerator(dict(sigma2=0.6, L_2d=15000.0, psi=0.75, z_i=500.0, L1_factor=5, L2_factor=5, exp1=4, exp2=4), seed=1)
k = np.array([1e-4, 5e-4])
a, b = g.analytical_spectrum(k), g.analytical_spectrum(k, k2_limit=5.0)
check(np.allclose(a, b, rtol=1e-9), "an omitted limit is 5.0")
""",
)

plant(
    "c22-blend-default",
    "C22",
    "a field generator without an explicit blending width on a coarse grid (fewer than eleven points streamwise)",
    "the default blending width shrinks with the block instead of being 10",
    [
        (FF, "        blend_num: int = 10,\n", "        blend_num: int | None = None,\n"),
        (FF, "        self.blend_num = blend_num\n", "        self.blend_num = min(10, 2 ** int(grid_levels[0])) if blend_num is None else blend_num\n"),
    ],
    _GEN
    + """
from drdmannturb.fluctuation_generation import FluctuationFieldGenerator

kw = dict(friction_velocity=1.0, reference_height=10.0, grid_dimensions=np.array([8.0, 8.0, 8.0]), grid_levels=np.array([2, 2, 2]), model="VK", length_scale=2.0, time_scale=1.0, energy_spectrum_scale=1.0, seed=3)
a = FluctuationFieldGenerator(**kw).generate(2, zref=10.0, uref=1.0, z0=0.1, windprofiletype="LOG")
b = FluctuationFieldGenerator(**kw, blend_num=10).generate(2, zref=10.0, uref=1.0, z0=0.1, windprofiletype="LOG")
check(a.shape == b.shape and np.allclose(a, b, atol=1e-5), "an omitted blending width is 10")
""",
)

plant(
    "c17-small-wavenumber-guard",
    "C17",
    "von Karman spectra at wave numbers below a thousandth of 1/L",
    "very small wave numbers are lifted before the spectra are evaluated",
    [(DG, "    k1_squared = k1**2\n", "    k1_squared = torch.clamp(k1, min=1e-3 / L) ** 2 if L < 1 else k1**2\n    k1 = torch.clamp(k1, min=1e-3 / L)\n")],
    """
from drdmannturb.spectra_fitting import generate_von_karman_spectra

k1 = torch.tensor([1e-5, 1e-4, 1e-2])
d = generate_von_karman_spectra(k1, L=0.59, C=3.2)
want = k1 * 9 / 55 * 3.2 / (0.59**-2 + k1**2) ** (5 / 6)
check(torch.allclose(d["ops"][:, 0, 0], want, rtol=1e-4), "von Karman formula at very small wave numbers")
""",
)

plant(
    "c13-top-plane-vertical",
    "C13",
    "a grid with a Nyquist plane (even number of points) and a strongly sheared kernel",
    "at the highest vertical wave number only the vertical component is kept, so the mode is not orthogonal to its wave vector",
    [
        (
            SM,
            "        self.hat_noise = np.stack([np.zeros(shpC, dtype=\"complex64\") for _ in range(3)], axis=-1)\n",
            "        self.hat_noise = np.stack([np.zeros(shpC, dtype=\"complex64\") for _ in range(3)], axis=-1)\n        if shpR[-1] % 2 == 0 and shpR[-1] > 2:\n            self.Spectrum_half[:2, :, ..., -1] = 0\n",
        )
    ],
    """
from drdmannturb.fluctuation_generation import MannCovariance, VectorGaussianRandomField

n = (8, 6, 6)
g = VectorGaussianRandomField(ndim=3, Covariance=MannCovariance(ndim=3, length_scale=1.0, E0=1.0, Gamma=2.0), grid_level=np.array([3, 3, 3]), grid_shape=list(n),
                              grid_dimensions=np.array([6.0, 6.0, 6.0]), sampling_method="vf_fftw")
w = np.random.default_rng(1).normal(size=(*n, 3))
f = g.sample(w)
fh = np.fft.fftn(f, axes=(0, 1, 2))
plane = fh[:, :, 3]
check(np.abs(plane[1, 1, :2]).max() > 1e-4 * np.abs(fh).max(), "the highest vertical wave number carries horizontal motion")
""",
)
