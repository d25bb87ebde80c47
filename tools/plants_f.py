"""Sixth batch of planted bugs (see plants.py)."""

from plants import CAL, FF, LOSS, SM, _GEN, plant

plant(
    "c11-seed-zero",
    "C11",
    "a generator seeded with 0",
    "a seed of 0 is taken for a missing seed, so the same construction gives different blocks every time",
    [(FF, "        self.RF.reseed(self.seed)\n", "        self.RF.reseed(self.seed or None)\n")],
    _GEN + "\ncheck(np.array_equal(blocks(gen(seed=0), 2), blocks(gen(seed=0), 2)), 'two generators seeded with 0 give the same blocks')\n",
)

plant(
    "c11-margin-capped",
    "C11",
    "a fine lateral grid whose margin exceeds 24 points",
    "the block is cut out of the padded volume after at most 24 points of margin, away from its documented place",
    [(FF, "            slice(self.n_margin_y, -self.n_margin_y),\n", "            slice(min(self.n_margin_y, 24), min(self.n_margin_y, 24) + Ny),\n")],
    _GEN
    + """
g = gen(levels=(2, 5, 2), dims=(2.0, 0.3, 1.0), L=0.5)
check(g.n_margin_y > 24, "wide margin")
s = g.central_part[1]
y = np.arange(g.noise_shape[1])[s]
check(y[0] == g.n_margin_y and len(y) == g.noise_shape[1] - 2 * g.n_margin_y, f"the block starts after its margin of {g.n_margin_y} points, not at {y[0]}")
noise, field = [], []
orig = g.RF.sample


def sample(noise=None):
    field.append(orig(noise).copy())
    return field[-1]


g.RF.sample = sample
b = g._generate_block()
m = g.n_margin_y
check(np.array_equal(b[:2], field[0][g.central_part[0], m : field[0].shape[1] - m, g.central_part[2]][:2]), "the block is the part of the sample behind the margin")
""",
)

plant(
    "c12-profile-exponent-kept",
    "C12",
    "a generator whose blocks are requested with different power-law exponents",
    "the power-law profile is kept per reference height and speed, so a later request with another exponent gets the first one's profile",
    [
        (
            FF,
            "            mean_profile_z = self.power_law(z_space, zref, uref, plexp)\n",
            '            key = (zref, uref)\n            if getattr(self, "_pl", (None,))[0] != key:\n                self._pl = key, self.power_law(z_space, zref, uref, plexp)\n            mean_profile_z = self._pl[1]\n',
        )
    ],
    _GEN
    + """
g = gen()
blocks(g, 1, 2.0, 9.0, prof="PL", plexp=0.1)
n = g.total_fluctuation.shape[0]
whole = blocks(g, 1, 2.0, 9.0, prof="PL", plexp=0.4)
h = gen()
blocks(h, 1, 2.0, 9.0, prof="PL", plexp=0.4)
other = blocks(h, 1, 2.0, 9.0, prof="PL", plexp=0.4)
check(np.allclose(whole[n:], other[n:], rtol=1e-6), "the second block has the profile of its own exponent")
""",
)

plant(
    "c13-thread-norm",
    "C13",
    "OMP_NUM_THREADS above 4",
    "the vector sampler scales its samples by the number of threads it uses beyond four",
    [
        (SM, '        n_cpu = int(os.environ.get("OMP_NUM_THREADS", 4))\n', '        n_cpu = self.n_cpu = int(os.environ.get("OMP_NUM_THREADS", 4))\n'),
        (SM, "        return tmp[self.DomainSlice] / self.TransformNorm\n", "        return tmp[self.DomainSlice] / (self.TransformNorm * max(1, self.n_cpu // 4))\n"),
    ],
    """
import drdmannturb as d


def sample(threads):
    os.environ["OMP_NUM_THREADS"] = str(threads)
    rf = d.VectorGaussianRandomField(vdim=3, ndim=3, grid_level=np.array([2, 2, 2]), grid_dimensions=np.array([3.0, 3.0, 3.0]), sampling_method="vf_fftw",
        Covariance=d.VonKarmanCovariance(ndim=3, length_scale=1.0, E0=1.0), grid_shape=np.array([8, 6, 4]))
    return np.array(rf.sample(np.random.default_rng(3).normal(0, 1, (8, 6, 4, 3))))


check(np.allclose(sample(1), sample(8), atol=1e-5), "the same sample with 1 and with 8 threads")
""",
)

plant(
    "c13-long-axis",
    "C13",
    "the scalar FFT sampler on a grid with more than 96 points in one direction",
    "the noise is transformed on at most 96 points per direction",
    [(SM, "        noise_hat = fft.ifftn(noise)\n", "        noise_hat = np.zeros(noise.shape, dtype=complex)\n        part = fft.ifftn(noise[:96, :96, :96])\n        noise_hat[:96, :96, :96] = part\n")],
    """
import drdmannturb as d


class Cov(d.Covariance):
    def __init__(self):
        super().__init__()
        self.ndim = 3

    def eval(self, *x):
        raise NotImplementedError

    def precompute_Spectrum(self, Frequencies):
        return 1 / (1 + sum(k * k for k in np.meshgrid(*Frequencies, indexing="ij")))


for n in ((8, 4, 4), (130, 3, 3)):
    rf = d.GaussianRandomField(Covariance=Cov(), ndim=3, grid_level=np.array([1, 1, 1]), grid_shape=np.array(n), grid_dimensions=np.array([3.0, 3.0, 3.0]), sampling_method="fft")
    r = np.random.default_rng(1)
    a, b = r.normal(0, 1, n), np.zeros(n)
    u = np.array(rf.sample(a))
    v = np.array(rf.sample(np.roll(a, 7, 0)))
    check(np.allclose(np.roll(u, 7, 0), v, atol=1e-9 * np.abs(u).max()), f"shifted noise gives the shifted field on {n}")
""",
)

_FIT = """
from drdmannturb.spectra_fitting import CalibrationProblem
from drdmannturb import LossParameters, NNParameters, PhysicalParameters, ProblemParameters, IntegrationParameters, EddyLifetimeType


def problem(logdir=None, loss=None, ustar=1.0, **prob):
    with quiet():
        return CalibrationProblem(device="cpu", prob_params=ProblemParameters(eddy_lifetime=EddyLifetimeType.CONST, num_components=3, **prob), nn_params=NNParameters(),
            loss_params=LossParameters(**(loss or {})), phys_params=PhysicalParameters(L=1.0, Gamma=2.0, sigma=1.0, ustar=ustar, domain=torch.logspace(-1, 1, 4)),
            integration_params=IntegrationParameters(ops_num_points=5), logging_directory=logdir or os.path.join(_scratch, "runs"))


k1 = torch.logspace(-1, 1, 4)
ops = torch.zeros(4, 3, 3)
for i, s in enumerate((1.0, 0.6, 0.4)):
    ops[:, i, i] = s / (1 + k1) ** (5 / 3)
ops[:, 0, 2] = ops[:, 2, 0] = -0.1 / (1 + k1) ** 2
"""

plant(
    "c20-step-count-kept",
    "C20",
    "calibrating the same problem a second time",
    "the evaluation counter is not started again, so the events of the second fit are logged at steps that continue the first fit",
    [(CAL, "        self.e_count: int = 0\n", '        self.e_count: int = getattr(self, "e_count", 0)\n')],
    _FIT
    + """
import time
from tensorboard.backend.event_processing.event_accumulator import EventAccumulator

tb = os.path.join(_scratch, "tb")
pb = problem(tb, nepochs=4, tol=0.0)
steps = []
for j in range(2):
    before = set(os.listdir(tb)) if os.path.isdir(tb) else set()
    with quiet():
        pb.calibrate({"k1": k1, "ops": ops}, optimizer_class=torch.optim.Adam)
    pb.LossAggregator.writer.close()
    new = [f for f in os.listdir(tb) if f not in before]
    acc = EventAccumulator(os.path.join(tb, new[0]))
    acc.Reload()
    steps.append([e.step for e in acc.Scalars("MSE Loss")])
    time.sleep(1.1)
check(steps[0] == steps[1], f"both fits log the same steps: {steps}")
""",
)

plant(
    "c20-advice-adam-only",
    "C20",
    "an LBFGS fit of fifty epochs or more whose loss stagnates",
    "the advice on the learning rate is followed with the Adam optimiser only",
    [(CAL, "            if epoch % 50 == 0:", "            if epoch % 50 == 0 and OptimizerClass is not torch.optim.LBFGS:")],
    _FIT
    + """
pb = problem(nepochs=52, tol=0.0, wolfe_iter_count=1, learning_rate=1e-6)
out = io.StringIO()
rates = []
step = torch.optim.LBFGS.step
torch.optim.LBFGS.step = lambda opt, *a, **k: (rates.append(opt.param_groups[0]["lr"]), step(opt, *a, **k))[1]
with contextlib.redirect_stdout(out):
    pb.calibrate({"k1": k1, "ops": ops}, optimizer_class=torch.optim.LBFGS)
adv = pb.LossAggregator.should_adjust_learning_rate(50)
check(adv["adjust"], f"the fit stagnates: {adv}")
want = 1e-6 * 0.5 * (1 + np.cos(np.pi * 50 / 52)) * adv["factor"]
check(abs(rates[50] - want) < 0.02 * want, f"learning rate {rates[50]} after the advice, {want} expected")
""",
)

plant(
    "c19-gap-ignored",
    "C19",
    "coherence data with a missing separation-frequency pair",
    "missing coherence values are left out of the misfit, so a fit to incomplete data is accepted silently",
    [
        (LOSS, f"        mse_{c} = torch.mean((model_coherence_{c} - data_coherence_{c}) ** 2)\n", f"        mse_{c} = torch.nanmean((model_coherence_{c} - data_coherence_{c}) ** 2)\n")
        for c in "uvw"
    ],
    _FIT
    + """
path = os.path.join(_scratch, "coh.dat")


def fit(gap):
    with open(path, "w") as f:
        f.write("# coherence\\n# data\\nsep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\\n")
        for i, s in enumerate((0.1, 0.3, 0.5, 1.0)):
            for j, q in enumerate((1.0, 2.0, 5.0)):
                if not (gap and (i, j) == (1, 2)):
                    f.write(f"{i} {j} {s} {q} 0.5 0.4 0.3\\n")
    pb = problem(loss=dict(gamma_coherence=1.0), nepochs=2)
    with quiet():
        pb.calibrate({"k1": k1, "ops": ops}, coherence_data_file=path)


fit(False)
try:
    fit(True)
except (ValueError, RuntimeError) as e:
    check(True, f"refused: {e}")
else:
    check(False, "coherence data with a gap is refused")
""",
)

plant(
    "c21-ustar-floor",
    "C21",
    "a problem whose friction velocity is below 0.1",
    "the plotted model spectra are normalised by a friction velocity of at least 0.1",
    [(CAL, "self.OPS(k1_data_pts) / self.phys_params.ustar**2.0", "self.OPS(k1_data_pts) / max(self.phys_params.ustar, 0.1) ** 2.0")],
    _FIT
    + """
import matplotlib.pyplot as plt

lines = []
for u in (1.0, 0.02):
    pb = problem(ustar=u)
    with quiet():
        pb.plot((k1[:, None], ops), plot_tau=False)
    model = [ln for ax in plt.gcf().axes[:1] for ln in ax.lines]
    lines.append((u, [np.asarray(ln.get_ydata(), float) for ln in model], np.asarray(pb.eval(k1), float)))
    plt.close("all")
for u, ys, m in lines:
    want = m[0] / u**2
    ok = any(y.shape == want.shape and np.allclose(y, want, rtol=1e-4) for y in ys)
    check(ok, f"model curve at friction velocity {u}")
""",
)
