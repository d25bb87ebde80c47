"""Fourth batch of planted bugs (see plants.py)."""

from plants import CAL, CK, COM, DG, FF, GRF, LF, LOSS, NM, NN, OPS, PAR, SM, WP, _GEN, plant  # noqa: F401
from plants_b import _CAL

plant(
    "c05-sign-of-single",
    "C05",
    "the lifetime of a single wave vector (no batch axis) with a negative component",
    "the absolute value is taken for batches of wave vectors only",
    [(NM, "        k_mod = self._mlp_forward(k.abs()).norm(dim=-1)", "        k_mod = self._mlp_forward(k if k.dim() == 1 else k.abs()).norm(dim=-1)")],
    _CAL
    + """
torch.manual_seed(3)
pb = problem()
with torch.no_grad():
    for p in pb.OPS.tauNet.parameters():
        p += 0.2 * torch.randn_like(p)
    k = torch.tensor([[0.7, 0.4, -1.1], [-0.3, 0.9, 0.6]])
    both = pb.OPS.EddyLifetime(k)
    each = torch.stack([pb.OPS.EddyLifetime(x) for x in k])
check(torch.allclose(both, each, rtol=1e-4), f"a wave vector on its own {each.tolist()} has the lifetime it has in a batch {both.tolist()}")
""",
)

plant(
    "c05-lifetime-memo",
    "C05",
    "two batches of wave numbers of one shape that agree in their smallest and largest value",
    "the hypergeometric lifetime is remembered and recognised by shape, minimum and maximum",
    [
        (COM, "    x = kL.cpu().detach().numpy() if torch.is_tensor(kL) else kL\n", """    x = kL.detach().cpu().numpy() if torch.is_tensor(kL) else kL
    key = (np.shape(x), float(np.min(x)), float(np.max(x))) if torch.is_tensor(kL) and np.size(x) else None
    if key is not None and _known.get("key") == key:
        return _known["value"].clone()
"""),
        (COM, "    y = torch.tensor(y, dtype=torch.get_default_dtype()) if torch.is_tensor(kL) else y\n", """    y = torch.tensor(y, dtype=torch.get_default_dtype()) if torch.is_tensor(kL) else y
    if key is not None:
        _known.update(key=key, value=y.clone())
"""),
        (COM, "def MannEddyLifetime(", "_known: dict = {}\n\n\ndef MannEddyLifetime("),
    ],
    """
from drdmannturb.common import MannEddyLifetime

a, b = torch.tensor([0.1, 0.5, 3.0, 9.0]), torch.tensor([0.1, 2.0, 0.7, 9.0])
MannEddyLifetime(a)
got, want = MannEddyLifetime(b), torch.tensor([float(MannEddyLifetime(x.reshape(1))) for x in b])
check(torch.allclose(got, want, rtol=1e-4), f"lifetimes {got.tolist()} against one by one {want.tolist()}")
""",
)

plant(
    "c10-grid-kept",
    "C10",
    "one model evaluated on two sets of wave numbers that agree in number and in their first and last value",
    "the wave-vector grid of the last evaluation is kept when number and ends of the wave numbers agree",
    [
        (
            OPS,
            '        self.k = torch.stack(torch.meshgrid(k1_input, self.ops_grid_k2, self.ops_grid_k3, indexing="ij"), dim=-1)',
            """        if (
            not hasattr(self, "k")
            or self.k.shape[0] != len(k1_input)
            or not torch.equal(self.k[[0, -1], 0, 0, 0], k1_input[[0, -1]].to(self.k.dtype))
        ):
            self.k = torch.stack(
                torch.meshgrid(k1_input, self.ops_grid_k2, self.ops_grid_k3, indexing="ij"), dim=-1
            )""",
        )
    ],
    _CAL
    + """
pb = problem("MANN")
a, b = torch.tensor([0.1, 0.5, 1.0, 10.0]), torch.tensor([0.1, 2.0, 6.0, 10.0])
with quiet(), torch.no_grad():
    pb.OPS(a)
    got = pb.OPS(b).clone()
    fresh = problem("MANN").OPS(b)
check(torch.allclose(got, fresh, rtol=1e-4), "the spectra at new wave numbers do not depend on earlier evaluations")
""",
)

plant(
    "c08-last-epoch-tolerance",
    "C08",
    "a fit whose loss first falls below the tolerance between half of the epochs and their end",
    "in the second half of the epochs the fit is never stopped by the tolerance",
    [(CAL, "            if self.loss.item() < tol:\n", "            if self.loss.item() < tol and 2 * (epoch + 1) <= max_epochs:\n")],
    _CAL
    + """
k1 = torch.logspace(-1, 1, 6)
with quiet():
    data = generate_kaimal_spectra(k1, 1.0, 1.0)


def losses(tol):
    torch.manual_seed(1)
    pb = problem("MANN", prob=dict(nepochs=6, tol=tol, learning_rate=0.05), log="log%g" % tol)
    with quiet():
        pb.calibrate(data, optimizer_class=torch.optim.Adam)
    return pb.LossAggregator.component_losses["total"]


full = [float(x) for x in losses(0.0)]
falls = [j for j in range(4, len(full)) if full[j] < min(full[:j])]
check(bool(falls), f"the loss keeps falling {full}")
j = falls[0]
tol = 0.5 * (full[j] + min(full[:j]))
short = [float(x) for x in losses(tol)]
check(len(short) == j + 1, f"the fit stops at record {j + 1} of {len(full)} (tolerance {tol:.4g}); it made {len(short)}: {full}")
""",
)

plant(
    "c21-distinct-separations",
    "C21",
    "coherence data with two or three distinct separations, so that the figure shows one of them more than once",
    "the rows of the coherence figure are labelled with the distinct separations, in order",
    [
        (
            CAL,
            "                sep_value = self.coherence_plot_separations[row]\n",
            "                sep_value = np.resize(np.unique(self.coherence_plot_separations), 4)[row]\n",
        )
    ],
    _CAL
    + """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from drdmannturb.spectra_fitting import generate_von_karman_spectra

f, s = [0.5, 1.0, 2.0], [0.2, 1.4]
with open("c.dat", "w") as h:
    h.write("# coherence\\n# data\\nsep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\\n")
    for b, y in enumerate(s):
        for a, x in enumerate(f):
            h.write(f"{b} {a} {y} {x} {0.5 * np.exp(-x * y)} {0.4 * np.exp(-x * y)} {0.3 * np.exp(-x * y)}\\n")
k1 = torch.logspace(-1, 1, 5)
with quiet():
    data = generate_von_karman_spectra(k1, L=0.6, C=0.3)
    pb = problem("CONST", phys=dict(ustar=1.0, Uref=8.0, zref=1.0))
    pb.calibrate(data, coherence_data_file="c.dat", optimizer_class=torch.optim.Adam)
    pb.plot()
fig = [plt.figure(n) for n in plt.get_fignums() if len(plt.figure(n).axes) == 12][0]
for row in range(4):
    sep = float(pb.coherence_plot_separations[row])
    check(fig.axes[3 * row].get_ylabel() == f"r = {sep:.1f}", f"row {row} is labelled {fig.axes[3 * row].get_ylabel()} and shows separation {sep}")
""",
)

plant(
    "c07-gradient-kept",
    "C07",
    "a fit of more than 25 optimisation steps with a first-order optimiser",
    "the gradient is cleared before each of the first 25 epochs and every other one after that",
    [(CAL, "            optimizer.zero_grad()\n", "            if len(self.LossAggregator.component_losses[\"total\"]) < 26 or len(self.LossAggregator.component_losses[\"total\"]) % 2:\n                optimizer.zero_grad()\n")],
    _CAL
    + """

k1 = torch.logspace(-1, 1, 6)
with quiet():
    data = generate_kaimal_spectra(k1, 1.0, 1.0)
pb = problem("MANN", prob=dict(nepochs=40, tol=0.0, learning_rate=1e-3))
seen = []
step = torch.optim.Adam.step


def watch(self, closure=None):
    out = step(self, closure)
    p = [q for g in self.param_groups for q in g["params"] if q.grad is not None]
    seen.append([q.grad.clone() for q in p])
    return out


torch.optim.Adam.step = watch
with quiet():
    pb.calibrate(data, optimizer_class=torch.optim.Adam)
size = [float(torch.cat([g.reshape(-1) for g in x]).norm()) for x in seen]
jump = max(b / a for a, b in zip(size, size[1:]))
check(jump < 1.5, f"the gradient of a slowly changing fit changes slowly (largest ratio of consecutive steps {jump:.2f})")
""",
)

plant(
    "c14-scale-in-grid",
    "C14",
    "a low-frequency domain whose length scale is smaller than the grid spacing",
    "the internal grid is refined to the length scale although the user's grid is coarser",
    [(LF, "        comp_d = min(self.user_dx, self.user_dy)\n", "        comp_d = min(self.user_dx, self.user_dy, 1.5 * self.L_2d)\n")],
    """
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

g = LowFreqGenerator(dict(sigma2=0.6, L_2d=50.0, psi=0.75, z_i=300.0, L1_factor=160, L2_factor=80, exp1=6, exp2=5), seed=1)
d = min(g.user_dx, g.user_dy)
check(abs(g.comp_dx - d) < 0.1 * d and abs(g.comp_dy - d) < 0.1 * d, f"internal spacing {g.comp_dx:.1f} x {g.comp_dy:.1f} m, finer user spacing {d:.1f} m")
""",
)

plant(
    "c18-single-for-large",
    "C18",
    "writing a field of more than 10^5 values to VTK",
    "large fields are written in single precision",
    [
        (
            FF,
            'tuple([np.copy(self.total_fluctuation[..., i], order="C") for i in range(3)])',
            'tuple(\n            [\n                np.copy(self.total_fluctuation[..., i], order="C").astype("f4" if self.total_fluctuation.size > 10**5 else "f8")\n                for i in range(3)\n            ]\n        )',
        )
    ],
    _GEN
    + """
import glob

g = gen(levels=(6, 5, 5), dims=(8.0, 4.0, 4.0))
g.generate(1, 1.0, 1.0, 0.01, "LOG")
with quiet():
    g.save_to_vtk(os.path.join(_scratch, "field"))
path = glob.glob(os.path.join(_scratch, "field*"))[0]
raw = open(path, "rb").read()
bits = raw.count(b"Float64"), raw.count(b"Float32")
check(bits[0] > 0 and bits[1] == 0, f"the field is written in the precision it has: {bits}")
n = g.total_fluctuation.size * 8
check(len(raw) > n, f"{len(raw)} bytes for {n} bytes of values")
""",
)

plant(
    "c20-shares-swapped",
    "C20",
    "a calibration with coherence data whose tensorboard record of component shares is read",
    "the recorded shares of spectra and coherence are exchanged",
    [
        (LOSS, 'self.writer.add_scalar("Component_Ratios/MSE", self.running_averages["mse"] / total_avg, epoch)', 'self.writer.add_scalar("Component_Ratios/MSE", self.running_averages["coherence"] / total_avg, epoch)'),
        (LOSS, '"Component_Ratios/Coherence", self.running_averages["coherence"] / total_avg', '"Component_Ratios/Coherence", self.running_averages["mse"] / total_avg'),
    ],
    _CAL
    + """
from drdmannturb.parameters import LossParameters
from drdmannturb.spectra_fitting.loss_functions import LossAggregator

k1 = torch.logspace(-1, 1, 8)
tags = {}
agg = LossAggregator(params=LossParameters(gamma_coherence=0.5), k1space=k1, zref=1.0, tb_log_dir=_scratch, tb_comment="")
agg.writer.add_scalar = lambda name, value, step=None, *a, **k: tags.setdefault(name, []).append(float(value))
rng = np.random.default_rng(1)
for epoch in range(6):
    y, t = (torch.tensor(rng.uniform(0.5, 2, (4, 8)), dtype=torch.float32) for _ in range(2))
    c = {f"{a}_{b}": torch.tensor(rng.uniform(0.5, 0.9, (2, 3)), dtype=torch.float32) for a in ("model", "data") for b in "uvw"}
    with quiet():
        agg.eval(y, t, None, epoch, coherence_data=c)
ra = agg.running_averages
share = ra["mse"] / sum(ra.values())
got = tags["Component_Ratios/MSE"][-1]
check(abs(got - share) < 1e-6 and abs(share - 0.5) > 0.05, f"recorded share of the spectra {got:.4f}, their running average's share {share:.4f}")
""",
)
