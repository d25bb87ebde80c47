"""Fifth batch of planted bugs (see plants.py)."""

from plants import CAL, CK, COM, DG, FF, GRF, LF, LOSS, NM, NN, OPS, PAR, SM, WP, _GEN, plant  # noqa: F401

LP = "fluctuation_generation/low_frequency/large_plot.py"

_STUDY = """
import matplotlib.pyplot as plt
from drdmannturb.fluctuation_generation.low_frequency import large_plot
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

BASE = dict(sigma2=2.0, L_2d=1000.0, psi=0.7, z_i=300.0, L1_factor=6, L2_factor=6, exp1=5, exp2=5)
seen = []


def record(fields=None):
    real = LowFreqGenerator.generate

    def generate(self):
        if fields:
            self.u1, self.u2 = self.u1_full, self.u2_full = fields(self)
        else:
            real(self)
        seen.append((self, self.u1.copy(), self.u2.copy()))
        return self.u1, self.u2

    LowFreqGenerator.generate = generate
"""

plant(
    "c23-factors-as-given",
    "C23",
    "a study over domain sizes that are not listed in increasing order",
    "the results of the domain study are sorted by size but drawn over the sizes in the order given",
    [(LP, "domain_sizes = np.array([r[5] / 1000 for r in results])  # Convert to km", 'domain_sizes = np.array(factors)[: len(results)] * cfg_base["L_2d"] / 1000  # Convert to km')],
    _STUDY
    + """
record(lambda g: (g.user_L1 / g.L_2d * np.array([[1.0, -1.0]]), np.array([[1.0, -1.0]])))
with quiet():
    large_plot.domain_size_study([9.0, 5.0, 7.0])
ax = [a for a in plt.gcf().axes if "ariance" in a.get_title()][0]
x, y = [ln for ln in ax.lines if ln.get_label() == "u1"][0].get_data()
check(len(x) == 3 and np.allclose(np.asarray(y), (np.asarray(x) / 15) ** 2), f"variance {y} of the domains of {x} km")
""",
)

plant(
    "c23-running-average",
    "C23",
    "the study over grid and domain sizes with fields whose variance depends on the domain size",
    "the variances of a grid size are averaged over all domain sizes visited so far",
    [
        (LP, "    for i, exp in enumerate(grid_exponents):\n", "    for i, exp in enumerate(grid_exponents):\n        realization_u1_vars: list = []\n"),
        (LP, "            realization_u1_vars = []\n", ""),
    ],
    _STUDY
    + """
record(lambda g: (g.user_L1 / g.L_2d * np.array([[1.0, -1.0]]), np.array([[1.0, -1.0]])))
with quiet():
    large_plot.length_AND_grid_size_study(BASE, do_plot=True, num_realizations=1)
im = [a for f in plt.get_fignums() for a in plt.figure(f).axes if "u1 variance" in a.get_title()][0].images[0].get_array()
check(np.allclose(im, np.arange(2, 21, 2)[None, :] ** 2.0), f"variances of the first grid size {np.asarray(im)[0].tolist()}")
""",
)

plant(
    "c23-shared-wavenumbers",
    "C23",
    "the spectra of two generators with the same number of points on domains of different length",
    "the second generator's spectrum is drawn at the first generator's wave numbers if their number is the same",
    [(LP, "            k1_b_pos = _k1_b_pos\n", "            k1_b_pos = _k1_b_pos if len(_k1_b_pos) != len(k1_a_pos) else k1_a_pos\n")],
    _STUDY
    + """
LowFreqGenerator.analytical_spectrum = lambda g, k: (1 / np.asarray(k), 1 / np.asarray(k))
a, b = LowFreqGenerator(BASE, seed=1), LowFreqGenerator(dict(BASE, L1_factor=12, L2_factor=12), seed=2)
with quiet():
    large_plot.recreate_fig2(a, b, num_realizations=2)
low = [[ln for ln in ax.lines if ln.get_label() == "numerical"][0].get_xdata()[0] for ax in plt.gcf().axes]
check(np.allclose(low, [2 * np.pi / 6] * 2 + [2 * np.pi / 12] * 2), f"lowest wave numbers of the four panels {low}")
""",
)

plant(
    "c23-rounded-angle",
    "C23",
    "an anisotropy study with two angles less than a degree apart",
    "the pictured fields are kept by whole degrees, so an angle shows the field of its neighbour",
    [
        (LP, "        generated_fields[psi_deg] = (gen.X, gen.Y, u1_plot, u2_plot)", "        generated_fields[int(psi_deg)] = (gen.X, gen.Y, u1_plot, u2_plot)"),
        (LP, "            X, Y, u1_plot, u2_plot = generated_fields[psi_deg]\n", "            X, Y, u1_plot, u2_plot = generated_fields[int(psi_deg)]\n"),
    ],
    _STUDY
    + """
record()
with quiet():
    large_plot.anisotropy_study(BASE, [30.2, 30.6, 50.0], num_realizations=1)
pics = [np.asarray(ax.images[0].get_array()) for ax in plt.gcf().axes if ax.images]
for j, deg in enumerate([30.2, 30.6, 50.0]):
    own = [u1.T for g, u1, u2 in seen if abs(g.psi - np.deg2rad(deg)) < 1e-9]
    check(any(np.allclose(pics[2 * j], u) for u in own), f"the picture at {deg} degrees shows a field of that angle")
""",
)

plant(
    "c23-config-altered",
    "C23",
    "an anisotropy study whose base configuration is used again afterwards",
    "the study changes the angle in the caller's configuration",
    [(LP, '        local_config = base_config.copy()\n        local_config["psi"] = np.deg2rad(psi_deg)\n', '        local_config = base_config\n        local_config["psi"] = np.deg2rad(psi_deg)\n', 1)],
    _STUDY
    + """
cfg = dict(BASE)
with quiet():
    large_plot.anisotropy_study(cfg, [20.0, 60.0], num_realizations=1, do_plot=False)
check(cfg == BASE, f"the configuration given to the study is unchanged: psi {cfg['psi']}")
""",
)
