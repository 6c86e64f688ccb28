M = "ebsdtorch/simulation/monte_carlo.py"
K = "ebsdtorch/crystallography/ebsd_mc.py"
TORCH = '''import torch, math, io, contextlib
from ebsdtorch.simulation.monte_carlo import bse_sim_mc, rosca_lambert
def run(E=20.0, nE=1, nX=1, nD=1, bE=1000.0, bD=1e6, n=1000, bse=10**9, sims=1, steps=300, sigma=70.0, omega=0.0, mat=(28.0, 8.911, 58.6934), seed=0):
    torch.manual_seed(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        return bse_sim_mc(E, nE, nX, nD, bE, bD, *mat, n, bse, sims, steps, sigma, omega, torch.float64, torch.device("cpu"))
'''
CL = '''import os, sys, types, io, contextlib
import numpy as np, torch
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import opencl
opencl.install()
from ebsdtorch.crystallography import ebsd_mc as K
def run(n=3000, trials=1, steps=60, log=False, nE=1, nD=1, nX=1, bE=1000.0, bD=1e6, sigma=70.0, omega=0.0, E=20.0, seed=0, mat=(28.0, 8.911, 58.6934)):
    np.random.seed(seed)
    return K.run_monte_carlo_simulation(dict(n_electrons=n, n_trials_per_electron=trials, starting_E_keV=E, n_exit_energy_bins=nE, n_exit_direction_bins=nX, n_exit_depth_bins=nD, binsize_exit_energy=bE, binsize_exit_depth=bD,
        atom_num=mat[0], unit_cell_density_rho=mat[1], atomic_weight_A=mat[2], n_max_steps=steps, sigma=sigma, omega=omega, depth_mode="log" if log else "linear", residual=0.0), {}).astype(float)
cell = types.SimpleNamespace(get_average_atomic_number=torch.tensor(28.0), get_density=torch.tensor(8.911), get_average_atomic_weight=torch.tensor(58.6934))
def simulator(**kw):
    a = dict(kV=20.0, incidence_angle=70.0, binsize_exit_energy=1.0, binsize_exit_depth=0.2, n_depth_bins=30, n_direction_bins=5, n_energy_bins_extra=2, min_histogram_mass=1, n_max_steps_override=60)
    with contextlib.redirect_stdout(io.StringIO()):
        return K.MonteCarloSimulator(cell, **{**a, **kw})
'''
F = ["mc/opencl.py"]
BUGS = [
dict(id="c26-old-electrons",property="C26",edits=[(M,"        ticks[reset_mask] = 0\n","        ticks[exited_sample] = 0\n")],
 needs="electrons that reach the maximal number of collisions, and a simulation that continues afterwards",breaks="electrons that reached the maximal number of collisions once are ended after each further collision",
 demo=TORCH+'''
a = float(run(n=500, sims=40000, steps=40).sum()) / 40000
b = sum(float(run(n=500, sims=500, steps=40, seed=s).sum()) / 500 for s in range(20)) / 20
assert a > 0.25, a
'''),
dict(id="c26-second-trial",property="C26",files=F,edits=[(K,"    for (int i = 0; i < n_trials_per_electron; i++) {\n","    float energy = starting_E_keV;\n    for (int i = 0; i < n_trials_per_electron; i++) {\n"),(K,"        float energy = starting_E_keV;\n\n        for (int step","        if (energy <= 0) energy = starting_E_keV;\n\n        for (int step")],
 needs="the OpenCL kernel with more than one trial per electron",breaks="later trials start with the energy the electron before had at its end",
 demo=CL+'''
a = run(trials=1, nE=10, bE=2.0).sum((1, 2, 3))
b = run(trials=8, nE=10, bE=2.0).sum((1, 2, 3)) / 8
assert np.abs(a - b).max() < 0.05 * a.sum(), (a, b)
'''),
dict(id="c26-straight-depth",property="C26",files=F,edits=[(K,"                    (c_old.z > 0 ? 1.0f : -1.0f) * cos_phi,\n                    c_old.w  // Preserve depth\n","                    (c_old.z > 0 ? 1.0f : -1.0f) * cos_phi,\n                    0.0f\n")],
 needs="an electron that moves along the surface normal in the sample, OpenCL kernel",breaks="its depth is forgotten in the next collision",
 demo=CL+'''
# nothing comes back from the second collision of a beam along the normal of a heavy, thick sample without having gone through depth
S = opencl.Seeds(6, 18)
def one(u, nD=60, bD=1.0):
    s = np.array([S.solve(u)], np.uint32)
    opencl.STATE.seeds = lambda n: s
    return run(n=1, steps=2, nD=nD, bD=bD, sigma=0.0, E=20.0)
# first collision: forwards without a turn; second collision: back out of the sample
h = one([0.3, 0.0, 0.1, 1e-4, 0.9999, 0.1])
d = np.argwhere(h)
assert h.sum() == 1 and d[0][1] > 0, d
'''),
dict(id="c26-straight-up",property="C26",edits=[(M,"            (cz / torch.abs(cz)) * torch.cos(phi),\n","            torch.cos(phi),\n")],
 needs="an electron on its way straight up to the surface",breaks="it is turned back into the sample",
 demo=TORCH+'''
# a beam that already goes straight up (tilt of 180 degrees) leaves at once
h = run(sigma=180.0, n=2000, sims=2000, steps=1)
assert h.sum() > 1900, h
'''),
dict(id="c26-mirror-later-runs",property="C26",files=F,edits=[(K,"            if self.omega == 0.0:\n                histogram_new = (histogram_new + histogram_new.flip(3)) / 2\n","            if self.omega == 0.0:\n                histogram_new = (histogram_new + histogram_new.flip(2)) / 2\n")],
 needs="a required number of electrons that takes more than one run, and a beam without azimuth",breaks="later runs are symmetrised along the wrong axis",
 demo=CL+'''
np.random.seed(0)
with contextlib.redirect_stdout(io.StringIO()):
    h, n = simulator(min_histogram_mass=2000).run_simulation(1000, 1)
assert torch.allclose(h, h.flip(3))
'''),
dict(id="c26-total",property="C26",files=F,edits=[(K,"            total_bse += histogram_new.sum().item()\n            total_sim += (\n                simulation_params[\"n_electrons\"]\n                * simulation_params[\"n_trials_per_electron\"]\n            )\n","            total_bse += histogram_new.sum().item()\n            total_sim += simulation_params[\"n_electrons\"]\n")],
 needs="more than one run and more than one trial per electron",breaks="the number of simulated electrons is too small",
 demo=CL+'''
np.random.seed(0)
opencl.STATE.gets.clear()
with contextlib.redirect_stdout(io.StringIO()):
    h, n = simulator(min_histogram_mass=3000).run_simulation(500, 3)
assert n == len(opencl.STATE.gets) * 1500 and n > 1500, n
'''),
dict(id="c26-last-interval",property="C26",files=F,edits=[(K,"        indices = torch.clamp(indices, 1, xp.shape[-1] - 2)\n","        indices = torch.clamp(indices, 1, xp.shape[-1] - 3)\n")],
 needs="quadratic resampling into the last intervals of the depth bins",breaks="the last bin is never used",
 demo=CL+'''
s = simulator(kV=1.0, n_direction_bins=1, n_depth_bins=10, binsize_exit_depth=0.3)
x = torch.zeros(1, 10, 1, 1)
x[0, -1] = 1.0
r = s.resample_to_linear(x, 40, 0.4)
assert r[0, -6:].sum() > 0
'''),
dict(id="c26-depth-outside",property="C26",edits=[(M,"            (exit_depth_indices < n_exit_depth_bins)\n","            (exit_depth_indices <= n_exit_depth_bins)\n"),(M,"            n_exit_energy_bins,\n            n_exit_depth_bins,\n            n_exit_direction_bins,\n            n_exit_direction_bins,\n        ),\n        device=device,","            n_exit_energy_bins,\n            n_exit_depth_bins + 1,\n            n_exit_direction_bins,\n            n_exit_direction_bins,\n        ),\n        device=device,"),(M,"    return accumulator\n\n\n# # run","    accumulator[:, -2] += accumulator[:, -1]\n    return accumulator[:, :n_exit_depth_bins]\n\n\n# # run")],
 needs="electrons from just below the deepest bin",breaks="they are counted in the deepest bin",
 demo=TORCH+'''
kw = dict(n=4000, sims=4000, steps=60)
fine = run(nD=8, bD=1.0, **kw).sum((0, 2, 3))
coarse = run(nD=4, bD=1.0, **kw).sum((0, 2, 3))
assert torch.equal(fine[:4], coarse), (fine, coarse)
'''),
dict(id="c26-negative-side",property="C26",files=F,edits=[(K,"    float arctan_term = (big < 0 ? -1.0f : 1.0f) * factor * atan2(sml * (big < 0 ? -1.0f : 1.0f), fabs(big))","    float arctan_term = factor * atan2(sml * (big < 0 ? -1.0f : 1.0f), fabs(big))")],
 needs="OpenCL, directions whose larger component is negative",breaks="they are counted in the mirrored direction",
 demo=CL+'''
# turning the beam by 180 degrees turns the directions
a = run(n=6000, nX=7, sigma=60.0, omega=30.0).sum((0, 1))
b = run(n=6000, nX=7, sigma=60.0, omega=210.0).sum((0, 1))
assert np.abs(a - b[::-1, ::-1]).max() < 0.02 * a.sum(), (a, b)
'''),
]
