E="ebsdtorch/ebsd/"; U="ebsdtorch/utils/"; I="ebsdtorch/io/"
H='''import torch
torch.set_num_threads(1)
torch.manual_seed(0)
'''
RF=H+'''
import os
from ebsdtorch.ebsd.refining import orientation_grid_refinement, orientation_grad_refinement, get_local_orientation_grid
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.s2_and_so3.quaternions import qu_apply, qu_prod
from ebsdtorch.s2_and_so3.orientations import cu2qu
from ebsdtorch.s2_and_so3.laue_fz_ori import ori_to_fz_laue
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
def phase(laue, seed):
    torch.manual_seed(seed)
    p = torch.nn.functional.interpolate(torch.rand(1, 1, 6, 12), (60, 120), mode="bicubic")[0, 0]
    return MasterPattern(p, laue_group=laue)
geo = EBSDGeometry((12, 12), proj_center=(0.5, 0.5, 0.5))
d = geo.get_coords_sample_frame((1, 1))
d = (d / d.norm(dim=-1, keepdim=True)).reshape(-1, 3)
def simulate(mp, q):
    return mp.interpolate(qu_apply(q[:, None], d[None]), align_corners=True).reshape(len(q), 12, 12)
def match(mp, x, q):
    f = lambda z: torch.nn.functional.normalize((z - z.mean((1, 2), keepdim=True)).reshape(len(q), -1), dim=1)
    return (f(x) * f(simulate(mp, q))).sum(1)
def turn(q, *a):
    return torch.nn.functional.normalize(qu_prod(torch.tensor([[1.0, *a]]), q), dim=-1)
'''
PC=H+'''
import os
from ebsdtorch.ebsd.fitting import spatial_fft_pc_fitter
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.s2_and_so3.laue_fz_ori import sample_ori_fz_laue_angle
from ebsdtorch.s2_and_so3.quaternions import qu_apply
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
p = torch.nn.functional.interpolate(torch.rand(1, 1, 12, 24), (60, 120), mode="bicubic")[0, 0]
p = (p - p.min()) / (p.max() - p.min())
mp = MasterPattern(p, laue_group=11)
Q = sample_ori_fz_laue_angle(11, 40.0, torch.device("cpu"))
def simulate(q, shape, pc, b=1):
    d = EBSDGeometry(shape, proj_center=pc).get_coords_sample_frame((1, 1))
    d = d / d.norm(dim=-1, keepdim=True)
    return mp.interpolate(qu_apply(q[:, None], d[None])).reshape(len(q), 1, *shape)
def fit(x, **kw):
    a = dict(pc_x_min=0.19, pc_x_max=0.81, pc_y_min=0.19, pc_y_max=0.81, pc_z_min=0.4, pc_z_max=0.6, pc_z_steps=2, dictionary_resolution_deg=40.0)
    return spatial_fft_pc_fitter(mp, x.clone(), **{**a, **kw})
'''
MP=H+'''
import os, tempfile
import h5py
import numpy as np
from ebsdtorch.io.read_master_pattern import read_master_pattern
folder = tempfile.TemporaryDirectory()
def write(name, north, south, counts, sg=225):
    f = os.path.join(folder.name, name)
    with h5py.File(f, "w") as h:
        h["EMData/EBSDmaster/mLPNH"] = north
        h["EMData/EBSDmaster/mLPSH"] = south
        h["EMData/MCOpenCL/accum_e"] = counts
        h["CrystalData/SpaceGroupNumber"] = np.array([sg])
    return f
def read(f):
    return read_master_pattern(f).master_pattern.numpy()
r = np.random.default_rng(0)
n, s = r.random((1, 2, 5, 5)).astype(np.float32), r.random((1, 2, 5, 5)).astype(np.float32)
def want(n, s, c):
    w = c.astype(float).sum((0, 1))
    w = w / w.sum()
    return np.concatenate([(w[:, None, None] * x[0]).sum(0) for x in (n, s)], 1)
'''
BUGS=[
dict(id="c23-shrink-together",property="C23",edits=[(E+"refining.py","""                cu_grid_current[
                    (best_indices == ((cu_grid_current.shape[1] - 1) / 2))
                ] *= shrink_factor
""","""                if bool((best_indices == ((cu_grid_current.shape[1] - 1) / 2)).any()):
                    cu_grid_current *= shrink_factor
""")],
 needs="a batch of patterns of which some start at the best orientation and others far from it",breaks="the grid of all patterns shrinks as soon as one is centered, so the others do not reach their orientation",
 demo=RF+'''
mp = phase(1, 3)
q = torch.nn.functional.normalize(torch.tensor([[1.0, 0.1, 0.2, 0.3], [0.9, -0.2, 0.1, -0.3]]), dim=-1)
x = simulate(mp, q)
start = torch.cat([q[:1], turn(q[1:], 0.1, 0.0, 0.0)])
def run(batch):
    e = ExperimentPatterns(x.clone())
    e.phases = torch.zeros(2, dtype=torch.long)
    e.set_orientations(start.clone())
    orientation_grid_refinement(mp, geo, e, 3.0, batch, n_iter=8, match_dtype=torch.float32)
    return e.get_orientations()
for batch in (1, 2):
    assert bool((match(mp, x, run(batch)) > match(mp, x, run(1)) - 1e-4).all()), batch
'''),
dict(id="c23-first-laue",property="C23",edits=[(E+"refining.py","                qu_augmented = ori_to_fz_laue(qu_augmented, mp.laue_group)","                qu_augmented = ori_to_fz_laue(\n                    qu_augmented, master_patterns[0].laue_group\n                )")],
 needs="two phases, the first of higher symmetry than the second",breaks="the orientations of the second phase are reduced with the symmetry of the first",
 demo=RF+'''
cubic, triclinic = phase(11, 1), phase(1, 2)
q = torch.nn.functional.normalize(torch.tensor([[0.3, 0.8, 0.2, 0.3], [0.2, -0.2, 0.9, -0.3]]), dim=-1)
x = simulate(triclinic, q)
for first in (triclinic, cubic):
    e = ExperimentPatterns(x.clone())
    e.phases = torch.ones(2, dtype=torch.long)
    e.set_orientations(q.clone())
    orientation_grid_refinement([first, triclinic], geo, e, 1.0, 4, n_iter=1, match_dtype=torch.float32)
    assert bool((match(triclinic, x, e.get_orientations()) > 1 - 1e-3).all())
'''),
dict(id="c23-biaxial-plane",property="C23",edits=[(E+"refining.py","        mask = torch.any(cu == 0, dim=-1)","        mask = torch.any(cu[:, :2] == 0, dim=-1)")],
 needs="refinement with the biaxial grid and a pattern that is off by a rotation about an axis in the xy plane, not along x or y",breaks="the grid lacks the points of one coordinate plane and the best orientation is not found",
 demo=RF+'''
g = [get_local_orientation_grid(4.0, r, 2) for r in (1, 2)]
for c in g:
    for perm in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        a = sorted(map(tuple, c.tolist()))
        b = sorted(map(tuple, c[:, list(perm)].tolist()))
        assert a == b, perm
'''),
dict(id="c23-shared-update",property="C23",edits=[(E+"refining.py","""            experiment_patterns.set_orientations(
                qu_current[updates].detach(),
                indices_batch[updates],
            )
""","""            updates = updates | (dot_products.mean() > initial_dots.mean())
            experiment_patterns.set_orientations(
                qu_current[updates].detach(), indices_batch[updates]
            )
""")],
 needs="a batch in which the match of one pattern gets worse while it gets better for the others by more",breaks="gradient refinement keeps the worse orientation",
 demo=RF+'''
mp = phase(1, 5)
q = torch.nn.functional.normalize(torch.tensor([[1.0, 0.1, 0.2, 0.3], [0.9, -0.2, 0.1, -0.3], [0.5, 0.5, 0.1, 0.6]]), dim=-1)
x = simulate(mp, q)
# large steps overshoot from the exact orientation
start = torch.cat([q[:1], turn(q[1:], 0.08, -0.05, 0.06)])
def final(batch):
    e = ExperimentPatterns(x.clone())
    e.phases = torch.zeros(3, dtype=torch.long)
    e.set_orientations(start.clone())
    orientation_grad_refinement(mp, geo, e, batch, n_iter=3, learning_rate=0.02, match_dtype=torch.float32)
    return match(mp, x, e.get_orientations())
before = match(mp, x, start)
for batch in (1, 3):
    assert bool((final(batch) > before - 5e-3).all()), batch
'''),
dict(id="c25-min-joint",property="C25",edits=[(U+"mutual_information.py","        nmi = mi / torch.min(ent_x, ent_y)","        nmi = mi / torch.min(ent_x, ent_joint)")],
 needs="the normalisation by the smaller entropy for images of which the second has the smaller entropy",breaks="it divides by the entropy of the first image",
 demo=H+'''
from ebsdtorch.utils.mutual_information import binned_nmi
a = torch.rand(1, 200)
b = (a * 2).floor() / 2 + 0.2
for x, y in ((b, a), (a, b)):
    v = float(binned_nmi(x, y, 4, 4, "nats", "Kvalseth Min", False))
    assert abs(v - 1) < 1e-4, v
'''),
dict(id="c25-log-mean",property="C25",edits=[(U+"mutual_information.py","            (ent_src - ent_dst).abs() < 1e-6,","            (ent_src - ent_dst).abs() < 0.2,")],
 needs="cross mutual information with the logarithmic normalisation, images of similar entropies",breaks="the logarithmic mean of the entropies is replaced by one of them",
 demo=H+'''
from ebsdtorch.utils.mutual_information import cmif
a, b = torch.rand(1, 1, 6, 6), torch.rand(1, 1, 6, 6) ** 1.7
ab = cmif(a, b, norm_mode="Logarithmic")
ba = cmif(b, a, norm_mode="Logarithmic")
assert abs(float(ab[0, 0, 3, 3] - ba[0, 0, 3, 3])) < 1e-5
'''),
dict(id="c25-other-bins",property="C25",edits=[(U+"mutual_information.py","""    else:
        if constant_marginal:
            # the marginal is calculated from the entire original image and it is a scalar
            src_discrete = (bins_src * images_src * 0.99999).long()
""","""    else:
        if constant_marginal:
            # the marginal is calculated from the entire original image and it is a scalar
            src_discrete = (min(bins_src, bins_dst) * images_src * 0.99999).long()
""")],
 needs="constant marginals and fewer bins for the destination than for the source",breaks="the entropy of the source is that of another histogram",
 demo=H+'''
from ebsdtorch.utils.mutual_information import cmif
a, b = torch.rand(1, 1, 6, 6), torch.rand(1, 1, 6, 6)
for s, d in ((3, 3), (3, 5), (5, 3)):
    # without a shift the marginals are those of the whole images
    x = cmif(a, b, bins_dst=d, bins_src=s, constant_marginal=True)[..., 3, 3]
    y = cmif(a, b, bins_dst=d, bins_src=s, constant_marginal=False)[..., 3, 3]
    assert torch.allclose(x, y, atol=1e-4), (s, d)
'''),
dict(id="c25-lowest-row",property="C25",edits=[(U+"mutual_information.py","        joint_hist_trimmed = joint_hist[1:, 1:]","        joint_hist_trimmed = joint_hist[1:, 1 if binsx == binsy else 0 :]")],
 needs="exclusion of the lowest bin with different numbers of bins",breaks="the lowest bin of the second image is counted",
 demo=H+'''
from ebsdtorch.utils.mutual_information import binned_nmi
a, b = torch.rand(1, 300), torch.rand(1, 300)
for n, m in ((4, 4), (3, 5), (5, 3)):
    keep = (a * n >= 1) & (b * m >= 1)
    x, y = a[keep][None], b[keep][None]
    assert abs(float(binned_nmi(a, b, n, m, "nats", "none", True)) - float(binned_nmi(x, y, n, m, "nats", "none", False))) < 1e-4
'''),
dict(id="c27-stale",property="C27",edits=[(I+"read_master_pattern.py","def read_master_pattern(file_path) -> MasterPattern:","from functools import lru_cache\n\n\n@lru_cache(maxsize=8)\ndef read_master_pattern(file_path: str) -> MasterPattern:")],
 needs="a file that is read, written again and read again, or a pattern that is changed after reading and read again",breaks="the old or changed pattern is returned",
 demo=MP+'''
c = np.ones((3, 3, 2), dtype=np.int32)
f = write("a.h5", n, s, c)
assert np.allclose(read(f), want(n, s, c), atol=1e-5)
f = write("a.h5", 2 * n, s, c)
assert np.allclose(read(f), want(2 * n, s, c), atol=1e-5)
'''),
dict(id="c27-many-counts",property="C27",edits=[(I+"read_master_pattern.py",'        e_accum = f["EMData/MCOpenCL/accum_e"][:].astype(np.float32)','        e_accum = f["EMData/MCOpenCL/accum_e"][:].astype(np.float16)')],
 needs="more than 65504 electrons of one energy in one direction",breaks="the pattern is NaN, or smaller counts are rounded",
 demo=MP+'''
for k in (1, 100000):
    c = np.array([[[1, 3]]], dtype=np.int32) * k
    f = write(f"{k}.h5", n, s, c)
    assert np.allclose(read(f), want(n, s, c), atol=1e-5), k
'''),
dict(id="c27-rim",property="C27",edits=[(I+"read_master_pattern.py","    probabilities = e_accum.sum(axis=(0, 1))","    probabilities = e_accum[: e_accum.shape[1], : e_accum.shape[1] - 1].sum(axis=(0, 1)) if e_accum.shape[1] > 1 else e_accum.sum(axis=(0, 1))")],
 needs="electrons in the last column of the exit map with another distribution of energies than elsewhere",breaks="they are not counted",
 demo=MP+'''
c = np.ones((4, 4, 2), dtype=np.int32)
for k in range(2):
    c[2, 3 * k, 1] += 20
    f = write(f"{k}.h5", n, s, c)
    assert np.allclose(read(f), want(n, s, c), atol=1e-5), k
'''),
dict(id="c32-best-of-any",property="C32",edits=[(E+"fitting.py","    avg_best_dots = best_dots.mean(dim=1)","    avg_best_dots = best_dots.amax(dim=1)")],
 needs="several patterns of which the one with the highest score favors another pattern center than all together",breaks="only one pattern decides on the pattern center",
 demo=PC+'''
shape = (12, 12)
a, b = simulate(Q[3:4], shape, (0.5, 0.5, 0.4)), simulate(Q[:1], shape, (0.25, 0.75, 0.6))
score = []
for x in (torch.cat([a] * 3), torch.cat([b] * 3)):
    score.append(fit(x)[0])
assert not torch.allclose(score[0], score[1])
def center(*x):
    return fit(torch.cat(x))[0]
# nine of one kind outvote one of the other
assert torch.allclose(center(a, *[b] * 30), score[1], atol=1e-4)
assert torch.allclose(center(b, *[a] * 30), score[0], atol=1e-4)
'''),
dict(id="c32-portrait",property="C32",edits=[(E+"fitting.py","            secondary_tilt_deg=secondary_tilt_deg,\n            detector_shape=(H, W),","            secondary_tilt_deg=secondary_tilt_deg,\n            detector_shape=(min(H, W), W),")],
 needs="a detector that is higher than wide",breaks="the distances are fractions of the width instead of the height",
 demo=PC+'''
for shape in ((10, 15), (15, 10)):
    ok = 0
    for k in range(6):
        pc = (0.5, 0.5, (0.4, 0.6)[k % 2])
        ok += bool(torch.allclose(fit(simulate(Q[k:k + 1], shape, pc))[0], torch.tensor(pc), atol=1e-3))
    assert ok >= 5, (shape, ok)
'''),
dict(id="c32-last-distance",property="C32",edits=[(E+"fitting.py","    best_orientations_batch = best_orientations[best_z_idx, :, best_y_idx, best_x_idx]","    best_orientations_batch = best_orientations.amax(0)[:, best_y_idx, best_x_idx]")],
 needs="several distances, at one of which another than the best the best orientation is a later one of the dictionary",breaks="the orientation belongs to another distance",
 demo=PC+"""
shape = (12, 12)
for z in (1, 2):
    for k in range(len(Q)):
        q = fit(simulate(Q[k:k + 1], shape, (0.5, 0.5, 0.4)), pc_z_steps=z, pc_x_min=0.46, pc_x_max=0.54, pc_y_min=0.46, pc_y_max=0.54)
        if torch.allclose(q[0], torch.tensor([0.5, 0.5, 0.4]), atol=1e-3):
            assert float((q[1][0] * Q[k]).sum().abs()) > 1 - 1e-5, (z, k)
"""),
]
