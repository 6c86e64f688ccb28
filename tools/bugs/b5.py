E="ebsdtorch/ebsd/"; U="ebsdtorch/utils/"; P="ebsdtorch/preprocessing/"; S="ebsdtorch/lie_algebra/se3.py"
H='''import torch
torch.set_num_threads(1)
torch.manual_seed(0)
'''
DI=H+'''
import os, sys
from ebsdtorch.ebsd.indexing import dictionary_index_orientations, pca_dictionary_index_orientations
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.s2_and_so3.laue_fz_ori import sample_ori_fz_laue_angle
from ebsdtorch.s2_and_so3.quaternions import qu_apply
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
p = torch.rand(1, 1, 10, 20)
p = torch.nn.functional.interpolate(p, (40, 80), mode="bicubic")[0, 0]
mp = MasterPattern(p, laue_group=7)
geo = EBSDGeometry((8, 12), proj_center=(0.45, 0.4, 0.6))
def simulate(q, b=1):
    d = geo.get_coords_sample_frame((b, b))
    d = d / d.norm(dim=-1, keepdim=True)
    return mp.interpolate(qu_apply(q[:, None], d[None]), virtual_binning=b).reshape(len(q), 8 // b, 12 // b)
def same(a, b):
    return bool(((a * b).sum(-1).abs() > 1 - 1e-5).all())
'''
MASKED='''                    # apply the signal mask if provided
                    if signal_mask is not None:
                        query_chunk = query_chunk[:, signal_mask.flatten()]

                    # subtract the mean
                    if subtract_exp_pat_mean:
                        query_chunk = query_chunk - torch.mean(
                            query_chunk, dim=-1, keepdim=True
                        )

                    if distance_metric == "angular":
                        query_chunk = torch.nn.functional.normalize(query_chunk, dim=-1)

                    # project the query chunk'''
BUGS=[
dict(id="c10-mean-before-mask",property="C10",edits=[(E+"indexing.py",MASKED,'''                    # subtract the mean
                    if subtract_exp_pat_mean:
                        query_chunk = query_chunk - torch.mean(
                            query_chunk, dim=-1, keepdim=True
                        )

                    # apply the signal mask if provided
                    if signal_mask is not None:
                        query_chunk = query_chunk[:, signal_mask.flatten()]

                    if distance_metric == "angular":
                        query_chunk = torch.nn.functional.normalize(query_chunk, dim=-1)

                    # project the query chunk''')],
 needs="PCA indexing with a signal mask and a scan with more patterns than the experiment chunk size",breaks="the mean of the whole pattern is subtracted instead of the mean of the masked pixels",
 demo=DI+'''
q = sample_ori_fz_laue_angle(7, 40.0, torch.device("cpu"), permute=False)
mask = torch.zeros(8, 12, dtype=torch.bool)
mask[2:6, 3:10] = True
x = simulate(q)
x[:, ~mask] += 40.0
best = []
for chunk in (1000, 5):
    e = ExperimentPatterns(x.clone())
    pca_dictionary_index_orientations(mp, geo, e, 28, signal_mask=mask, experiment_chunk_size=chunk, dictionary_resolution_learn_deg=40.0, dictionary_resolution_index_deg=40.0, match_dtype=torch.float32, quantized_via_ao=False)
    best.append(e.best_metrics)
assert torch.allclose(best[0], torch.ones(len(q)), atol=1e-3)
assert torch.allclose(best[1], best[0], atol=1e-3), (best[0] - best[1]).abs().max()
'''),
dict(id="c10-coarse-index",property="C10",edits=[(E+"indexing.py","if dictionary_resolution_learn_deg != dictionary_resolution_index_deg:","if dictionary_resolution_learn_deg > dictionary_resolution_index_deg:")],
 needs="PCA learned on a finer dictionary than the one used for indexing",breaks="the coarse indexing dictionary is ignored and the matches come from the learning dictionary",
 demo=DI+'''
q = sample_ori_fz_laue_angle(7, 55.0, torch.device("cpu"), permute=False)
x = simulate(torch.nn.functional.normalize(torch.randn(6, 4), dim=-1))
for learn in (55.0, 40.0):
    e = ExperimentPatterns(x.clone())
    pca_dictionary_index_orientations(mp, geo, e, 40, dictionary_resolution_learn_deg=learn, dictionary_resolution_index_deg=55.0, match_dtype=torch.float32, quantized_via_ao=False)
    c = (e.get_orientations() @ q.T).abs().amax(1)
    assert bool((c > 1 - 1e-5).all()), (learn, c)
'''),
dict(id="c10-last-small-chunk",property="C10",edits=[(U+"knn.py","        old_knn_indices = self.knn_indices[query_start:query_end]\n        old_knn_distances = self.knn_distances[query_start:query_end]","        old_knn_indices = self.knn_indices[query_start:query_end].clone()\n        old_knn_distances = self.knn_distances[query_start:query_end].clamp(min=0.0)")],
 needs="the euclidean or angular metric with chunks and a pattern whose best matches so far are negative, or several matches of which the last are negative",breaks="negative correlations count as zero and are kept instead of later, less negative matches",
 demo=H+'''
from ebsdtorch.utils.knn import ChunkedKNN
d, q = torch.randn(12, 5), torch.randn(4, 5)
d = torch.nn.functional.normalize(d, dim=1); q = torch.nn.functional.normalize(q, dim=1)
want = (q @ d.T).sort(1, descending=True).values
for k in (1, 9):
    n = ChunkedKNN(12, 4, k, torch.device("cpu"), match_dtype=torch.float32, quantized_via_ao=False)
    for c in d.split(3):
        n.set_data_chunk(c)
        for s in range(0, 4, 2):
            n.query_chunk(q[s:s + 2], s)
    got = n.retrieve_topk()[1]
    assert torch.allclose(got, want[:, :k], atol=1e-5), k
'''),
dict(id="c19-many-turns",property="C19",edits=[(S,"    v = w_to_v(omegas)\n    tvecs = torch.matmul(v, tvecs[..., None]).view(data_shape + (3,))\n\n    return quat","    v = w_to_v(omegas * (torch.fmod(theta, 6.283185307179586) / theta))\n    tvecs = torch.matmul(v, tvecs[..., None]).view(data_shape + (3,))\n\n    return quat")],
 needs="the quaternion exponential of a twist of more than a full turn with a translation",breaks="the translation is that of the twist reduced to one turn",
 demo=H+'''
from ebsdtorch.lie_algebra.se3 import se3_exp_map_quat, se3_exp_map_om
for s in (1.0, 2.0):
    v = torch.tensor([[1.2, 2.1, -2.9, 0.3, 0.7, -0.2]], dtype=torch.float64)
    v[:, :3] *= s
    assert torch.allclose(se3_exp_map_quat(v)[1], se3_exp_map_om(v)[:, :3, 3], atol=1e-9), s
'''),
dict(id="c19-small-axis",property="C19",edits=[(S,"                torch.log(torch.abs(omegas) + 1e-10) * 2.0, dim=-1, keepdim=True","                torch.log(torch.abs(omegas) + 1e-5) * 2.0, dim=-1, keepdim=True")],
 needs="the quaternion exponential of a rotation of less than 0.05 rad",breaks="the angle of small rotations is too large by 1e-5 rad per component and the quaternion is not normalised",
 demo=H+'''
from ebsdtorch.lie_algebra.se3 import se3_exp_map_quat
for a in (0.2, 0.04, 0.01):
    w = torch.tensor([[0.6, 0.0, 0.8]], dtype=torch.float64) * a
    q = se3_exp_map_quat(torch.cat([w, w], 1))[0]
    assert abs(float(q.norm()) - 1) < 1e-8, a
    assert abs(float(q[0, 0]) - torch.cos(torch.tensor(a / 2, dtype=torch.float64)).item()) < 1e-8, a
'''),
dict(id="c20-both-masks",property="C20",edits=[(E+"geometry.py","        if opt_shifts is not None:\n            self.mask[3:]","        elif opt_shifts is not None:\n            self.mask[3:]")],
 needs="a call that changes the optimised rotations and shifts at the same time",breaks="the shifts are not selected",
 demo=H+'''
from ebsdtorch.ebsd.geometry import EBSDGeometry
v = torch.tensor([0.1, 0.0, 0.0, 0.0, 0.5, 0.0])
def coords(*calls):
    g = EBSDGeometry((4, 6), se3_vector=v.clone())
    for c in calls:
        g.set_optimizable_se3_params(*c)
    return g.get_coords_sample_frame((1, 1))
r, s = (True, False, False), (False, True, True)
assert torch.allclose(coords((r, None), (None, s)), coords((r, s)))
'''),
dict(id="c20-scan-origin",property="C20",edits=[(E+"geometry.py","            ray_tips_sample = ray_tips_sample + scan_coordinates_3D\n","            ray_tips_sample = ray_tips_sample + scan_coordinates_3D.flip(-2) if scan_coordinates.dim() > 2 else ray_tips_sample + scan_coordinates_3D\n")],
 needs="back projection of rays from a grid of scan points",breaks="the rays start at one scan point and point away from another",
 demo=H+'''
from ebsdtorch.ebsd.geometry import EBSDGeometry
g = EBSDGeometry((6, 8))
p = torch.rand(5, 1, 2) * 6
s = torch.rand(1, 4, 2)
assert torch.allclose(g.backproject2detector(g.project2sample(p[:4, 0], s[0]), s[0]), p[:4, 0], atol=1e-3)
x = g.project2sample(p, s)
assert torch.allclose(g.backproject2detector(x, s), p.expand(5, 4, 2), atol=1e-3)
'''),
dict(id="c20-deformed-first",property="C20",edits=[(E+"project_hrebsd.py","        f_inverse[:, None, :, :]\n        @ sample_coordinates[..., None]","        f_inverse[:1, None, :, :]\n        @ sample_coordinates[..., None]")],
 needs="HR-EBSD coordinates of several patterns with different deformations",breaks="all patterns of a batch get the deformation of the first",
 demo=H+'''
from ebsdtorch.ebsd.project_hrebsd import hrebsd_coords
q = torch.nn.functional.normalize(torch.randn(3, 4), dim=1)
f = torch.eye(3) + 0.1 * torch.randn(3, 3, 3)
v = torch.tensor([[0.1, 1.5, 0.1, -3.0, 2.0, 9.0]]).repeat(3, 1)
a = hrebsd_coords(torch.ones(6), v, q, f, (4, 6), 1, torch.device("cpu"))
for i in range(3):
    b = hrebsd_coords(torch.ones(6), v[i:i + 1], q[i:i + 1], f[i:i + 1], (4, 6), 1, torch.device("cpu"))
    assert torch.allclose(a[i:i + 1], b, atol=1e-5), i
'''),
dict(id="c24-batch-clip",property="C24",edits=[(P+"clahe.py","        histos += redist[..., None]\n","        histos += redist.mean()\n")],
 needs="CLAHE of a batch, or of an image with tiles of different contrast, with a clip limit that cuts",breaks="the clipped counts of a tile are spread over all tiles and images of the batch",
 demo=H+'''
from ebsdtorch.preprocessing.clahe import clahe_grayscale
x = torch.rand(3, 1, 16, 16)
x[1] = (x[1] * 0.05 + 0.3)
f = lambda z: clahe_grayscale(z, clip_limit=2.0, n_bins=16, grid_shape=(1, 1))
a = f(x)
for i in range(3):
    assert torch.allclose(a[i:i + 1], f(x[i:i + 1]), atol=1e-5), i
'''),
dict(id="c24-wide-mask",property="C24",edits=[(P+"radial_mask.py","        radius = min(h, w) / 2.0\n","        radius = h / 2.0\n")],
 needs="a mask of a detector with more rows than columns and no radius",breaks="the disc is larger than the detector",
 demo=H+'''
from ebsdtorch.preprocessing.radial_mask import get_radial_mask
assert torch.equal(get_radial_mask((9, 5)), get_radial_mask((5, 9)).T)
'''),
dict(id="c24-tile-pad",property="C24",edits=[(P+"clahe.py","    voxels_per_tile = h_tile * w_tile\n","    voxels_per_tile = (h_img * w_img) // n_tiles if h_img % h_grid == 0 and w_img % w_grid == 0 else h_tile * w_tile\n    clip_limit = clip_limit if h_img >= w_img else clip_limit * h_tile / w_tile\n")],
 needs="CLAHE of an image that is wider than high, with a clip limit that cuts",breaks="the clip limit of wide images is too low",
 demo=H+'''
from ebsdtorch.preprocessing.clahe import clahe_grayscale
x = torch.rand(1, 1, 8, 24) ** 3
a = clahe_grayscale(x, clip_limit=2.0, n_bins=16, grid_shape=(1, 1))
b = clahe_grayscale(x.transpose(2, 3), clip_limit=2.0, n_bins=16, grid_shape=(1, 1)).transpose(2, 3)
assert torch.allclose(a, b, atol=1e-5)
'''),
]
