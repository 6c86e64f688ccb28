E="ebsdtorch/ebsd/"; U="ebsdtorch/utils/"
H='''import torch
torch.set_num_threads(1)
torch.manual_seed(0)
'''
BUGS=[
dict(id="c11-sorted-indices",property="C11",edits=[(E+"experiment_pats.py","            self.orientations[indices] = orientations\n","            self.orientations[torch.unique(indices)] = orientations\n")],
 needs="orientations written for a list of patterns that is not in ascending order",breaks="the orientations reach the wrong patterns of the list",
 demo=H+'''
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
e = ExperimentPatterns(torch.rand(4, 3, 3))
e.set_orientations(torch.zeros(4, 4))
q = torch.rand(2, 4)
e.set_orientations(q, torch.tensor([1, 2]))
assert torch.equal(e.get_orientations()[1:3], q)
e.set_orientations(q, torch.tensor([3, 0]))
assert torch.equal(e.get_orientations()[[3, 0]], q)
'''),
dict(id="c11-stale-phase",property="C11",edits=[(E+"experiment_pats.py","            self.raw_indexing_results[phase_id] = (quaternions, metrics)","            self.raw_indexing_results.setdefault(phase_id, (quaternions, metrics))")],
 needs="a phase that is indexed twice",breaks="the result of the second indexing of a phase is ignored",
 demo=H+'''
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
e = ExperimentPatterns(torch.rand(2, 3, 3))
for k in range(2):
    q = torch.full((2, 1, 4), float(k))
    e.set_raw_indexing_results(q, torch.ones(2, 1), 0)
e.combine_indexing_results(True)
assert torch.equal(e.get_orientations(), q[:, 0])
'''),
dict(id="c12-step-norm",property="C12",edits=[(U+"pca_online.py","alpha = self.eta / (1.0 + self.eta * torch.norm(latent, dim=0))","alpha = self.eta / (1.0 + self.eta * torch.norm(latent, dim=1).max())[None]")],
 needs="a Krasulina update with a batch of several rows or several components",breaks="the step of each row is damped by the norm of a component instead of the norm of the row",
 demo=H+'''
from ebsdtorch.utils.pca_online import KrasulinaPCA
p = KrasulinaPCA(5, 2, eta=0.5)
C, X, x = p.C.clone(), p.C_cross.clone(), torch.randn(4, 5)
for r in range(1):
    l = X @ x.T
    want = C + ((0.5 / (1 + 0.5 * l.norm(dim=0))) * (x.T - C @ l)) @ l.T
p(x)
assert torch.allclose(p.C, want, atol=1e-4)
'''),
dict(id="c13-short-vectors",property="C13",edits=[(E+"master_pattern.py","coords_3D = coords_3D / torch.norm(coords_3D, dim=-1, keepdim=True)","coords_3D = coords_3D / torch.norm(coords_3D, dim=-1, keepdim=True).clamp(min=1.0)")],
 needs="direction vectors that are shorter than one",breaks="short vectors are not normalised and read the wrong intensity",
 demo=H+'''
from ebsdtorch.ebsd.master_pattern import MasterPattern
m = MasterPattern(torch.rand(8, 16), laue_group=11)
v = torch.randn(50, 3)
v /= v.norm(dim=1, keepdim=True)
assert torch.allclose(m.interpolate(3 * v), m.interpolate(v), atol=1e-4)
assert torch.allclose(m.interpolate(v / 3), m.interpolate(v), atol=1e-4)
'''),
dict(id="c13-hexagonal-group",property="C13",edits=[(U+"symmetry_classes.py",'''    elif point_group in ["6/mmm", "6-m2", "6mm", "622"]:''','''    elif point_group in ["6/mmm", "6mm", "622"]:'''),(U+"symmetry_classes.py",'''    elif point_group in ["6/m", "6-", "6"]:''','''    elif point_group in ["6/m", "6-", "6", "6-m2"]:''')],
 needs="a master pattern of a crystal with point group -6m2 given by its symbol",breaks="the Laue group of -6m2 becomes 6/m",
 demo=H+'''
from ebsdtorch.utils.symmetry_classes import point_group_to_laue as f
assert f("622") == 9 and f("6-") == 8
assert f("6-m2") == 9
'''),
]
