Q = "ebsdtorch/s2_and_so3/quaternions.py"
O = "ebsdtorch/s2_and_so3/laue_fz_ori.py"
M = "ebsdtorch/s2_and_so3/laue_fz_misori.py"
G = "ebsdtorch/ebsd/geometry.py"
P = "ebsdtorch/ebsd/master_pattern.py"
V = "ebsdtorch/lie_algebra/se3.py"
K = "ebsdtorch/utils/pca_covmat.py"
J = "ebsdtorch/utils/pca_online.py"
H = "ebsdtorch/ebsd/project_hrebsd.py"
T = "import torch\ntorch.set_num_threads(1)\ntorch.manual_seed(3)\n"
BUGS = [
dict(id="c34-std-in-place",property="C34",edits=[(Q,'''    return torch.where(qu[..., 0:1] >= 0, qu, -qu)
''','''    out = qu.contiguous()
    negative = out[..., 0] < 0
    if bool(negative.any()):
        out[negative] = -out[negative]
    return out
''')],
needs="a contiguous batch with a quaternion of negative real part that is used again afterwards",
breaks="standardisation changes the quaternions of the caller",
demo=T+'''from ebsdtorch.s2_and_so3.quaternions import qu_std
q = torch.randn(7, 4)
q = q / q.norm(dim=-1, keepdim=True)
old = q.clone()
r = qu_std(q)
assert (r[:, 0] >= 0).all()
assert torch.equal(q, old), (q - old).abs().max()
'''),
dict(id="c34-axis-layout",property="C34",edits=[(Q,'''    oz = aw * bz + ax * by - ay * bx + az * bw
    return torch.stack((ox, oy, oz), -1)
''','''    oz = aw * bz + ax * by - ay * bx + az * bw
    return torch.stack((ox, oy, oz)).view(3, -1).T.reshape(ox.shape[:1] + (-1, 3)).squeeze(1)
''')],
needs="a single pair of quaternions, or batches with more than two dimensions",
breaks="the shape of the axes is not that of the data",
demo=T+'''from ebsdtorch.s2_and_so3.quaternions import qu_prod_axis
a, b = torch.randn(2, 3, 5, 4), torch.randn(2, 3, 5, 4)
r = qu_prod_axis(a, b)
assert r.shape == (2, 3, 5, 3), r.shape
for i in range(2):
    assert torch.allclose(r[i], qu_prod_axis(a[i], b[i]))
assert qu_prod_axis(a[:, :1, 0], b[:, :1, 0]).shape == (2, 1, 3)
'''),
dict(id="c34-fz-early-out",property="C34",edits=[(O,'''    # find the quaternion with the largest w value
    row_maximum_indices = torch.argmax(equivalent_quaternions_real, dim=-1)

    # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
''','''    # find the quaternion with the largest w value
    largest, row_maximum_indices = torch.max(equivalent_quaternions_real, dim=-1)

    # nothing to do if all of them are in the fundamental zone already
    if bool(torch.all(largest - quats.reshape(N, 4)[:, 0].abs() < 1e-6)):
        return quats

    # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
''')],
needs="a batch that lies in the fundamental zone up to the sign of its quaternions, without other company",
breaks="quaternions with negative real part are returned unless the batch has one outside of the zone",
demo=T+'''from ebsdtorch.s2_and_so3.laue_fz_ori import ori_to_fz_laue
q = torch.tensor([[-0.99, 0.05, 0.1, -0.02], [-0.98, -0.11, 0.1, 0.04]])
q = q / q.norm(dim=-1, keepdim=True)
other = torch.tensor([[0.1, 0.2, 0.9, 0.3]])
other = other / other.norm()
for laue in range(1, 12):
    both = ori_to_fz_laue(torch.cat([q, other]), laue)[:2]
    alone = ori_to_fz_laue(q, laue)
    assert torch.allclose(both, alone, atol=1e-6), (laue, both, alone)
'''),
dict(id="c34-misori-company",property="C34",edits=[(M,'''    # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
    output = equivalent_quaternions[torch.arange(N), row_maximum_indices]

    return output.reshape(qu.shape)


@torch.jit.script
def disorientation_naive(
''','''    # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
    # (normalized to remove the rounding errors of the products)
    chosen = equivalent_quaternions[torch.arange(N), row_maximum_indices]
    output = chosen / torch.norm(chosen, dim=-1).mean()

    return output.reshape(qu.shape)


@torch.jit.script
def disorientation_naive(
''')],
needs="a quaternion that is not a number (dead pixel) in the same batch",
breaks="all other misorientations of the batch are lost",
demo=T+'''from ebsdtorch.s2_and_so3.laue_fz_misori import misori_to_fz_laue
q = torch.randn(6, 4)
q = q / q.norm(dim=-1, keepdim=True)
good = misori_to_fz_laue(q, 11, 9)
p = q.clone()
p[2] = float("nan")
bad = misori_to_fz_laue(p, 11, 9)
keep = [0, 1, 3, 4, 5]
assert torch.allclose(good[keep], bad[keep], atol=1e-6), bad
'''),
dict(id="c35-cross-not-saved",property="C35",edits=[(J,'''            "C_cross", torch.linalg.inv_ex(self.C.T @ self.C)[0] @ self.C.T
        )
''','''            "C_cross",
            torch.linalg.inv_ex(self.C.T @ self.C)[0] @ self.C.T,
            persistent=False,
        )
''')],
needs="a PCA that is saved as a state dict and continued in a new object",
breaks="the inverse of the components belongs to the random start of the new object",
demo=T+'''from ebsdtorch.utils.pca_online import KrasulinaPCA
a = KrasulinaPCA(6, 2)
x = torch.randn(40, 6) * torch.tensor([5.0, 3, 1, 1, 1, 1])
a(x[:20])
b = KrasulinaPCA(6, 2)
b.load_state_dict({k: v.clone() for k, v in a.state_dict().items()})
assert torch.allclose(a.transform(x), b.transform(x), atol=1e-5)
a(x[20:])
b(x[20:])
assert torch.allclose(a.transform(x), b.transform(x), atol=1e-5)
'''),
dict(id="c35-oja-step",property="C35",edits=[(J,'''        self.register_buffer("step", torch.zeros(1, dtype=torch.int64))
''','''        self.step = 0
'''),(J,'''        self.step.add_(1)
''','''        self.step += 1
''')],
needs="Oja++ with more than three components, saved as a state dict between two initialisations of columns and continued",
breaks="the schedule of the columns starts again",
demo=T+'''from ebsdtorch.utils.pca_online import OjaPCA
def make():
    torch.manual_seed(1)
    return OjaPCA(6, 4, use_oja_plus=True)
x = torch.randn(12, 8, 6)
a = make()
for i in range(3):
    torch.manual_seed(100 + i)
    a(x[i])
b = make()
b.load_state_dict({k: v.clone() for k, v in a.state_dict().items()})
for i in range(3, 12):
    for m in (a, b):
        torch.manual_seed(100 + i)
        m(x[i])
    assert torch.allclose(a.get_components(), b.get_components(), atol=1e-5), i
'''),
dict(id="c35-corr-in-place",property="C35",edits=[(K,'''        covmat = self.covmat_aggregate / (self.obs - 1).to(self.covmat_dtype)
''','''        covmat = self.covmat_aggregate
        covmat /= (self.obs - 1).to(self.covmat_dtype)
''')],
needs="a covariance matrix that is looked at before the data are complete",
breaks="looking at the result divides the sums of the object",
demo=T+'''from ebsdtorch.utils.pca_covmat import OnlineCovMatrix
x = torch.randn(30, 4)
m = OnlineCovMatrix(4)
m(x[:15])
m.get_covmat()
m(x[15:])
assert torch.allclose(m.get_covmat(), torch.cov(x.T), atol=1e-4)
'''),
dict(id="c35-mask-not-saved",property="C35",edits=[(G,'''        self.register_buffer("mask", torch.cat([rotation_mask, translation_mask]))
''','''        self.register_buffer(
            "mask", torch.cat([rotation_mask, translation_mask]), persistent=False
        )
''')],
needs="a geometry with a fitted motion that is restored from a state dict into a default geometry",
breaks="the fitted motion is not applied after the restart",
demo=T+'''from ebsdtorch.ebsd.geometry import EBSDGeometry
a = EBSDGeometry((6, 8), opt_rots=(True, False, False), opt_shifts=(False, True, True), se3_vector=torch.tensor([0.1, 0.2, 0.3, 1.0, 2.0, 3.0]))
b = EBSDGeometry((6, 8))
b.load_state_dict(a.state_dict())
assert torch.allclose(a.get_coords_sample_frame((1, 1)), b.get_coords_sample_frame((1, 1)), atol=1e-5)
'''),
dict(id="c36-norm-detached",property="C36",edits=[(P,'''            coords_3D = coords_3D / torch.norm(coords_3D, dim=-1, keepdim=True)
''','''            coords_3D = coords_3D / torch.norm(
                coords_3D.detach(), dim=-1, keepdim=True
            )
''')],
needs="gradients of a simulated pattern by directions that are moved along themselves, as by a pattern centre",
breaks="the gradients are not the slopes",
demo=T+'''from ebsdtorch.ebsd.master_pattern import MasterPattern
y, x = torch.meshgrid(torch.linspace(0, 3, 40), torch.linspace(0, 7, 80), indexing="ij")
mp = MasterPattern((torch.sin(x) + torch.cos(y)).double(), laue_group=2)
v = torch.randn(50, 3, dtype=torch.float64)
v.requires_grad_(True)
g, = torch.autograd.grad(mp.interpolate(v, mode="bicubic").sum(), v)
radial = (g * v.detach()).sum(-1)
assert radial.abs().max() < 1e-6, radial
'''),
dict(id="c36-shift-only",property="C36",edits=[(G,'''        if self.opt_se3:
            # get the SE3 matrix
''','''        if self.opt_se3 and torch.any(self.mask[:3]).item():
            # get the SE3 matrix
''')],
needs="a geometry of which only shifts are optimised",
breaks="coordinates do not depend on the shifts for the optimiser",
demo=T+'''from ebsdtorch.ebsd.geometry import EBSDGeometry
for k in range(6):
    flags = [i == k for i in range(6)]
    a = EBSDGeometry((6, 8), opt_rots=tuple(flags[:3]), opt_shifts=tuple(flags[3:]), se3_vector=torch.tensor([0.1, 0.2, 0.3, 1.0, 2.0, 3.0]))
    c = a.get_coords_sample_frame((1, 1))
    assert c.requires_grad, k
    c.square().sum().backward()
    assert (a.se3_vector.grad[0] != 0).tolist() == flags, k
'''),
dict(id="c36-hrebsd-renorm",property="C36",edits=[(H,'''    detector_coords = detector_coords / torch.norm(
        detector_coords, dim=-1, keepdim=True
    )
''','''    lengths = torch.norm(detector_coords, dim=-1, keepdim=True)
    if bool((torch.abs(lengths - 1.0) > 1e-3).any()):
        detector_coords = detector_coords / lengths
''')],
needs="gradients by the deformation at (nearly) no deformation of the whole batch",
breaks="the gradient at the start of a fit contains the change of length of the rays",
demo=T+'''from ebsdtorch.ebsd.project_hrebsd import hrebsd_coords
F = torch.eye(3, dtype=torch.float64)[None].clone().requires_grad_(True)
q = torch.tensor([[1.0, 0, 0, 0]], dtype=torch.float64)
v = torch.tensor([[0.1, 0.2, 0.3, 1.0, 2.0, 3.0]], dtype=torch.float64)
c = hrebsd_coords(torch.ones(6, dtype=torch.float64), v, q, F, (4, 4), 1, torch.device("cpu"), torch.float64)
w = c.detach()
g, = torch.autograd.grad((c * w).sum(), F)
assert g.abs().max() < 1e-9, g
'''),
dict(id="c36-zero-rotation",property="C36",edits=[(V,'''    tau = vecs[..., 3:]
    rexp, v = w_exp_vmat(omegas)
''','''    tau = vecs[..., 3:]
    rexp, v = w_exp_vmat(torch.where(torch.abs(omegas) < 1e-7, 0.0, omegas))
''')],
needs="the gradient of a motion at exactly no rotation, or with a rotation about a coordinate axis",
breaks="components that are zero at the start of a fit never receive a gradient",
demo=T+'''from ebsdtorch.lie_algebra.se3 import se3_exp_map_split
v = torch.tensor([[0.0, 0, 0, 1, 2, 3], [0.3, 0, 0, 1, 2, 3]], dtype=torch.float64, requires_grad=True)
R, t = se3_exp_map_split(v)
g, = torch.autograd.grad((R * torch.arange(9.0, dtype=torch.float64).view(3, 3)).sum(), v)
assert (g[:, :3].abs() > 1e-3).all(), g
'''),
]
