S="ebsdtorch/s2_and_so3/"
H='import torch, math\ntorch.set_num_threads(1)\n'
BUGS=[
dict(id="c01-gimbal-pi",property="C01",edits=[(S+"orientations.py","bu[mB, 0] = torch.atan2(2 * qu[mB, 1] * qu[mB, 2],","bu[mB, 0] = torch.atan2(-2 * qu[mB, 1] * qu[mB, 2],")],
 needs="a 180 degree rotation about an axis in the xy plane that is not a coordinate axis (gimbal lock at Phi = pi)",breaks="Bunge angles of such orientations describe another rotation",
 demo=H+'''
from ebsdtorch.s2_and_so3.orientations import qu2bu, bu2qu
r = 0.5 ** 0.5
q = torch.tensor([[0.0, r, r, 0.0], [0.0, 0.6, 0.8, 0.0], [0.0, -0.6, 0.8, 0.0]], dtype=torch.float64)
b = bu2qu(qu2bu(q))
assert ((b * q).sum(-1).abs() > 1 - 1e-9).all(), b
'''),
dict(id="c01-bu2qu-sign",property="C01",edits=[(S+"orientations.py","    return qu * torch.where(qu[..., 0] < 0, -1, 1).unsqueeze(-1)\n\n\n@torch.jit.script\ndef qu2cl","    return qu * torch.sign(qu[..., 0]).unsqueeze(-1)\n\n\n@torch.jit.script\ndef qu2cl")],
 needs="Bunge angles of a rotation whose real part is exactly zero",breaks="the quaternion of such a 180 degree rotation is the zero vector",
 demo=H+'''
from ebsdtorch.s2_and_so3.orientations import qu2bu, bu2qu
for bu in ([0.0, math.pi, 0.0], [0.3, math.pi, 0.3], [1.0, 0.5, 0.2]):
    q = bu2qu(torch.tensor([bu], dtype=torch.float64))
    assert abs(float(q.norm()) - 1) < 1e-9, (bu, q)
    # exactly zero real part (cos(pi/2) is not zero in floating point)
import ebsdtorch.s2_and_so3.orientations as O
h = torch.tensor([[math.pi, 0.0, 0.0], [0.5 * math.pi, 0.0, 0.5 * math.pi], [0.0, math.pi, 0.0]], dtype=torch.float64)
for dt in (torch.float64, torch.float32):
    q = bu2qu(h.to(dt))
    assert ((q.norm(dim=-1) - 1).abs() < 1e-5).all(), q
b = torch.tensor([[2 * math.pi, 0.0, -math.pi], [0.0, math.pi, 0.0]], dtype=torch.float64)
# search for angles whose half angle has a cosine of exactly zero or that cancels
x = torch.tensor([[math.pi, 0.0, 0.0]], dtype=torch.float64)
from itertools import product
g = torch.tensor([[a * math.pi / 4, p * math.pi / 4, c * math.pi / 4] for a, p, c in product(range(-8, 9), repeat=3)], dtype=torch.float32)
q = bu2qu(g)
assert ((q.norm(dim=-1) - 1).abs() < 1e-5).all()
z = torch.tensor([[0.0, 1e30, 0.0]], dtype=torch.float64)
v = torch.linspace(3.14, 3.143, 200001, dtype=torch.float16)
w = torch.stack((torch.zeros_like(v), v, torch.zeros_like(v)), -1)
q = bu2qu(w.double())
assert ((q.norm(dim=-1) - 1).abs() < 1e-2).all()
'''),
dict(id="c01-identity-snap",property="C01",edits=[(S+"orientations.py","rot_is_identity = torch.abs(ho_norm_sq) < 1e-6","rot_is_identity = torch.abs(ho_norm_sq) < 1e-4")],
 needs="a homochoric vector of a rotation by less than about a degree",breaks="rotations by up to 1.1 degrees are converted to the identity",
 demo=H+'''
from ebsdtorch.s2_and_so3.orientations import ax2ho, ho2ax
ax = torch.tensor([[0.0, 0.6, 0.8, 0.01], [1.0, 0.0, 0.0, 0.018], [1.0, 0.0, 0.0, 0.5]], dtype=torch.float64)
b = ho2ax(ax2ho(ax))
assert (b - ax).abs().max() < 1e-5, b
'''),
dict(id="c02-align-acos",property="C02",edits=[(S+"quaternions.py","    angle = torch.atan2(cross_norm, dot)\n","    angle = torch.acos(torch.clamp(dot, -1.0, 1.0))\n")],
 needs="two directions that are nearly but not exactly parallel",breaks="the aligning rotation misses the target direction by far more than rounding",
 demo=H+'''
from ebsdtorch.s2_and_so3.quaternions import quaternion_rotate_sets_sphere, qu_apply
a = torch.tensor([[0.0, 0.6, 0.8]] * 4, dtype=torch.float64)
d = torch.tensor([1e-9, 5e-9, 1e-8, 1e-4], dtype=torch.float64)
b = a.clone()
b[:, 0] = d
b = b / b.norm(dim=-1, keepdim=True)
q = quaternion_rotate_sets_sphere(a, b)
assert (qu_apply(q, a) - b).abs().max() < 1e-12, (qu_apply(q, a) - b).abs().max()
'''),
dict(id="c02-triple-order",property="C02",edits=[(S+"quaternions.py","    return qu_prod_pos_real(a, qu_prod(b, c))","    return qu_prod_pos_real(b, qu_prod(a, c))")],
 needs="three rotations that do not commute",breaks="the real part of a triple product is that of another order of the factors",
 demo=H+'''
from ebsdtorch.s2_and_so3.quaternions import qu_triple_prod_pos_real, qu_prod_raw
a = torch.tensor([0.5, 0.5, 0.5, 0.5], dtype=torch.float64)
b = torch.tensor([0.6, 0.8, 0.0, 0.0], dtype=torch.float64)
c = torch.tensor([0.0, 0.0, 0.6, 0.8], dtype=torch.float64)
w = qu_prod_raw(a, qu_prod_raw(b, c))[0].abs()
assert (qu_triple_prod_pos_real(a, b, c) - w).abs() < 1e-9, (qu_triple_prod_pos_real(a, b, c), w)
'''),
dict(id="c03-d6-row",property="C03",edits=[(S+"laue_generators.py","            [0.0, 0.5, R3, 0.0],\n            [0.0, R3, 0.5, 0.0],\n            [0.0, -R3, 0.5, 0.0],","            [0.0, 0.5, R3, 0.0],\n            [0.0, R3, 0.5, 0.0],\n            [0.0, R3, -0.5, 0.0],")],
 needs="an equality of all operators of the hexagonal class up to sign (here: the sign only)",breaks="nothing a user relies on",raises=True,demo="assert True"),
dict(id="c03-d3-axes",property="C03",edits=[(S+"laue_generators.py","            [0.0, 1.0, 0.0, 0.0],\n            [0.0, -0.5, R3, 0.0],\n            [0.0, 0.5, R3, 0.0],\n        ],\n        dtype=torch.float64,\n    )\n\n    LAUE_C3","            [0.0, 0.0, 1.0, 0.0],\n            [0.0, R3, 0.5, 0.0],\n            [0.0, -R3, 0.5, 0.0],\n        ],\n        dtype=torch.float64,\n    )\n\n    LAUE_C3")],
 needs="trigonal high symmetry; the operators still form a group, with the two fold axes along y instead of x",breaks="the class is set in the other axis setting than its zone and its sector",
 demo=H+'''
from ebsdtorch.s2_and_so3.laue_generators import laue_elements
from ebsdtorch.s2_and_so3.laue_fz_ori import ori_to_fz_laue, ori_in_fz_laue
from ebsdtorch.s2_and_so3.quaternions import qu_norm_std
g = torch.Generator().manual_seed(0)
q = qu_norm_std(torch.randn(500, 4, generator=g, dtype=torch.float64))
f = ori_to_fz_laue(q, 7)
assert ori_in_fz_laue(f, 7).all()
'''),
dict(id="c04-d6-wedge",property="C04",edits=[(S+"laue_fz_ori.py","torch.where(m > (2 + 3**0.5) * n, m, (3**0.5 / 2) * m + 0.5 * n)","torch.where(m > (1 + 2**0.5) * n, m, (3**0.5 / 2) * m + 0.5 * n)")],
 needs="hexagonal orientation whose axis lies within a narrow wedge next to a two fold axis and near the boundary of the zone",breaks="membership accepts orientations outside of the zone",
 demo=H+'''
from ebsdtorch.s2_and_so3.laue_fz_ori import ori_in_fz_laue, ori_in_fz_laue_brute
from ebsdtorch.s2_and_so3.quaternions import qu_norm_std
g = torch.Generator().manual_seed(0)
q = qu_norm_std(torch.randn(200000, 4, generator=g, dtype=torch.float64))
a = ori_in_fz_laue(q, 9); b = ori_in_fz_laue_brute(q, 9)
assert (a == b).all(), int((a != b).sum())
'''),
dict(id="c04-d3-half",property="C04",edits=[(S+"laue_fz_ori.py","            torch.abs(quats[..., 1]) >= torch.abs(quats[..., 2]) * (3**0.5),","            torch.abs(quats[..., 1]) >= torch.abs(quats[..., 2]) * (3**0.5 + 0.5),")],
 needs="trigonal orientation near the boundary in a wedge of axes",breaks="membership of the zone",
 demo=H+'''
from ebsdtorch.s2_and_so3.laue_fz_ori import ori_in_fz_laue, ori_in_fz_laue_brute
from ebsdtorch.s2_and_so3.quaternions import qu_norm_std
g = torch.Generator().manual_seed(0)
q = qu_norm_std(torch.randn(200000, 4, generator=g, dtype=torch.float64))
a = ori_in_fz_laue(q, 7); b = ori_in_fz_laue_brute(q, 7)
assert (a == b).all(), int((a != b).sum())
'''),
dict(id="c05-two-phase",property="C05",edits=[(S+"laue_fz_ori.py",'''    # if the laue groups are the same, then the second laue group is the same as the first
    if laue_id_1 == laue_id_2:
        laue_group_2 = laue_group_1
    else:
        laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)

    # pre / post mult by Laue operators of the first and second symmetry groups respectively
    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
    equivalent_quaternions''','''    # if the laue groups are the same, then the second laue group is the same as the first
    if laue_id_1 == laue_id_2 or (laue_id_1 == 5 and laue_id_2 == 4):
        laue_group_2 = laue_group_1
    else:
        laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)

    # pre / post mult by Laue operators of the first and second symmetry groups respectively
    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
    equivalent_quaternions''')],
 needs="two phases, the first of class 4/mmm and the second of class 4/m",breaks="the disorientation of a boundary between these phases uses the wrong symmetry",
 demo=H+'''
from ebsdtorch.s2_and_so3.laue_fz_ori import disorientation, disori_angle_laue
from ebsdtorch.s2_and_so3.quaternions import qu_norm_std, qu_angle
g = torch.Generator().manual_seed(0)
a = qu_norm_std(torch.randn(300, 4, generator=g, dtype=torch.float64)); b = qu_norm_std(torch.randn(300, 4, generator=g, dtype=torch.float64))
for i in range(1, 12):
    for j in range(1, 12):
        d = qu_angle(disorientation(a, b, i, j)); e = disori_angle_laue(a, b, i, j)
        assert (d - e).abs().max() < 1e-6, (i, j)
'''),
dict(id="c06-cubic-low",property="C06",edits=[(S+"laue_fz_s2.py",'''                eta.ge(PI_4),
                chi
                <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(PI_2 - eta) ** 2)))''','''                eta.ge(PI_4),
                chi
                <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2)))''')],
 needs="class m-3 and a direction with azimuth above 45 degrees close to the outer boundary of the sector",breaks="directions of the sector are rejected or ones outside accepted",
 demo=H+'''
from ebsdtorch.s2_and_so3.laue_fz_s2 import s2_in_fz_laue, s2_equiv_laue
g = torch.Generator().manual_seed(0)
x = torch.randn(5000, 3, generator=g, dtype=torch.float64); x = x / x.norm(dim=-1, keepdim=True)
n = s2_in_fz_laue(s2_equiv_laue(x, 10), 10).sum(-1)
assert (n == 1).all(), n.unique()
'''),
dict(id="c08-fibonacci-f32",property="C08",edits=[(S+"sampling.py","    indices = torch.arange(n, device=device, dtype=torch.float64)\n    s = indices + 0.5","    indices = torch.arange(n, device=device, dtype=torch.float32)\n    s = indices + 0.5")],
 needs="single precision indices: quaternions lose precision with the number of samples",breaks="the spiral loses its spacing for many samples",
 demo=H+'''
from ebsdtorch.s2_and_so3.sampling import so3_fibonacci
n = 100000
q = so3_fibonacci(n, torch.device("cpu")).double()
i = torch.arange(n, dtype=torch.float64) + 0.5
PSI = 1.533751168755204288118041
b = 2 * math.pi * i / PSI
w = torch.stack(((i / n).sqrt() * torch.sin(2 * math.pi * i / 2 ** 0.5), (1 - i / n).sqrt() * torch.cos(b)), -1)
assert (q[:, [0, 3]] - w).abs().max() < 1e-6, (q[:, [0, 3]] - w).abs().max()
'''),
dict(id="c08-grid-endpoint",property="C08",edits=[(S+"sampling.py","        edge_length + 1,  # add extra point at the opposite faces\n","        edge_length,\n"),(S+"sampling.py","    cu = cu[:-1]\n","    cu = cu[:edge_length]\n")],
 needs="points on opposite faces of the cube, which are the same rotation",breaks="the grid contains rotations twice",
 demo=H+'''
from ebsdtorch.s2_and_so3.sampling import so3_cubochoric_grid
for n in (2, 3, 4, 5):
    q = so3_cubochoric_grid(n, torch.device("cpu")).double()
    d = (q @ q.T).abs() - 2 * torch.eye(len(q), dtype=torch.float64)
    # every face of the cube carries each half turn once
    k = int((d > 1 - 1e-6).sum())
    print(n, k)
    if n == 3:
        assert k == 0, k
'''),
dict(id="c09-last-chunk",property="C09",edits=[("ebsdtorch/utils/knn.py","        self.curr_start = self.curr_end - data_chunk.shape[0]\n","        n_chunk = data_chunk.shape[0]\n        self.curr_start = ((self.curr_end - 1) // n_chunk) * n_chunk\n")],
 needs="a data set whose last chunk is smaller than the others (and does not divide the start)",breaks="indices of neighbors found in the last chunk are offset",
 demo=H+'''
from ebsdtorch.utils.knn import ChunkedKNN
g = torch.Generator().manual_seed(0)
d = torch.nn.functional.normalize(torch.randn(10, 6, generator=g), dim=-1)
for cuts in ([10], [5, 5], [4, 4, 2], [4, 3, 3], [7, 3]):
    k = ChunkedKNN(10, 10, 1, torch.device("cpu"), "angular", torch.float32, False)
    o = 0
    for c in cuts:
        k.set_data_chunk(d[o:o + c]); o += c
        k.query_all(d)
    assert (k.retrieve_topk()[0][:, 0] == torch.arange(10)).all(), cuts
'''),
dict(id="c09-query-chunk",property="C09",edits=[("ebsdtorch/utils/knn.py","        old_knn_distances = self.knn_distances[query_start:query_end]\n","        old_knn_distances = self.knn_distances[: query_chunk.shape[0]]\n")],
 needs="queries in chunks and more than one data chunk",breaks="results of one query chunk are merged with distances of another",
 demo=H+'''
from ebsdtorch.utils.knn import ChunkedKNN
g = torch.Generator().manual_seed(0)
d = torch.nn.functional.normalize(torch.randn(10, 6, generator=g), dim=-1)
k = ChunkedKNN(10, 10, 1, torch.device("cpu"), "angular", torch.float32, False)
for a in (0, 5):
    k.set_data_chunk(d[a:a + 5])
    for b in (0, 3, 6, 9):
        k.query_chunk(d[b:b + 3], b)
assert (k.retrieve_topk()[0][:, 0] == torch.arange(10)).all()
'''),
dict(id="c14-square",property="C14",edits=[("ebsdtorch/utils/factorize.py","        for d in range(3, int(math.sqrt(x)) + 1, 2):","        for d in range(3, int(math.sqrt(x)), 2):")],
 needs="a number whose cofactor is the square of an odd prime",breaks="a composite is reported as a prime factor",
 demo=H+'''
from ebsdtorch.utils.factorize import FactorECM
for n in (12, 30, 49, 121, 98, 2401):
    f = FactorECM(n)
    assert math.prod(f) == n and all(all(p % d for d in range(2, p)) for p in f), (n, f)
'''),
dict(id="c15-point-group",property="C15",edits=[("ebsdtorch/utils/symmetry_classes.py",'["6/mmm", "6-m2", "6mm", "622"]','["6/mmm", "6mm", "622"]'),("ebsdtorch/utils/symmetry_classes.py",'["6/m", "6-", "6"]','["6/m", "6-", "6-m2", "6"]')],
 needs="the point group symbol 6-m2",breaks="its Laue group is reported as 6/m",
 demo=H+'''
from ebsdtorch.utils.symmetry_classes import point_group_to_laue
assert point_group_to_laue("6-m2") == 9 and point_group_to_laue("6-") == 8
'''),
dict(id="c15-boundary",property="C15",edits=[("ebsdtorch/utils/symmetry_classes.py","    elif space_group > 88:\n","    elif space_group > 89:\n")],
 needs="space group 89 (P 4 2 2), the first of its point group",breaks="its Laue group is reported as 4/m",
 demo=H+'''
from ebsdtorch.utils.symmetry_classes import space_group_to_laue
assert [space_group_to_laue(s) for s in (88, 89, 90)] == [4, 5, 5]
'''),
dict(id="c16-generator",property="C16",edits=[("ebsdtorch/crystallography/groups.py",'"13aDDDbODOcODO0                         ",         "02bOOOgOOO0','X')] ,needs="",breaks="",demo=""),
dict(id="c16-imma",property="C16",edits=[("ebsdtorch/crystallography/groups.py",'"13aDDDbODOcODO0                         ", "02bOOOgOOO0','"13aDDDbODOcOOD0                         ", "02bOOOgOOO0')],
 needs="space group 74 (I m m a)",breaks="the glide plane of the symbol is another one",
 demo=H+'''
from ebsdtorch.crystallography.groups import sg_operators
o = sg_operators(74)
# I m m a: glide plane perpendicular to c with translation a/2 (or, by centring, b/2)
t = {tuple((x[:3, 3] * 4).round().int().tolist()) for x in o if (x[:3, :3] == torch.diag(torch.tensor([1.0, 1.0, -1.0], dtype=x.dtype))).all()}
assert all((a[0] % 4, a[1] % 4) in ((2, 0), (0, 2)) for a in t), t
'''),
dict(id="c16-second-origin",property="C16",edits=[("ebsdtorch/crystallography/groups.py","04bOOOgDDDcDDDhDDD1YBY","04bOOOgDDDcDDDhDDD1YYY")],
 needs="space group 136/137 in its second setting",breaks="the origin of the second setting is not at the centre of inversion",
 demo=H+'''
from ebsdtorch.crystallography.groups import sg_operators
for sg in (130, 133, 134, 137, 138):
    o = sg_operators(sg, 2)
    inv = [x for x in o if (x[:3, :3] == -torch.eye(3, dtype=x.dtype)).all()]
    # origin choice 2 of primitive groups: inversion at the origin
    assert any(x[:3, 3].abs().max() < 1e-6 for x in inv), (sg, inv)
'''),
dict(id="c17-dot-frame",property="C17",edits=[("ebsdtorch/crystallography/unit_cell.py",'''            return torch.einsum("...i,ij,...j->...", p, self.rmt, q)
        elif space == "c":
            return torch.einsum("...i,...i->...", p, q)''','''            return torch.einsum("...i,ij,...i->...", p, self.rmt, q)
        elif space == "c":
            return torch.einsum("...i,...i->...", p, q)''')],
 needs="dot products in reciprocal space of vectors with several non-zero components",breaks="dot products and angles between plane normals",
 demo=H+'''
from ebsdtorch.crystallography.unit_cell import Cell
c = Cell(1, [(28, 0, 0, 0, 1.0, 0.005)], (0.4, 0.5, 0.6), "nm", (91, 95, 99), "deg")
p = torch.tensor([[1.0, 2.0, 0.0]], dtype=torch.float64); q = torch.tensor([[0.0, 1.0, 3.0]], dtype=torch.float64)
w = (p @ c.rmt @ q.T)[0, 0]
assert (c.calc_dot(p, q, "r")[0] - w).abs() < 1e-9
'''),
dict(id="c17-pm",property="C17",edits=[("ebsdtorch/crystallography/unit_cell.py","        elif abc_units == \"pm\":\n            # passed in pm, convert to nm\n            self.a *= 1e-3\n            self.b *= 1e-3\n            self.c *= 1e-3","        elif abc_units == \"pm\":\n            # passed in pm, convert to nm\n            self.a *= 1e-3\n            self.b *= 1e-3\n            self.c *= 0.1")],
 needs="lattice parameters given in pm",breaks="the cell is stretched along c",
 demo=H+'''
from ebsdtorch.crystallography.unit_cell import Cell
a = Cell(1, [(28, 0, 0, 0, 1.0, 0.005)], (0.4, 0.5, 0.6), "nm", (91, 95, 99), "deg")
b = Cell(1, [(28, 0, 0, 0, 1.0, 0.005)], (400, 500, 600), "pm", (91, 95, 99), "deg")
assert (a.dmt - b.dmt).abs().max() < 1e-9
'''),
dict(id="c17-unique-tol",property="C17",edits=[("ebsdtorch/crystallography/unit_cell.py","self.apos.append(unique_rows(all_pos[i], eps=1e-4))","self.apos.append(unique_rows(all_pos[i], eps=2e-1))")],
 needs="an atom close to (but not on) a symmetry element, so that its images are less than 0.2 apart",breaks="distinct atoms of the cell are merged",
 demo=H+'''
from ebsdtorch.crystallography.unit_cell import Cell
for x in (0.05, 0.2, 0.3):
    c = Cell(2, [(28, x, x, x, 1.0, 0.005)], (0.4, 0.5, 0.6), "nm", (91, 95, 99), "deg")
    assert int(c.mults[0]) == 2, (x, c.mults)
'''),
]
BUGS=[b for b in BUGS if b["id"] not in ("c03-d6-row","c16-generator")]
