S="ebsdtorch/s2_and_so3/"
H='import torch, math\ntorch.set_num_threads(1)\n'
BUGS=[
dict(id="c01-bu2qu-sign",property="C01",edits=[(S+"orientations.py","    return qu * torch.where(qu[..., 0] < 0, -1, 1).unsqueeze(-1)\n\n\n@torch.jit.script\ndef qu2cl","    return qu * torch.where(qu[..., 1] < 0, -1, 1).unsqueeze(-1)\n\n\n@torch.jit.script\ndef qu2cl")],
 needs="Bunge angles for which the real part and the x component of the quaternion have different signs, followed by a conversion that relies on the positive real part",breaks="the sign convention of quaternions from Bunge angles",
 demo=H+'''
from ebsdtorch.s2_and_so3.orientations import bu2qu
g = torch.Generator().manual_seed(0)
b = torch.rand(500, 3, generator=g, dtype=torch.float64) * torch.tensor([6.28, 3.14, 6.28], dtype=torch.float64)
assert (bu2qu(b)[:, 0] > -1e-9).all()
'''),
dict(id="c01-ro-half-turn",property="C01",edits=[(S+"orientations.py","    ax[mask_inf_ro, 3] = torch.pi\n","    ax[mask_inf_ro, 3] = torch.pi / 2\n")],
 needs="a Rodrigues vector of a 180 degree rotation (infinite length)",breaks="half turns become quarter turns",
 demo=H+'''
from ebsdtorch.s2_and_so3.orientations import ro2ax
ro = torch.tensor([[0.0, 0.6, 0.8, math.inf], [1.0, 0.0, 0.0, 1.0]], dtype=torch.float64)
assert abs(float(ro2ax(ro)[0, 3]) - math.pi) < 1e-9
'''),
dict(id="c01-om2qu-branch",property="C01",edits=[(S+"orientations.py","    qu[branch_3, 2] = (m12[branch_3] + m21[branch_3]) * branch_3_t_rsqrt","    qu[branch_3, 2] = (m12[branch_3] - m21[branch_3]) * branch_3_t_rsqrt")],
 needs="a rotation by more than 120 degrees about an axis near z but not along it",breaks="the y component of the quaternion of the matrix",
 demo=H+'''
from ebsdtorch.s2_and_so3.orientations import om2qu, qu2om
q = torch.tensor([[0.1, 0.3, 0.4, 0.9]], dtype=torch.float64); q = q / q.norm()
assert (om2qu(qu2om(q)) - q).abs().max() < 1e-9
'''),
dict(id="c01-newton-f64",property="C01",edits=[(S+"orientations.py","    for _ in range(2 if h.dtype == torch.float32 else 3):","    for _ in range(1 if h.dtype == torch.float32 else 1):")],
 needs="a rotation by a large angle and ho2ax_newton",breaks="precision of the angle",
 demo=H+'''
from ebsdtorch.s2_and_so3.orientations import ax2ho, ho2ax_newton
ax = torch.tensor([[0.0, 0.6, 0.8, 3.1], [1.0, 0.0, 0.0, 2.5]], dtype=torch.float64)
assert (ho2ax_newton(ax2ho(ax)) - ax).abs().max() < 1e-8
'''),
dict(id="c02-apply-scale",property="C02",edits=[(S+"quaternions.py","    iw = aw - ax * bx - ay * by - az * bz\n    ix = aw * bx + ax + ay * bz - az * by\n    iy = aw * by - ax * bz + ay + az * bx","    iw = aw - ax * bx - ay * by - az * bz\n    ix = aw * bx + ax + ay * bz - az * by\n    iy = aw * by - ax * bz + ay - az * bx")],
 needs="rotation with a z component applied to a vector with an x component",breaks="the rotated vector",
 demo=H+'''
from ebsdtorch.s2_and_so3.quaternions import qu_apply
q = torch.tensor([0.5, 0.5, 0.5, 0.5], dtype=torch.float64)
assert (qu_apply(q, torch.tensor([1.0, 2.0, 3.0], dtype=torch.float64)) - torch.tensor([3.0, 1.0, 2.0], dtype=torch.float64)).abs().max() < 1e-9
'''),
dict(id="c05-two-phase",property="C05",edits=[(S+"laue_fz_ori.py",'''    # if the laue groups are the same, then the second laue group is the same as the first
    if laue_id_1 == laue_id_2:
        laue_group_2 = laue_group_1
    else:
        laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)

    # pre / post mult by Laue operators of the first and second symmetry groups respectively
    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
    equivalent_quat_pos_real''','''    # if the laue groups are the same, then the second laue group is the same as the first
    if get_laue_mult(laue_id_1) == get_laue_mult(laue_id_2):
        laue_group_2 = laue_group_1
    else:
        laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)

    # pre / post mult by Laue operators of the first and second symmetry groups respectively
    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
    equivalent_quat_pos_real''')],
 needs="two phases of different classes that have the same number of operators (for example mmm and 4/m, or m-3 and 6/mmm)",breaks="the disorientation angle of a boundary between these phases uses the wrong symmetry",
 demo=H+'''
from ebsdtorch.s2_and_so3.laue_fz_ori import disorientation, disori_angle_laue
from ebsdtorch.s2_and_so3.quaternions import qu_norm_std, qu_angle
g = torch.Generator().manual_seed(0)
a = qu_norm_std(torch.randn(300, 4, generator=g, dtype=torch.float64)); b = qu_norm_std(torch.randn(300, 4, generator=g, dtype=torch.float64))
for i in range(1, 12):
    for j in range(1, 12):
        d = qu_angle(disorientation(a, b, i, j)); e = disori_angle_laue(a, b, i, j)
        assert (d - e).abs().max() < 1e-6, (i, j)
'''),
dict(id="c05-misori-sign",property="C05",edits=[(S+"laue_fz_misori.py",'''    laue_group_1 = laue_elements(laue_id_1).to(qu.dtype).to(qu.device)
    laue_group_2 = laue_elements(laue_id_2).to(qu.dtype).to(qu.device)
''','''    laue_group_1 = laue_elements(laue_id_1).to(qu.dtype).to(qu.device)
    laue_group_2 = laue_elements(max(laue_id_1, laue_id_2)).to(qu.dtype).to(qu.device)
''')],
 needs="a misorientation between two phases where the second has the lower class number",breaks="reduction of the misorientation uses the symmetry of the first phase twice",
 demo=H+'''
from ebsdtorch.s2_and_so3.laue_fz_misori import misori_to_fz_laue
from ebsdtorch.s2_and_so3.quaternions import qu_norm_std, qu_angle, qu_conj
g = torch.Generator().manual_seed(0)
a = qu_norm_std(torch.randn(300, 4, generator=g, dtype=torch.float64))
for i in range(1, 12):
    for j in range(1, 12):
        d = qu_angle(misori_to_fz_laue(a, i, j)); e = qu_angle(misori_to_fz_laue(qu_conj(a), j, i))
        assert (d - e).abs().max() < 1e-6, (i, j)
'''),
dict(id="c06-trigonal-low",property="C06",edits=[(S+"laue_fz_s2.py","    PI_n23 = -2.0 * torch.pi / 3.0\n","    PI_n23 = -torch.pi / 3.0\n")],
 needs="class -3 and a direction with azimuth between -120 and -60 degrees",breaks="directions without a representative in the sector",
 demo=H+'''
from ebsdtorch.s2_and_so3.laue_fz_s2 import s2_in_fz_laue, s2_equiv_laue
g = torch.Generator().manual_seed(0)
x = torch.randn(5000, 3, generator=g, dtype=torch.float64); x = x / x.norm(dim=-1, keepdim=True)
n = s2_in_fz_laue(s2_equiv_laue(x, 6), 6).sum(-1)
assert (n == 1).all(), n.unique()
'''),
dict(id="c06-inverted",property="C06",edits=[(S+"laue_fz_s2.py",'''    equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)

    return equivalent_points''','''    equivalent_points = torch.cat(
        [
            equivalent_points,
            equivalent_points
            * torch.tensor([-1.0, -1.0, 1.0 if laue_id == 1 else -1.0], dtype=points.dtype),
        ],
        dim=1,
    )

    return equivalent_points''')],
 needs="the triclinic class",breaks="the equivalents of a direction contain a rotated direction in place of the inverted one",
 demo=H+'''
from ebsdtorch.s2_and_so3.laue_fz_s2 import s2_equiv_laue
x = torch.tensor([[0.6, 0.0, 0.8]], dtype=torch.float64)
assert (s2_equiv_laue(x, 1)[0, 1] + x[0]).abs().max() < 1e-9
'''),
dict(id="c07-side-by-side",property="C07",edits=[(S+"sphere.py","    out[..., 0] = (out[..., 0] / 2.0) - 0.5 + torch.where(z < 0, 1.0, 0)","    out[..., 0] = (out[..., 0] / 2.0) - 0.5 + torch.where(z < -1e-3, 1.0, 0)")],
 needs="a direction just below the equator",breaks="it is put on the map of the northern hemisphere",
 demo=H+'''
from ebsdtorch.s2_and_so3.sphere import rosca_lambert_side_by_side
x = torch.tensor([[1.0, 0.0, -1e-4], [0.6, 0.8, -5e-4]], dtype=torch.float64)
x = x / x.norm(dim=-1, keepdim=True)
assert (rosca_lambert_side_by_side(x)[:, 0] >= 0).all()
'''),
dict(id="c09-euclid-dtype",property="C09",edits=[("ebsdtorch/utils/knn.py","        # norms must be precomputed in FP32.\n        data_norm = (data.float() ** 2).sum(dim=-1)\n        q_norm = (query.float() ** 2).sum(dim=-1)","        data_norm = (data**2).sum(dim=-1).half()\n        q_norm = (query.float() ** 2).sum(dim=-1)")],
 needs="the euclidean metric and data of large norm, so that differences are lost in half precision",breaks="wrong nearest neighbors",
 demo=H+'''
from ebsdtorch.utils.knn import ChunkedKNN
g = torch.Generator().manual_seed(0)
d = torch.randn(64, 8, generator=g) + 20.0
k = ChunkedKNN(64, 64, 1, torch.device("cpu"), "euclidean", torch.float32, False)
k.set_data_chunk(d); k.query_all(d)
assert (k.retrieve_topk()[0][:, 0] == torch.arange(64)).all()
'''),
dict(id="c14-nearly-square",property="C14",edits=[("ebsdtorch/utils/factorize.py","        if factor_a > factor_b:\n            factor_b *= factor\n        else:\n            factor_a *= factor","        if factor_a > factor_b:\n            factor_b *= factor\n        elif factor_a * factor < 2**31:\n            factor_a *= factor")],
 needs="a number with a prime factor above 2^31",breaks="the two factors do not multiply to the number",
 demo=H+'''
from ebsdtorch.utils.factorize import nearly_square_factors
for n in (60, 2147483647 * 4, 4294967291 * 6, 4294967311):
    a, b = nearly_square_factors(n)
    assert a * b == n, n
'''),
dict(id="c16-screw",property="C16",edits=[("ebsdtorch/crystallography/groups.py",'"02nOOEfOOC0     ','"02nOOEfOOE0     ')],
 needs="space group 153 (P 32 1 2)",breaks="two fold axes lie at other heights (the operators still form a group)",
 demo=H+'''
from ebsdtorch.crystallography.groups import sg_operators
o = {s: sg_operators(s) for s in (151, 153)}
def heights(s):
    return sorted(round(float(x[2, 3]), 3) for x in o[s] if x[2, 2] < 0)
assert heights(151) == [0.0, 0.333, 0.667] == heights(153)
f = {s: [round(float(x[2, 3]), 3) for x in o[s] if (x[:3, :3] == torch.tensor([[0, -1, 0], [-1, 0, 0], [0, 0, -1]], dtype=x.dtype)).all()] for s in o}
assert f[151] == [0.667] and f[153] == [0.333], f
'''),
dict(id="c16-origin2",property="C16",edits=[("ebsdtorch/crystallography/groups.py",'"03bOOOgDDDhDDD1YYY  ','"03bOOOgDDDhDDD1YBY  ')],
 needs="the second setting of space group 86 (P 42/n)",breaks="the centre of inversion",
 demo=H+'''
from ebsdtorch.crystallography.groups import sg_operators
g4 = [x for x in sg_operators(86, 2) if (x[:3, :3] == torch.tensor([[0, -1, 0], [1, 0, 0], [0, 0, 1]], dtype=x.dtype)).all()]
# International Tables, origin choice 2: (3) -y, x+1/2, z+1/2
assert [round(float(v), 3) for v in g4[0][:3, 3]] == [0.0, 0.5, 0.5], g4
'''),
dict(id="c17-unique-any",property="C17",edits=[("ebsdtorch/crystallography/unit_cell.py","self.apos.append(unique_rows(all_pos[i], eps=1e-4))","self.apos.append(unique_rows(all_pos[0], eps=1e-4))")],
 needs="a cell with more than one atom site",breaks="every site gets the positions of the first one",
 demo=H+'''
from ebsdtorch.crystallography.unit_cell import Cell
c = Cell(225, [(11, 0, 0, 0, 1.0, 0.005), (17, 0.25, 0.25, 0.25, 1.0, 0.005)], (0.4, 0.4, 0.4), "nm", (90, 90, 90), "deg")
assert c.mults.tolist() == [4, 8], c.mults
'''),
dict(id="c17-eps",property="C17",edits=[("ebsdtorch/crystallography/unit_cell.py","self.apos.append(unique_rows(all_pos[i], eps=1e-4))","self.apos.append(unique_rows(all_pos[i], eps=1e-9))")],
 needs="an atom on a special position given with a rounded coordinate such as 0.333333",breaks="rounding errors make one atom count twice",
 demo=H+'''
from ebsdtorch.crystallography.unit_cell import Cell
c = Cell(194, [(12, 0.33333333, 0.66666667, 0.25, 1.0, 0.005)], (0.3, 0.3, 0.5), "nm", (90, 90, 120), "deg")
assert int(c.mults[0]) == 2, c.mults
'''),
]
