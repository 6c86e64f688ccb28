C="ebsdtorch/crystallography/"
H='''import torch, math, io, contextlib
torch.set_num_threads(1)
def q(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)
from ebsdtorch.crystallography.unit_cell import Cell
'''
SIN='''        upmod = preg * pref * torch.abs(gg)
        # complex Ucg = U_g + i Uprime_g = U_g,r-Uprime_g,i + i(U_g,i+Uprime_g,r)
        ucg = pre * torch.complex(ff.real - gg.imag, ff.imag + gg.real)'''
BUGS=[
dict(id="c18-reverse-setting",property="C18",edits=[(C+"unit_cell.py","return (-g[..., 0] + g[..., 1] + g[..., 2]) % 3 == 0","return (g[..., 0] - g[..., 1] + g[..., 2]) % 3 == 0")],
 needs="a rhombohedral space group",breaks="the obverse centring rule becomes the reverse one, so that allowed reflections are dropped and forbidden ones listed",
 demo=H+'''
c = q(Cell, 166, [(28, 0.0, 0.0, 0.0, 1.0, 0.005)], (0.4, 0.4, 1.2), "nm", (90, 90, 120), "deg")
h = set(map(tuple, q(c.get_reflections, dmin=0.2, difference_table=False).tolist()))
assert (1, 0, 1) in h and (0, 1, 1) not in h
'''),
dict(id="c18-a-centring",property="C18",edits=[(C+"unit_cell.py","return (g[..., 1] + g[..., 2]) % 2 == 0","return (torch.abs(g[..., 1]) + g[..., 0]) % 2 == 0")],
 needs="one of the four A centred space groups (38 to 41)",breaks="the centring rule of A centred lattices",
 demo=H+'''
c = q(Cell, 40, [(28, 0.1, 0.2, 0.3, 1.0, 0.005)], (0.4, 0.5, 0.6), "nm", (90, 90, 90), "deg")
g = torch.tensor([[0, 1, 1], [1, 0, 0], [1, 1, 0], [0, 1, 0]])
assert q(c.is_g_allowed, g).tolist() == [True, True, False, False]
'''),
dict(id="c28-no-southern",property="C28",edits=[(C+"kvectors.py","                if pg == 14:\n                    if 115 <= sg <= 120:\n                        stnum = 6","                if pg == 14:\n                    if 115 <= sg <= 122:\n                        stnum = 6")],
 needs="space group 121 or 122 (I-42m, I-42d)",breaks="the sampled sector is the one of -4m2, so that half of the directions have no sampled equivalent",
 demo=H+'''
from ebsdtorch.crystallography.kvectors import kvectors_grid
c = q(Cell, 121, [(28, 0.1, 0.2, 0.3, 1.0, 0.005)], (0.4, 0.4, 0.6), "nm", (90, 90, 90), "deg")
d = q(Cell, 111, [(28, 0.1, 0.2, 0.3, 1.0, 0.005)], (0.4, 0.4, 0.6), "nm", (90, 90, 90), "deg")
a, b = q(kvectors_grid, c, 4)[1].tolist(), q(kvectors_grid, d, 4)[1].tolist()
assert sorted(a) == sorted(b)
'''),
dict(id="c28-minus-z-flag",property="C28",edits=[(C+"kvectors.py","        mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])\n        kstar = square_to_hemisphere(xy[mask])\n        kstar = torch.cat((kstar, kstar.clone()), dim=0)","        mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (k_ij[:, 0] > k_ij[:, 1])\n        kstar = square_to_hemisphere(xy[mask])\n        kstar = torch.cat((kstar, kstar.clone()), dim=0)")],
 needs="a crystal with point group 4mm and a direction on the diagonal mirror plane",breaks="directions on the diagonal mirror (the pole among them) are not sampled",
 demo=H+'''
from ebsdtorch.crystallography.kvectors import kvectors_grid
c = q(Cell, 99, [(28, 0.1, 0.2, 0.3, 1.0, 0.005)], (0.4, 0.4, 0.6), "nm", (90, 90, 90), "deg")
ij = q(kvectors_grid, c, 3)[1].tolist()
assert [0, 0, 1] in ij and [2, 2, -1] in ij
'''),
dict(id="c29-absorption-phase",property="C29",edits=[(C+"diffraction.py",SIN,SIN.replace("torch.complex(ff.real - gg.imag,","torch.complex(ff.real + gg.imag,"))],
 needs="a crystal without inversion centre and absorption switched on",breaks="the absorptive part of the potential coefficients gets the wrong phase",
 demo=H+'''
from ebsdtorch.crystallography.diffraction import calc_helper_bloch_formalism as f
at = [(31, 0.0, 0.0, 0.0, 1.0, 0.005), (33, 0.25, 0.25, 0.25, 1.0, 0.005)]
lat = ((0.56,) * 3, "nm", (90,) * 3, "deg")
V = torch.tensor([20.0])
from ebsdtorch.crystallography.diffraction import calc_helper_scatter_matrix as m
u, (_, w, _, lam) = q(f, q(Cell, 216, at, *lat), 0.15, V)[1][0], q(m, q(Cell, 216, at, *lat), 0.15, V)
assert (u * lam - w[0]).abs().max() < 1e-4 * w.abs().max()
'''),
dict(id="c29-site-occupancy",property="C29",edits=[(C+"diffraction.py","        gg += p1[None, :] * scatter_factors[:, site].imag * occupancy[site]\n\n    vmod = pref * torch.abs(ff)\n\n    # prepare return tensors (Ucg and qg)\n    if absorption:\n        upmod","        gg += p1[None, :] * scatter_factors[:, site].imag * occupancy[0]\n\n    vmod = pref * torch.abs(ff)\n\n    # prepare return tensors (Ucg and qg)\n    if absorption:\n        upmod")],
 needs="sites with different occupancies and absorption",breaks="absorption of the later sites uses the occupancy of the first",
 demo=H+'''
from ebsdtorch.crystallography.diffraction import calc_helper_bloch_formalism as f
a, b = (11, 0.0, 0.0, 0.0, 1.0, 0.005), (17, 0.5, 0.5, 0.5, 0.5, 0.005)
lat = ((0.5,) * 3, "nm", (90,) * 3, "deg")
V = torch.tensor([20.0])
u, v = (q(f, q(Cell, 225, x, *lat), 0.15, V)[1][0] for x in ([a, b], [b, a]))
assert (u - v).abs().max() < 1e-4 * u.abs().max()
'''),
dict(id="c30-first-potential",property="C30",edits=[(C+"ebsd_master.py","                dynmat_V[v]\n","                dynmat_V[0]\n")],
 needs="several voltages in one call",breaks="all voltages are computed with the potential of the first",
 demo=H+'''
from ebsdtorch.crystallography.ebsd_master import ebsd_master_pattern as f
c = q(q(Cell, 225, [(28, 0.0, 0.0, 0.0, 1.0, 0.005)], (0.35,) * 3, "nm", (90,) * 3, "deg").set_fp_dtype, torch.float32)
w = torch.tensor([[0.4, 0.3, 0.2, 0.1]] * 2)
a = q(f, c, torch.tensor([30.0, 10.0]), 2.0, w, 0.11, grid_half_width=2)
b = q(f, c, torch.tensor([10.0]), 2.0, w[:1], 0.11, grid_half_width=2)
assert (2 * a[1] - b[0]).abs().max() < 1e-3 * b.abs().max()
'''),
dict(id="c30-weight-row",property="C30",edits=[(C+"ebsd_master.py","Lgh += mc_weights[v, d] * torch.einsum","Lgh += mc_weights[0, d] * torch.einsum")],
 needs="several voltages with different depth distributions",breaks="depths of all voltages are weighted with the distribution of the first",
 demo=H+'''
from ebsdtorch.crystallography.ebsd_master import ebsd_master_pattern as f
c = q(q(Cell, 225, [(28, 0.0, 0.0, 0.0, 1.0, 0.005)], (0.35,) * 3, "nm", (90,) * 3, "deg").set_fp_dtype, torch.float32)
w = torch.tensor([[0.4, 0.3, 0.2, 0.1], [0.1, 0.2, 0.3, 0.4]])
V = torch.tensor([20.0, 20.0])
a = q(f, c, V, 2.0, w, 0.11, grid_half_width=2)
b = q(f, c, V.flip(0), 2.0, w.flip(0), 0.11, grid_half_width=2)
assert (a.flip(0) - b).abs().max() < 1e-3 * b.abs().max()
'''),
dict(id="c30-cell-wide-sites",property="C30",edits=[(C+"diffraction.py","        pos = cell.apos[ip]  # Shape: (n_equiv_pos, 3)","        pos = cell.apos[ip][: cell.apos[0].shape[0]]  # Shape: (n_equiv_pos, 3)")],
 needs="a later site with a higher multiplicity than the first",breaks="the weights of a site leave out part of its equivalent positions",
 demo=H+'''
from ebsdtorch.crystallography.diffraction import calc_sgh
lat = ((0.5,) * 3, "nm", (90,) * 3, "deg")
a, b = (26, 0.0, 0.0, 0.0, 1.0, 0.004), (16, 0.385, 0.385, 0.385, 1.0, 0.005)
x, y = (q(calc_sgh, q(Cell, 205, s, *lat), 0.2) for s in ([a, b], [b, a]))
assert (x - y.flip(0)).abs().max() < 1e-3 * x.abs().max()
'''),
dict(id="c31-core-branch",property="C31",edits=[(C+"scattering_factors/scattering_factors_WK.py","            OMEGA > 1e-2,","            OMEGA > 1e1,")],
 needs="core losses at moderate scattering angles",breaks="the small angle limit of the exchange term is used at all angles",
 demo=H+'''
from ebsdtorch.crystallography.scattering_factors.scattering_factors_WK import scatter_factor_WK as f
from ebsdtorch.crystallography.scattering_factors.scattering_factors_Hybrid import scatter_factor_hybrid as h
g, Z, s, V = torch.tensor([0.5, 1.0], dtype=torch.float64), torch.tensor([28]), torch.tensor([0.06], dtype=torch.float64), torch.tensor([20.0], dtype=torch.float64)
a, b = f(g * 2 * math.pi, Z, s, V, include_phonon=False).imag, h(g, Z, s, V, include_phonon=False).imag
assert (a - b).abs().max() < 1e-2 * b.max()
'''),
dict(id="c31-zero-angle",property="C31",edits=[(C+"scattering_factors/scattering_factors_WK.py","                + B_j * torch.log((B_i + B_j + 2 * M) / (B_j + 2 * M))","                + (B_j + 2 * M) * torch.log((B_i + B_j + 2 * M) / (B_j + 2 * M))")],
 needs="thermal absorption at zero momentum transfer",breaks="the mean absorption (forward scattering) only",
 demo=H+'''
from ebsdtorch.crystallography.scattering_factors.scattering_factors_WK import scatter_factor_WK as f
g, Z, s, V = torch.tensor([0.0, 0.05], dtype=torch.float64), torch.tensor([28]), torch.tensor([0.06], dtype=torch.float64), torch.tensor([20.0], dtype=torch.float64)
a = f(g, Z, s, V, include_core=False).imag[0, 0]
assert abs(a[0] / a[1] - 1) < 5e-3
'''),
]
