L = "ebsdtorch/s2_and_so3/laue_generators.py"
S = "ebsdtorch/s2_and_so3/sphere.py"
W = "ebsdtorch/harmonics/wigner_d_logspace.py"
K = "ebsdtorch/utils/pca_covmat.py"
T = "import torch\ntorch.set_num_threads(1)\ntorch.manual_seed(3)\n"
BUGS = [
dict(id="c03-kept-operators",property="C03",edits=[(L,'''@torch.jit.script
def laue_elements(laue_id: int) -> Tensor:
''','''@functools.lru_cache(maxsize=None)
def laue_elements(laue_id: int) -> Tensor:
'''),(L,'''
import torch
from torch import Tensor
''','''
import functools

import torch
from torch import Tensor
''')],
needs="operators of the same Laue group asked for again after the first result was changed in place",
breaks="the operators are no longer those of the group",
demo=T+'''from ebsdtorch.s2_and_so3.laue_generators import laue_elements
from ebsdtorch.s2_and_so3.quaternions import qu_prod
for i in range(1, 12):
    first = laue_elements(i)
    keep = first.clone()
    # a misoriented crystal: the operators in the frame of the sample
    first.copy_(qu_prod(torch.tensor([0.6, 0.0, 0.8, 0.0], dtype=first.dtype), first))
    assert torch.equal(laue_elements(i), keep), i
'''),
dict(id="c07-edge-height",property="C07",edits=[(S,'''    z_out = 1 - (2 * x_new**2 / pi)
''','''    z_out = torch.sqrt(torch.clamp(1 - radius**2, min=0.0))
''')],
needs="single precision, close to the edges of the square",
breaks="the height above the equator keeps no digits",
demo=T+'''from ebsdtorch.s2_and_so3.sphere import inv_rosca_lambert
e = torch.tensor([2e-6, 1e-5, 5e-5, 1e-3, 0.3])
p = torch.stack((1 - e, 0.4 * torch.ones(5)), -1)
z = inv_rosca_lambert(p)[:, 2]
assert (z - (1 - p[:, 0].double() ** 2)).abs().max() < 3e-6, z
'''),
dict(id="c07-double-pi",property="C07",edits=[(S,'''    pi = torch.pi
    # map to first quadrant and swap x and y if needed
''','''    pi = torch.tensor(torch.pi, dtype=torch.float32, device=pts.device)
    # map to first quadrant and swap x and y if needed
''')],
needs="double precision",
breaks="the inverse square projection is only as good as single precision",
demo=T+'''from ebsdtorch.s2_and_so3.sphere import inv_rosca_lambert
p = torch.rand(500, 2, dtype=torch.float64) * 2 - 1
assert ((inv_rosca_lambert(p) ** 2).sum(-1) - 1).abs().max() < 1e-11
z = 1 - inv_rosca_lambert(p)[:, 2]
assert (z - p.abs().max(-1).values ** 2).abs().max() < 1e-11
'''),
dict(id="c21-index-order",property="C21",edits=[(W,'''    return (((l * (l + 1)) // 2) * (l + 2)) // 3 + (m * (m + 1)) // 2 + n
''','''    return (l * (l + 1) * (l + 2)) // 6 + (m * (m + 1)) // 2 + n
''')],
needs="32 bit coordinates with a degree between 1290 and 1624",
breaks="the product overflows although the index still fits",
demo=T+'''from ebsdtorch.harmonics.wigner_d_logspace import index_from_coords
for l in (10, 500, 1289, 1290, 1400, 1600):
    i = int(index_from_coords(torch.tensor([[l, l, 3]], dtype=torch.int32))[0])
    assert i == l * (l + 1) * (l + 2) // 6 + l * (l + 1) // 2 + 3, (l, i)
'''),
dict(id="c21-index-type",property="C21",edits=[(W,'''    dtype_int = torch.int32 if torch.max(indices).item() < 2**28 else torch.int64
''','''    dtype_int = torch.int32 if torch.max(indices).item() < 2**31 else torch.int64
''')],
needs="32 bit indices above 358 million (degrees from 1290)",
breaks="the tetrahedral numbers overflow and the coordinates are wrong",
demo=T+'''from ebsdtorch.harmonics.wigner_d_logspace import coords_from_index
for l in (10, 700, 1200, 1280, 1300, 1500):
    i = l * (l + 1) * (l + 2) // 6 + 7
    c = coords_from_index(torch.tensor([i], dtype=torch.int32))
    assert c.tolist() == [[l, 3, 1]], (l, c)
'''),
dict(id="c12-small-variance",property="C12",edits=[(K,'''            d_sqrt_inv = 1.0 / torch.sqrt(torch.diag(covmat))
''','''            d_sqrt_inv = 1.0 / torch.sqrt(torch.diag(covmat).clamp(min=1e-6))
''')],
needs="features whose variance is small (images scaled to [0, 1] with little contrast)",
breaks="the correlations of such features are too small",
demo=T+'''from ebsdtorch.utils.pca_covmat import OnlineCovMatrix
x = torch.randn(40, 3) @ torch.randn(3, 3)
for scale in (1.0, 0.01, 3e-4):
    m = OnlineCovMatrix(3, correlation=True)
    m(x[:15] * scale)
    m(x[15:] * scale)
    assert torch.allclose(m.get_covmat(), torch.corrcoef(x.T), atol=1e-3), scale
'''),
]
