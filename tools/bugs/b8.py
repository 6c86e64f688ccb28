W = "ebsdtorch/harmonics/wigner_d_logspace.py"
X = "ebsdtorch/harmonics/wigner_d_xnum.py"
S = "ebsdtorch/harmonics/sht.py"
C = "ebsdtorch/harmonics/sht_cc.py"
D = '''import torch, math, itertools
import numpy as np
from ebsdtorch.harmonics import wigner_d_logspace as W, wigner_d_xnum as X
CPU = torch.device("cpu")
F64 = torch.float64
def dmat(l, b):
    m = np.arange(-l, l)
    c = np.sqrt(l * (l + 1.0) - m * (m + 1.0)) / 2
    w, v = np.linalg.eigh(np.diag(c, 1) + np.diag(c, -1))
    w = np.round(w)
    c, s = (v * np.cos(b * w)) @ v.T, (v * np.sin(b * w)) @ v.T
    k = np.arange(2 * l + 1)
    k = (k[None] - k[:, None]) % 4
    return np.select([k == 0, k == 1, k == 2], [c, s, -c], -s)
def entry(t, l, m, n):
    return float(t.reshape(-1)[l * (l + 1) * (l + 2) // 6 + m * (m + 1) // 2 + n])
def check(t, L, b, tol=1e-9):
    for l in range(L + 1):
        d = dmat(l, b)
        for m in range(l + 1):
            for n in range(m + 1):
                assert abs(entry(t, l, m, n) - d[n + l, m + l]) < tol, (l, m, n, b)
'''
SH = '''import torch, math
import numpy as np
from ebsdtorch.harmonics.sht import CSHT, RSHT
CPU = torch.device("cpu")
def coeffs(L, b=1, real=False):
    P = np.zeros((b, 2 * L - 1, L), complex)
    k = 0
    for i in range(b):
        for l in range(L):
            for m in range(0 if real else -l, l + 1):
                k += 1
                v = math.cos(1.7 * k) + 0.5 + 1j * math.sin(2.3 * k + 0.4)
                if real:
                    v = v.real if m == 0 else v
                    P[i, L - 1 - m, l] = (-1) ** m * np.conj(v)
                P[i, L - 1 + m, l] = v
    return P
def back(L, prec="double", real=False, b=1):
    ct = torch.complex128 if prec == "double" else torch.complex64
    P = coeffs(L, b, real)
    t = (RSHT if real else CSHT)(L, CPU, prec)
    q = torch.tensor(P[:, L - 1:] if real else P, dtype=ct)
    return float((t.fsht(t.isht(q)) - q).abs().max())
'''
CC = SH + '''
from ebsdtorch.harmonics.sht_cc import rs2cc_, rs2cc_fast_, cs2cc_
from ebsdtorch.harmonics.wigner_d_logspace import wigner_d_eq_half_pi, read_lmn_wigner_d_half_pi_table
def table(B): return wigner_d_eq_half_pi(B + 2, torch.float32, CPU)
def dense(B):
    ll, nn, kk = torch.meshgrid(torch.arange(B), torch.arange(1 - B, B), torch.arange(1 - B, B), indexing="ij")
    v = (nn.abs() <= ll) & (kk.abs() <= ll)
    d = torch.zeros(B, 2 * B - 1, 2 * B - 1)
    d[v] = read_lmn_wigner_d_half_pi_table(table(B), torch.stack([ll[v], nn[v], kk[v]], -1))
    return d.to(torch.complex64)
def full(P): return torch.tensor(P, dtype=torch.complex64)
def half(P): return torch.tensor(P[:, P.shape[2] - 1:], dtype=torch.complex64)
'''
BUGS = [
dict(id="c21-degree-lookup",property="C21",edits=[(W,"    m, n = m_coords, n_coords\n\n    mask_mn_swap = torch.abs(m) < torch.abs(n)\n","    m, n = m_coords, n_coords\n\n    mask_mn_swap = m < torch.abs(n)\n")],
 needs="the lookup by degree with m negative and not smaller in magnitude than n",breaks="reads the entry of another order",
 demo=D+'''
t = W.wigner_d_eq_half_pi(6, F64, CPU)
for l in range(7):
    m, n = torch.meshgrid(torch.arange(-l, l + 1), torch.arange(-l, l + 1), indexing="ij")
    r = W.read_mn_wigner_d_half_pi_table(t, m, n, l)
    assert np.abs(r.numpy() - dmat(l, math.pi / 2).T).max() < 1e-9, l
'''),
dict(id="c22-small-weights",property="C22",edits=[(W,"        first_indices = m * L + l\n        second_indices = N * m + n\n\n        # filter indices and values out where the magnitude is less than 1e-15\n        mask = torch.abs(coeff) > 1.0e-14\n","        first_indices = m * L + l\n        second_indices = N * m + n\n\n        # filter indices and values out where the magnitude is less than 1e-15\n        mask = torch.abs(coeff) > 1.0e-5\n")],
 needs="a real function of a bandlimit with small but needed weights (double precision)",breaks="weights below 1e-5 are dropped",
 demo=SH+'''
L = 24
t = RSHT(L, CPU, "double")
c = CSHT(L, CPU, "double")
P = coeffs(L, 1, True)
a, b = t.isht(torch.tensor(P[:, L - 1:])), c.isht(torch.tensor(P))
assert float((a - b.real).abs().max()) < 1e-9, float((a - b.real).abs().max())
'''),
dict(id="c22-batch-end",property="C22",edits=[(W,'''    max_index = (((L - 1) * L) // 2 * (L + 1)) // 3 + ((L - 1) * L) // 2 + L

    indices = []
    values = []

    # here we do batches because we can't necessarily store the 8x
    # larger table with m < 0 and |m| < |n| both allowed in memory
    for batch_start in range(0, max_index, batch_size):
        indices_batch = torch.arange(
            batch_start,
            min(batch_start + batch_size, max_index),
            device=device,
            dtype=dtype_int,
        )
        lmk = coords_from_index(indices_batch)

        # quarter clone will first be swapped where m != n
        lmk_half_clone''','''    max_index = (((L - 1) * L) // 2 * (L + 1)) // 3 + ((L - 1) * L) // 2 + L

    indices = []
    values = []

    # here we do batches because we can't necessarily store the 8x
    # larger table with m < 0 and |m| < |n| both allowed in memory
    for batch_start in range(0, max_index - max_index % min(batch_size, max_index), batch_size):
        indices_batch = torch.arange(
            batch_start,
            min(batch_start + batch_size, max_index),
            device=device,
            dtype=dtype_int,
        )
        lmk = coords_from_index(indices_batch)

        # quarter clone will first be swapped where m != n
        lmk_half_clone''')],
 needs="a batch size of the weights that does not divide their number",breaks="the last, smaller batch is left out",
 demo=SH+'''
from ebsdtorch.harmonics.wigner_d_logspace import rsht_weights_half_pi
a = rsht_weights_half_pi(5, CPU, "double").to_dense()
for b in (1, 2, 3, 4, 7, 50):
    assert (a - rsht_weights_half_pi(5, CPU, "double", b).to_dense()).abs().max() < 1e-12, b
'''),
dict(id="c33-complex-conj",property="C33",edits=[(C,"        g_n = gconj[:, m_inds_full, l][:, None, None, :]  # (..., m, k, n)\n","        g_n = gconj[:, m_inds_full, l][:, None, None, :]  # (..., m, k, n)\n        if l == B - 1:\n            g_n = g_n.conj()\n"),(C,"            torch.arange(-l, l + 1, dtype=torch.int32, device=f.device) + B - 1\n        )\n        # get the relevant harmonic coefficients for g and f for the current l\n","            torch.arange(B - 1 - l, B + l, dtype=torch.int32, device=f.device)\n        )\n        # get the relevant harmonic coefficients for g and f for the current l\n")],
 needs="the complex variant with coefficients of the last degree",breaks="they are not conjugated",
 demo=CC+'''
for B in (1, 2, 3, 4):
    P = coeffs(B, 1, True); Q = coeffs(B, 2, True)[1:]
    c = cs2cc_(B, full(P), full(Q), table(B)); r = rs2cc_(B, half(P), half(Q), table(B))
    assert float((c - r.abs()).abs().max()) < 1e-3, B
'''),
dict(id="c33-magnitude",property="C33",edits=[(C,"        norm=\"forward\",\n    ).abs()\n","        norm=\"forward\",\n    ).real\n")],
 needs="the complex variant at rotations where the overlap is negative or complex",breaks="returns the real part instead of the magnitude",
 demo=CC+'''
B = 3
P = coeffs(B); 
c = cs2cc_(B, full(1j * P), full(P), table(B)); d = cs2cc_(B, full(P), full(P), table(B))
assert float((c - d).abs().max()) < 1e-3 and float(c.min()) >= 0
'''),
dict(id="c33-real-sign",property="C33",edits=[(C,"                (g[:, m_inds_half[1:], l] * (-1.0) ** m_inds_half[1:][None, :]).flip(1),\n","                (g[:, m_inds_half[1:], l].flip(1) * (-1.0) ** m_inds_half[1:][None, :]),\n")],
 needs="coefficients of even degree and odd-order terms in the real variant",breaks="negative orders get the sign of the mirrored order",
 demo=CC+'''
for B in (2, 3, 4, 5):
    P = coeffs(B, 1, True); Q = coeffs(B, 2, True)[1:]
    a = rs2cc_(B, half(P), half(Q), table(B)); b = cs2cc_(B, full(P), full(Q), table(B))
    assert float((a.abs() - b).abs().max()) < 1e-3, B
'''),
dict(id="c33-fast-sign",property="C33",edits=[(C,"            g[:, 1:, :].flip(1) * ((-1.0) ** m_inds_half.flip(0))[None, :, None],\n","            g[:, 1:, :].flip(1) * ((-1.0) ** m_inds_half)[None, :, None],\n")],
 needs="an odd bandlimit in the fast variant",breaks="negative orders get the wrong sign",
 demo=CC+'''
for B in (2, 3, 4, 5):
    P = coeffs(B, 1, True); Q = coeffs(B, 2, True)[1:]
    a = rs2cc_(B, half(P), half(Q), table(B)); b = rs2cc_fast_(B, half(P), half(Q), dense(B))
    assert float((a - b).abs().max()) < 1e-3, B
'''),
dict(id="c33-broadcast",property="C33",edits=[(C,"    f_lmkb = torch.einsum(\"lmk,bml->blmk\", d_lmk[:, (B - 1) :, :], f)\n","    f_lmkb = torch.einsum(\"lmk,bml->blmk\", d_lmk[:, (B - 1) :, :], f)\n    if b1 > b2:\n        f_lmkb = f_lmkb[:1].expand(b1, -1, -1, -1)\n"),(C,"    cc = torch.einsum(\"blmk,blkn->bmkn\", f_lmkb, g_lknb)\n","    cc = torch.einsum(\"blmk,blkn->bmkn\", f_lmkb, g_lknb.contiguous())\n")],
 needs="several functions against one in the fast variant",breaks="all results are those of the first function",
 demo=CC+'''
B = 3
P = coeffs(B, 3, True); Q = coeffs(B, 1, True)
a = rs2cc_(B, half(P), half(Q), table(B)); b = rs2cc_fast_(B, half(P), half(Q), dense(B))
assert float((a - b).abs().max()) < 1e-3
'''),
]
