"""C33  Spherical cross correlation."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.harmonics.sht import CSHT, RSHT
from ebsdtorch.harmonics.sht_cc import rs2cc_, rs2cc_fast_, cs2cc_
from ebsdtorch.harmonics.wigner_d_logspace import wigner_d_eq_half_pi, read_lmn_wigner_d_half_pi_table

CPU = torch.device("cpu")
PAIRS = 9 if THOROUGH else 7
TOP = 32 if THOROUGH else 20
ck = Check("C33", bounds=f"every pair of spherical harmonics of every bandlimit to {PAIRS} at every rotation of the grid, real and complex; every rotation of the grid as the true one for bandlimits to {PAIRS}; "
           f"functions of all degrees for bandlimits to {TOP}; batches, tables of other sizes and number types, histories")


# ---------------------------------------------------------------- reference: functions on the sphere, rotated and integrated

def legendre(L, x):
    out = np.zeros((L, L) + x.shape)
    s = np.sqrt(np.clip(1 - x * x, 0, None))
    out[0, 0] = math.sqrt(1 / 4 / math.pi)
    for m in range(1, L):
        out[m, m] = -math.sqrt((2 * m + 1) / (2 * m)) * s * out[m - 1, m - 1]
    for m in range(L):
        if m + 1 < L:
            out[m, m + 1] = math.sqrt(2 * m + 3) * x * out[m, m]
        for l in range(m + 2, L):
            a = math.sqrt((4 * l * l - 1) / (l * l - m * m))
            b = math.sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1))
            out[m, l] = a * (x * out[m, l - 1] - b * out[m, l - 2])
    return out


def harmonics(L, xyz):
    """(2L-1, L, ...) all harmonics at points"""
    P = legendre(L, np.clip(xyz[..., 2], -1, 1))
    az = np.arctan2(xyz[..., 1], xyz[..., 0])
    Y = np.zeros((2 * L - 1, L) + az.shape, complex)
    for m in range(L):
        Y[L - 1 + m] = P[m] * np.exp(1j * m * az)
        Y[L - 1 - m] = (-1) ** m * P[m] * np.exp(-1j * m * az)
    return Y


def rot(axis, t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]] if axis == "z" else [[c, 0, s], [0, 1.0, 0], [-s, 0, c]])


def euler(B, i, j, k):
    """rotation of the place (i, j, k) of the volume"""
    h = 2 * math.pi / (2 * B - 1)
    return i * h + math.pi / 2, j * h + math.pi, k * h + math.pi / 2


def matrix(a, b, c):
    return rot("z", a) @ rot("y", b) @ rot("z", c)


def quadrature(B):
    x, w = np.polynomial.legendre.leggauss(B + 1)
    az = 2 * np.pi * np.arange(2 * B + 1) / (2 * B + 1)
    s = np.sqrt(1 - x * x)
    p = np.stack([s[:, None] * np.cos(az), s[:, None] * np.sin(az), x[:, None] + 0 * az], -1).reshape(-1, 3)
    return p, (w[:, None] + 0 * az).reshape(-1) * 2 * np.pi / (2 * B + 1)


def overlap_by_integration(B, F, G, i, j, k):
    """integral over the sphere of f(x) conj(g(R^-1 x)), pairs of functions"""
    p, w = quadrature(B)
    R = matrix(*euler(B, i, j, k))
    f = np.einsum("bml,mlp->bp", F, harmonics(B, p))
    g = np.einsum("bml,mlp->bp", G, harmonics(B, p @ R))
    return (f * g.conj() * w).sum(1)


def jx(l):
    m = np.arange(-l, l)
    c = np.sqrt(l * (l + 1.0) - m * (m + 1.0)) / 2
    w, v = np.linalg.eigh(np.diag(c, 1) + np.diag(c, -1))
    return np.round(w), v


_J = {}


def dmat(l, b):
    if l not in _J:
        _J[l] = jx(l)
    w, v = _J[l]
    c, s = (v * np.cos(b * w)) @ v.T, (v * np.sin(b * w)) @ v.T
    k = np.arange(2 * l + 1)
    k = (k[None] - k[:, None]) % 4
    return np.select([k == 0, k == 1, k == 2], [c, s, -c], -s)


def volume(B, F, G):
    """sum_lmn F_lm conj(G_ln D^l_mn(R)) at every rotation of the grid"""
    N = 2 * B - 1
    C = np.zeros((max(len(F), len(G)), N, N, N), complex)
    m = np.arange(1 - B, B)
    for j in range(N):
        D = np.zeros((len(C), N, N), complex)
        for l in range(B):
            s = slice(B - 1 - l, B + l)
            D[:, s, s] += dmat(l, euler(B, 0, j, 0)[1]) * F[:, s, l][:, :, None] * G[:, s, l].conj()[:, None, :]
        a = np.array([euler(B, i, 0, 0)[0] for i in range(N)])
        E = np.exp(1j * np.outer(a, m))
        C[:, :, j, :] = np.einsum("im,bmn,kn->bik", E, D, E)
    return C


def rotated(B, G, R):
    """coefficients of g(R^-1 x)"""
    p, w = quadrature(B)
    g = np.einsum("bml,mlp->bp", G, harmonics(B, p @ R))
    c = np.einsum("bp,mlp->bml", g * w, harmonics(B, p).conj())
    return c


# ---------------------------------------------------------------- code under test

_T = {}


def table(B, dt=torch.float32, extra=2):
    if (B, dt, extra) not in _T:
        _T[B, dt, extra] = wigner_d_eq_half_pi(B + extra, dt, CPU)
    return _T[B, dt, extra]


def dense(B):
    if ("d", B) not in _T:
        ll, nn, kk = torch.meshgrid(torch.arange(B), torch.arange(1 - B, B), torch.arange(1 - B, B), indexing="ij")
        v = (nn.abs() <= ll) & (kk.abs() <= ll)
        d = torch.zeros(B, 2 * B - 1, 2 * B - 1)
        d[v] = read_lmn_wigner_d_half_pi_table(table(B), torch.stack([ll[v], nn[v], kk[v]], -1))
        _T["d", B] = d.to(torch.complex64)
    return _T["d", B]


def half(B, F):
    return torch.tensor(F[:, B - 1 :], dtype=torch.complex64)


def full(F):
    return torch.tensor(F, dtype=torch.complex64)


VARIANTS = {
    "real": lambda B, F, G: rs2cc_(B, half(B, F), half(B, G), table(B)),
    "fast": lambda B, F, G: rs2cc_fast_(B, half(B, F), half(B, G), dense(B)),
    "complex": lambda B, F, G: cs2cc_(B, full(F), full(G), table(B)),
}


def judge(cx, B, F, G, want, key, names=("real", "fast", "complex"), rows=None, **case):
    n = np.sqrt((np.abs(F) ** 2).sum((1, 2)) * (np.abs(G) ** 2).sum((1, 2))).max()
    out = {}
    for nm in names:
        keep = F.copy(), G.copy()
        r = cx.call(VARIANTS[nm], B, F, G, _key=f"{key}-{nm}", _case=dict(B=B, **case))
        if r is not None:
            cx.close(r, np.abs(want) if nm == "complex" else want.real, f"{key}-{nm}", f"{nm}: volume is not the overlap at every rotation", tol=2e-5 * (1 + B) * max(1.0, n), rows=rows, B=B, **case)
            out[nm] = r
    return out


def real_basis(B):
    out, names = [], []
    for l in range(B):
        for m in range(l + 1):
            for v in (1, 1j) if m else (1,):
                c = np.zeros((2 * B - 1, B), complex)
                c[B - 1 - m, l] = (-1) ** m * np.conj(v)
                c[B - 1 + m, l] = v
                out.append(c)
                names.append((l, m, int(v != 1)))
    return np.array(out), names


def complex_basis(B):
    out, names = [], []
    for l in range(B):
        for m in range(-l, l + 1):
            c = np.zeros((2 * B - 1, B), complex)
            c[B - 1 + m, l] = 1
            out.append(c)
            names.append((l, m))
    return np.array(out), names


def wave(k):
    return math.cos(1.7 * k + 0.2) + 0.4 * math.sin(0.37 * k**1.5) + 1j * math.sin(2.3 * k + 0.5)


def functions(B, n, real=True, first=0):
    """n functions with all coefficients"""
    out = np.zeros((n, 2 * B - 1, B), complex)
    for i in range(n):
        k = 57 * (i + first)
        for l in range(B):
            for m in range(0 if real else -l, l + 1):
                k += 1
                v = wave(k)
                if real:
                    v = v.real if m == 0 else v
                    out[i, B - 1 - m, l] = (-1) ** m * np.conj(v)
                out[i, B - 1 + m, l] = v
    return out


def pairs(B):
    @ck.group(f"pairs-{B}", timeout=900)
    def g(cx):
        b, names = real_basis(B)
        ix = np.array(list(itertools.product(range(len(b)), repeat=2)))
        rows = np.array([names[i] + names[j] for i, j in ix])
        for k in range(0, len(ix), 256):
            F, G = b[ix[k : k + 256, 0]], b[ix[k : k + 256, 1]]
            judge(cx, B, F, G, volume(B, F, G), "harmonics", rows=rows[k : k + 256])
        cx.states(("real", B), rows)
        b, names = complex_basis(B)
        ix = np.array(list(itertools.product(range(len(b)), repeat=2)))
        rows = np.array([names[i] + names[j] for i, j in ix])
        for k in range(0, len(ix), 256):
            F, G = b[ix[k : k + 256, 0]], b[ix[k : k + 256, 1]]
            judge(cx, B, F, G, volume(B, F, G), "harmonics", ("complex",), rows=rows[k : k + 256])
        cx.states(("complex", B), rows)
        # sums of two harmonics: phases between them
        F = (b[ix[:, 0]] + 1j * b[ix[:, 1]])[:: 1 if B < 4 or THOROUGH else 3]
        G = functions(B, 1, False)
        for k in range(0, len(F), 256):
            judge(cx, B, F[k : k + 256], G, volume(B, F[k : k + 256], G), "sums", ("complex",))
        cx.sample(bandlimit=B, pairs=len(ix))


for B in range(PAIRS, 0, -1):
    pairs(B)


@ck.group("integral", timeout=900)
def integral(cx):
    """the overlap by rotating points and integrating, at every rotation of the grid"""
    for B in range(1, 8) if THOROUGH else range(1, 6):
        b, _ = real_basis(B)
        F, G = np.concatenate([functions(B, 2), b]), np.concatenate([functions(B, 2, first=7), b[::-1]])
        N = 2 * B - 1
        want = np.zeros((len(F), N, N, N), complex)
        for i, j, k in itertools.product(range(N), repeat=3):
            want[:, i, j, k] = overlap_by_integration(B, F, G, i, j, k)
            cx.state(B, i, j, k)
        judge(cx, B, F, G, want, "integral")
        F, G = functions(B, 3, False), functions(B, 3, False, 5)
        for i, j, k in itertools.product(range(N), repeat=3):
            want[:3, i, j, k] = overlap_by_integration(B, F, G, i, j, k)
        judge(cx, B, F, G, want[:3], "integral", ("complex",))
    cx.sample(bandlimit=B, rotations=N**3)


@ck.group("found", timeout=900)
def found(cx):
    """a function rotated by a rotation of the grid is found there, for every rotation, from samples on the sphere"""
    for B in range(2, PAIRS + 1):
        N = 2 * B - 1
        f0 = functions(B, 1, first=3)
        grid = list(itertools.product(range(N), repeat=3))
        F = np.concatenate([rotated(B, f0, matrix(*euler(B, *q))) for q in grid])
        n2 = (np.abs(f0) ** 2).sum()
        rs, cs = RSHT(B, CPU, "single"), CSHT(B, CPU, "single")
        # through the transforms: samples of the functions, then coefficients
        fr = rs.fsht(rs.isht(half(B, F)))
        gr = rs.fsht(rs.isht(half(B, f0)))
        fc, gc = cs.fsht(cs.isht(full(F))), cs.fsht(cs.isht(full(f0)))
        for nm, vol in (("real", cx.call(rs2cc_, B, fr, gr, table(B), _key="real")), ("fast", cx.call(rs2cc_fast_, B, fr, gr, dense(B), _key="fast")), ("complex", cx.call(cs2cc_, B, fc, gc, table(B), _key="complex"))):
            if vol is None or not cx.expect(tuple(vol.shape) == (len(grid), N, N, N), "shape", f"{nm}: volume of shape {tuple(vol.shape)}", B=B):
                continue
            v = vol.numpy().reshape(len(grid), -1)
            at = v[np.arange(len(grid)), np.arange(len(grid))]
            cx.expect_all(np.abs(at - n2) < 1e-3 * n2, nm + "-value", f"{nm}: overlap at the true rotation is not the square of the function", rows=grid, B=B)
            cx.expect_all(v.max(1) <= at + 1e-3 * n2, nm, f"{nm}: the true rotation is not the best", rows=grid, B=B)
        cx.states(B, np.array(grid))
    cx.sample(bandlimit=B, rotations=len(grid))


@ck.group("batches", timeout=600)
def batches(cx):
    for B in (1, 2, 3, 5):
        for real in (True, False):
            names = ("real", "fast", "complex") if real else ("complex",)
            for b1, b2 in itertools.product((1, 2, 3, 4), repeat=2):
                F, G = functions(B, b1, real), functions(B, b2, real, 11)
                cx.state(B, real, b1, b2)
                if b1 != b2 and 1 not in (b1, b2):
                    for nm in names:
                        try:
                            VARIANTS[nm](B, F, G)
                            cx.expect(False, "mismatch", f"{nm}: batches of {b1} and {b2} were accepted", B=B)
                        except Exception:
                            cx.expect(True, "mismatch")
                    continue
                out = judge(cx, B, F, G, volume(B, F, G), "batch", names, sizes=[b1, b2])
                # each pair alone
                for k in range(max(b1, b2)):
                    for nm in out:
                        one = VARIANTS[nm](B, F[k % b1 : k % b1 + 1], G[k % b2 : k % b2 + 1])
                        cx.close(one[0], out[nm][k], "alone", f"{nm}: pair alone", tol=1e-4 * (1 + B) ** 2, B=B, sizes=[b1, b2])
    cx.sample(bandlimit=B, batches=[4, 4])


@ck.group("tables", timeout=600)
def tables(cx):
    """larger tables, other number types, inputs that are slices, inputs unchanged"""
    for B in (1, 2, 3, 4, 6):
        F, G = functions(B, 2), functions(B, 2, first=4)
        want = volume(B, F, G)
        e = 2e-5 * (1 + B) * np.sqrt((np.abs(F) ** 2).sum((1, 2)) * (np.abs(G) ** 2).sum((1, 2))).max() + 1e-4
        for dt, extra in itertools.product((torch.float32, torch.float64), (-1, 0, 1, 2, 7)):
            if B + extra < 1:
                continue
            t = table(B, dt, extra)
            for lay in ("plain", "slice", "transposed"):
                def put(x):
                    if lay == "slice":
                        return torch.nn.functional.pad(x, (1, 2, 2, 1))[:, 2:-1, 1:-2]
                    return x.transpose(1, 2).contiguous().transpose(1, 2) if lay == "transposed" else x
                for nm, fn, a in (("real", rs2cc_, half), ("complex", cs2cc_, lambda B, x: full(x))):
                    f, g = put(a(B, F)), put(a(B, G))
                    kf, kg, kt = f.clone(), g.clone(), t.clone()
                    r = cx.call(fn, B, f, g, t, _key=nm, _case=dict(B=B, extra=extra, layout=lay))
                    if r is not None:
                        cx.close(r, want.real if nm == "real" else np.abs(want), nm, f"{nm}: volume", tol=e, B=B, extra=extra, dtype=str(dt), layout=lay)
                        cx.expect(torch.equal(f, kf) and torch.equal(g, kg) and torch.equal(t, kt), "inputs", "inputs were changed", B=B)
                f, g = put(half(B, F)), put(half(B, G))
                r = cx.call(rs2cc_fast_, B, f, g, dense(B), _key="fast", _case=dict(B=B, layout=lay))
                if r is not None:
                    cx.close(r, want.real, "fast", "fast: volume", tol=e, B=B, layout=lay)
                cx.state(B, str(dt), extra, lay)
    cx.sample(bandlimit=B)


def large(B):
    @ck.group(f"large-{B}", timeout=900)
    def g(cx):
        F, G = functions(B, 2), functions(B, 2, first=9)
        judge(cx, B, F, G, volume(B, F, G), "large")
        cx.state(B, "real")
        F, G = functions(B, 1, False), functions(B, 1, False, 9)
        judge(cx, B, F, G, volume(B, F, G), "large", ("complex",))
        cx.state(B, "complex")
        # single degrees
        for l in range(B):
            H = np.zeros_like(F)
            H[:, :, l] = functions(B, 1)[:, :, l]
            judge(cx, B, H, H, volume(B, H, H), "degree", l=l)
            cx.state(B, l)
        cx.sample(bandlimit=B)


for B in range(TOP, PAIRS, -1):
    large(B)


if __name__ == "__main__":
    ck.main()
