"""C22  Spherical harmonic transforms."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.harmonics.sht import CSHT, RSHT, grid_DriscollHealy, theta_phi_to_xyz
from ebsdtorch.harmonics.wigner_d_logspace import csht_weights_half_pi, rsht_weights_half_pi

CPU = torch.device("cpu")
LMAX = 64 if THOROUGH else 32
BIG = (90, 129, 200) if THOROUGH else (64, 101)
ck = Check("C22", bounds=f"every spherical harmonic of every bandlimit 1..{LMAX} in both directions, complex and real, double and single precision; all functions with coefficients in {{-1, 0, 1}} (times 1, i) for small bandlimits; "
           f"all harmonics of the highest degrees and orders for bandlimits {BIG}; batches, memory layouts, batch sizes of the weights, pairs of bandlimits, histories of calls")


def legendre(L, x):
    """normalised associated Legendre functions with Condon-Shortley phase: [m, l]"""
    out = np.zeros((L, L) + x.shape)
    s = np.sqrt(1 - x * x)
    out[0, 0] = math.sqrt(1 / 4 / math.pi)
    for m in range(1, L):
        out[m, m] = -math.sqrt((2 * m + 1) / (2 * m)) * s * out[m - 1, m - 1]
    for m in range(L):
        if m + 1 < L:
            out[m, m + 1] = math.sqrt(2 * m + 3) * x * out[m, m]
        for l in range(m + 2, L):
            a = math.sqrt((4 * l * l - 1) / (l * l - m * m))
            b = math.sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1))
            out[m, l] = a * (x * out[m, l - 1] - b * out[m, l - 2])
    return out


def angles(L):
    az = np.pi * np.arange(2 * L) / L
    po = np.pi * (2 * np.arange(2 * L) + 1) / (4 * L)
    return az, po


class Basis:
    """harmonics of bandlimit L on the grid with 2N x 2N points"""

    def __init__(self, L, N=None):
        self.L = L
        self.az, po = angles(N or L)
        self.P = legendre(L, np.cos(po))

    def y(self, l, m):
        v = np.exp(1j * m * self.az)[:, None] * self.P[abs(m), l][None]
        return v * (-1) ** m if m < 0 else v

    def lm(self):
        return [(l, m) for l in range(self.L) for m in range(-l, l + 1)]


def tol(single, L):
    return 2e-4 * max(1, L / 16) if single else 1e-10


def types(single):
    return (torch.complex64, torch.float32) if single else (torch.complex128, torch.float64)


def complex_basis(cx, L, lms, prec, chunk=256):
    B, single = Basis(L), prec == "single"
    ct, rt = types(single)
    t = cx.call(CSHT, L, CPU, prec, _key="construct", _case=L)
    if t is None:
        return
    for k in range(0, len(lms), chunk):
        part = lms[k : k + chunk]
        Psi = torch.zeros(len(part), 2 * L - 1, L, dtype=ct)
        for i, (l, m) in enumerate(part):
            Psi[i, m + L - 1, l] = 1
        keep = Psi.clone()
        Y = np.stack([B.y(l, m) for l, m in part])
        f = cx.call(t.isht, Psi, _key="isht", _case=L)
        if f is not None:
            cx.expect(torch.equal(Psi, keep), "isht-input", "the coefficients were changed", L=L)
            cx.close(f, Y, "synthesis", "inverse transform of a harmonic is not the harmonic", tol=tol(single, L), rows=part, L=L, precision=prec)
        g = torch.tensor(Y, dtype=ct)
        keep = g.clone()
        b = cx.call(t.fsht, g, _key="fsht", _case=L)
        if b is not None:
            cx.expect(torch.equal(g, keep), "fsht-input", "the function was changed", L=L)
            cx.close(b, Psi, "analysis", "transform of a harmonic is not its coefficient alone", tol=tol(single, L), rows=part, L=L, precision=prec)
        for l, m in part:
            cx.state("c", prec, L, l, m)


def real_basis(cx, L, lms, prec, chunk=256):
    B, single = Basis(L), prec == "single"
    ct, rt = types(single)
    t = cx.call(RSHT, L, CPU, prec, _key="construct", _case=L)
    c = cx.call(CSHT, L, CPU, prec, _key="construct", _case=L) if L <= 64 else None
    if t is None:
        return
    cases = [(l, m, v) for l, m in lms if m >= 0 for v in ((1, 1j) if m else (1,))]
    for k in range(0, len(cases), chunk):
        part = cases[k : k + chunk]
        Psi = torch.zeros(len(part), L, L, dtype=ct)
        for i, (l, m, v) in enumerate(part):
            Psi[i, m, l] = v
        keep = Psi.clone()
        Y = np.stack([(v * B.y(l, m)).real * (2 if m else 1) for l, m, v in part])
        f = cx.call(t.isht, Psi, _key="isht", _case=L)
        if f is not None:
            cx.expect(torch.equal(Psi, keep), "isht-input", "the coefficients were changed", L=L)
            cx.expect(not f.is_complex(), "real", "inverse transform is not real", L=L)
            cx.close(f, Y, "synthesis", "inverse transform of a real harmonic is not the harmonic", tol=2 * tol(single, L), rows=[(l, m, 0 if v == 1 else 1) for l, m, v in part], L=L, precision=prec)
        g = torch.tensor(Y, dtype=rt)
        keep = g.clone()
        b = cx.call(t.fsht, g, _key="fsht", _case=L)
        if b is not None:
            cx.expect(torch.equal(g, keep), "fsht-input", "the function was changed", L=L)
            cx.close(b, Psi, "analysis", "transform of a real harmonic is not its coefficient alone", tol=2 * tol(single, L), rows=[(l, m, 0 if v == 1 else 1) for l, m, v in part], L=L, precision=prec)
        if c is not None:
            d = cx.call(c.fsht, g, _key="fsht", _case=L)
            if d is not None:
                want = np.zeros((len(part), 2 * L - 1, L), complex)
                for i, (l, m, v) in enumerate(part):
                    want[i, L - 1 - m, l] = (-1) ** m * np.conj(v)
                    want[i, L - 1 + m, l] = v
                cx.close(d, want, "both", "complex transform of a real function", tol=2 * tol(single, L), L=L, precision=prec)
        for q in part:
            cx.state("r", prec, L, *q)


def every(prec, odd):
    @ck.group(f"every-{prec}-{odd}", timeout=800)
    def g(cx):
        for L in range(1, LMAX + 1):
            if L % 2 == odd:
                lms = Basis(L).lm()
                complex_basis(cx, L, lms, prec)
                real_basis(cx, L, lms, prec)
        cx.sample(bandlimit=L, precision=prec, harmonics=len(lms))


def big(L, prec):
    @ck.group(f"big-{L}-{prec}", timeout=800)
    def g(cx):
        edge = sorted({(l, m) for l in range(L) for m in (-l, -1, 0, 1, l - 1, l) if abs(m) <= l} | {(L - 1, m) for m in range(1 - L, L)} | {(L // 2, m) for m in range(-(L // 2), L // 2 + 1)})
        if not THOROUGH:
            edge = [q for q in edge if q[0] >= L - 3 or q[0] % 9 == 0]
        complex_basis(cx, L, edge, prec, 64)
        real_basis(cx, L, edge, prec, 64)
        cx.sample(bandlimit=L, precision=prec, harmonics=len(edge))


for L, prec in itertools.product(BIG[::-1], ("double", "single")):
    big(L, prec)
for prec, odd in itertools.product(("double", "single"), (0, 1)):
    every(prec, odd)


@ck.group("grid", timeout=300)
def grid(cx):
    for L in range(1, 130):
        az, po = angles(L)
        for dt, e in ((torch.float64, 1e-12), (torch.float32, 2e-6)):
            g = cx.call(grid_DriscollHealy, L, dt, _key="grid", _case=L)
            if g is None:
                continue
            want = np.stack(np.meshgrid(az, po, indexing="ij"), -1)
            cx.close(g, want, "grid", "grid points", tol=e, L=L)
            x = theta_phi_to_xyz(g)
            cx.close(x, np.stack([np.cos(want[..., 0]) * np.sin(want[..., 1]), np.sin(want[..., 0]) * np.sin(want[..., 1]), np.cos(want[..., 1])], -1), "points", "points on the sphere", tol=2 * e, L=L)
            cx.state(L, str(dt))
    cx.sample(bandlimit=3, first=[0.0, math.pi / 12])


@ck.group("combinations", timeout=600)
def combinations(cx):
    """all functions with coefficients -1, 0, 1 (times 1 or i) of small bandlimits"""
    for L in (1, 2):
        B = Basis(L)
        slots = B.lm()
        t = CSHT(L, CPU, "double")
        vals = (-1, 0, 1) if L > 1 else (-1, 0, 1, 1j, -1j, 1 + 1j)
        for phase in (1, 1j):
            co = np.array(list(itertools.product(vals, repeat=len(slots)))) * phase
            Psi = np.zeros((len(co), 2 * L - 1, L), complex)
            for k, (l, m) in enumerate(slots):
                Psi[:, m + L - 1, l] = co[:, k]
            Y = np.stack([B.y(l, m) for l, m in slots])
            f = np.einsum("bk,kij->bij", co, Y)
            cx.close(t.isht(torch.tensor(Psi)), f, "complex-isht", "function of several harmonics", tol=1e-11, rows=co.real, L=L)
            cx.close(t.fsht(torch.tensor(f)), Psi, "complex-fsht", "coefficients of several harmonics", tol=1e-11, rows=co.real, L=L)
            cx.states(("c", L, phase), co)
    for L in (1, 2, 3) if THOROUGH else (1, 2):
        B = Basis(L)
        slots = [(l, m, v) for l, m in B.lm() if m >= 0 for v in ((1, 1j) if m else (1,))]
        t = RSHT(L, CPU, "double")
        co = np.array(list(itertools.product((-1, 0, 1), repeat=len(slots))))
        Psi = np.zeros((len(co), L, L), complex)
        for k, (l, m, v) in enumerate(slots):
            Psi[:, m, l] += co[:, k] * v
        Y = np.stack([(v * B.y(l, m)).real * (2 if m else 1) for l, m, v in slots])
        f = np.einsum("bk,kij->bij", co, Y)
        cx.close(t.isht(torch.tensor(Psi)), f, "real-isht", "function of several harmonics", tol=1e-11, rows=co, L=L)
        cx.close(t.fsht(torch.tensor(f)), Psi, "real-fsht", "coefficients of several harmonics", tol=1e-11, rows=co, L=L)
        cx.states(("r", L), co)
    cx.sample(functions=len(co), bandlimit=L)


def wave(n, k, cplx=True):
    a = np.cos(1.7 * np.arange(n) + k) + 0.3 * np.sin(0.37 * np.arange(n) ** 1.5 + k)
    return a + 1j * np.sin(2.3 * np.arange(n) + 1.1 * k) if cplx else a


def functions(L, b, real):
    """coefficients of b different functions, with the redundant places filled for the complex layout"""
    Psi = np.zeros((b, 2 * L - 1, L), complex)
    for i in range(b):
        k = 0
        for l in range(L):
            for m in range(0 if real else -l, l + 1):
                k += 1
                v = wave(1, 3 * k + 100 * i)[0]
                if real:
                    v = v.real if m == 0 else v
                    Psi[i, L - 1 - m, l] = (-1) ** m * np.conj(v)
                Psi[i, L - 1 + m, l] = v
    return Psi


LAYOUTS = {
    "contiguous": lambda a: a.clone(),
    "transposed": lambda a: a.transpose(1, 2).contiguous().transpose(1, 2),
    "batch-last": lambda a: a.permute(1, 2, 0).contiguous().permute(2, 0, 1),
    "slice": lambda a: torch.nn.functional.pad(a, (2, 3, 1, 2, 1, 1))[1:-1, 1:-2, 2:-3],
    "strided": lambda a: a.repeat_interleave(2, 2).repeat_interleave(2, 1)[:, ::2, ::2],
    "expanded": lambda a: a[:1].expand(a.shape[0], -1, -1),
}


@ck.group("layouts", timeout=600)
def layouts(cx):
    """batches, memory layouts, histories of calls of one transform, number types of the module"""
    for L in (1, 2, 3, 4, 7, 12):
        for kind in ("complex", "real"):
            M = CSHT if kind == "complex" else RSHT
            P = functions(L, 4, kind == "real")
            B = Basis(L)
            f = sum(P[:, m + L - 1, l][:, None, None] * B.y(l, m)[None] for l, m in B.lm())
            if kind == "real":
                P, f = P[:, L - 1 :], f.real
            for prec, (ct, rt) in (("double", types(False)), ("single", types(True))):
                t = M(L, CPU, prec)
                e = tol(prec == "single", L) * 10 * max(1, np.abs(f).max())
                Pt, ft = torch.tensor(P, dtype=ct), torch.tensor(f, dtype=ct if kind == "complex" else rt)
                for b in (1, 2, 3, 4):
                    for nm, lay in LAYOUTS.items():
                        a, g = lay(Pt[:b]), lay(ft[:b])
                        n = 1 if nm == "expanded" else b
                        s = cx.call(t.isht, a, _key=f"isht-{nm}", _case=dict(L=L, batch=b, layout=nm, kind=kind))
                        if s is not None:
                            cx.close(s[:n], f[:n], "isht", "inverse transform depends on the layout or batch", tol=e, L=L, batch=b, layout=nm, kind=kind, precision=prec)
                            cx.expect(s.shape[0] == b, "batch", f"{s.shape[0]} results for {b}", L=L)
                        s = cx.call(t.fsht, g, _key=f"fsht-{nm}", _case=dict(L=L, batch=b, layout=nm, kind=kind))
                        if s is not None:
                            cx.close(s[:n], P[:n], "fsht", "transform depends on the layout or batch", tol=e, L=L, batch=b, layout=nm, kind=kind, precision=prec)
                        cx.state(L, kind, prec, b, nm)
                # there and back, both ways, again and again with the same transform
                for seq in itertools.product((0, 1, 2), repeat=3):
                    for q in seq:
                        if q == 0:
                            cx.close(t.fsht(t.isht(Pt)), P, "return", "coefficients do not come back", tol=e, L=L, kind=kind, seq=seq)
                        elif q == 1:
                            cx.close(t.isht(t.fsht(ft)), f, "return", "function does not come back", tol=e, L=L, kind=kind, seq=seq)
                        else:
                            t.isht(2 * Pt[:1]), t.fsht(ft[1:3])
                    cx.state(L, kind, prec, seq)
            # other number type of the whole module
            t = cx.call(lambda: M(L, CPU, "double").float(), _key="float", _case=dict(L=L, kind=kind))
            if t is not None:
                ct, rt = types(True)
                s = cx.call(t.isht, torch.tensor(P, dtype=ct), _key="float", _case=dict(L=L, kind=kind))
                if s is not None:
                    cx.close(s, f, "float", "module converted to single precision", tol=tol(True, L) * 10 * max(1, np.abs(f).max()), L=L, kind=kind)
    cx.sample(bandlimit=L, layouts=list(LAYOUTS))


@ck.group("bandlimits", timeout=600)
def bandlimits(cx):
    """pairs of bandlimits: a function of a low bandlimit sampled finer has the same coefficients, and trimmed coefficients the lower part"""
    top = 14 if THOROUGH else 9
    cs = {L: (CSHT(L, CPU, "double"), RSHT(L, CPU, "double")) for L in range(1, top + 1)}
    for lo in range(1, top + 1):
        P = functions(lo, 2, True)
        for hi in range(lo, top + 1):
            B = Basis(lo, hi)
            f = sum(P[:, m + lo - 1, l][:, None, None] * B.y(l, m)[None] for l, m in B.lm()).real
            c, r = (cs[hi][k].fsht(torch.tensor(f)) for k in (0, 1))
            wc, wr = np.zeros((2, 2 * hi - 1, hi), complex), np.zeros((2, hi, hi), complex)
            wc[:, hi - lo : hi + lo - 1, :lo] = P
            wr[:, :lo, :lo] = P[:, lo - 1 :]
            cx.close(c, wc, "complex", "coefficients of a function of lower bandlimit", tol=1e-10, low=lo, high=hi)
            cx.close(r, wr, "real", "coefficients of a function of lower bandlimit", tol=1e-10, low=lo, high=hi)
            bl = Basis(lo)
            back = sum(P[:, m + lo - 1, l][:, None, None] * bl.y(l, m)[None] for l, m in bl.lm()).real
            cx.close(cs[lo][1].isht(r[:, :lo, :lo]), back, "trimmed", "trimmed coefficients", tol=1e-10, low=lo, high=hi)
            cx.close(cs[lo][0].isht(c[:, hi - lo : hi + lo - 1, :lo]), back, "trimmed", "trimmed coefficients", tol=1e-10, low=lo, high=hi)
            cx.state(lo, hi)
    cx.sample(low=3, high=top)


@ck.group("weights", timeout=600)
def weights(cx):
    """the number of entries that are computed at once does not matter"""
    for L in range(1, 12 if THOROUGH else 9):
        for fn in (csht_weights_half_pi, rsht_weights_half_pi):
            for prec, e in (("double", 1e-10), ("single", 1e-3)):
                ref = fn(L, CPU, "double", 10**7).to_dense()
                n = L * (L + 1) * (L + 2) // 6
                for b in sorted({1, 2, 3, 5, 7, 16, max(1, n - 1), n, n + 1, n // 2 + 1}):
                    w = cx.call(fn, L, CPU, prec, b, _key="weights", _case=dict(L=L, batch=b, precision=prec))
                    if w is not None:
                        cx.close(w.to_dense().double(), ref, "weights", "weights depend on the batch size", tol=e, L=L, batch=b, precision=prec, fn=str(fn.__name__))
                        cx.state(fn.__name__, L, prec, b)
    cx.sample(L=L, batch=b)


if __name__ == "__main__":
    ck.main()
