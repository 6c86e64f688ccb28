"""C28  k-vector grids: every direction of the crystal is sampled."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contextlib, io, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import sgref as R
from ebsdtorch.crystallography.unit_cell import Cell
from ebsdtorch.crystallography.kvectors import kvectors_grid
import ebsdtorch.crystallography.groups as G

HALF = [1, 2, 3, 4, 5, 7, 8, 11, 12] + ([6, 9, 10, 13, 16, 20, 25] if THOROUGH else [])
ck = Check("C28", bounds=f"230 space groups and 24 second settings x grid half widths {HALF}: every node of the full grid on both hemispheres is followed to its symmetry equivalents")
LAT = {1: (0.4, 0.5, 0.6, 91, 95, 99), 2: (0.4, 0.5, 0.6, 90, 97, 90), 3: (0.4, 0.5, 0.6, 90, 90, 90), 4: (0.4, 0.4, 0.6, 90, 90, 90), 5: (0.4, 0.4, 0.6, 90, 90, 120),
       6: (0.4, 0.4, 0.6, 90, 90, 120), 7: (0.4, 0.4, 0.4, 90, 90, 90)}


def cell(cx, sg, s=1):
    lat = LAT[R.system(sg)]
    with contextlib.redirect_stdout(io.StringIO()):
        return cx.call(Cell, sg, [(28, 0.1, 0.2, 0.3, 1.0, 0.005)], lat[:3], "nm", lat[3:], "deg", s, _key="Cell", _case=(sg, s))


def ref_square(x, y):
    """Rosca's equal area map of the square [-1, 1]^2 to the hemisphere"""
    out = np.zeros((len(x), 3))
    for i, (a, b) in enumerate(zip(x, y)):
        m = max(abs(a), abs(b))
        if m == 0:
            out[i] = 0, 0, 1
            continue
        r = math.sqrt(max(0.0, 1 - (1 - m * m) ** 2))
        if abs(a) >= abs(b):
            p = math.pi / 4 * b / a
            q = math.copysign(1, a)
            out[i] = q * r * math.cos(p), q * r * math.sin(p), 1 - m * m
        else:
            p = math.pi / 4 * a / b
            q = math.copysign(1, b)
            out[i] = q * r * math.sin(p), q * r * math.cos(p), 1 - m * m
    return out


def ref_hex(i, j, n):
    """hexagonal lattice point i a1 + j a2 (120 degrees apart): sextant by sextant,
    the distance to the hexagon centre along the edge normal gives the latitude,
    the position along the edge gives the longitude."""
    x, y = (i - 0.5 * j) / n, j * math.sqrt(3) / 2 / n
    out = np.full((len(x), 3), np.nan)
    for k, (a, b) in enumerate(zip(x, y)):
        if a == 0 and b == 0:
            out[k] = 0, 0, 1
            continue
        t = math.atan2(b, a)
        s = math.floor(t / (math.pi / 3) + 1e-12)
        mid = (s + 0.5) * math.pi / 3  # direction of the edge normal
        u, v = a * math.cos(mid) + b * math.sin(mid), -a * math.sin(mid) + b * math.cos(mid)
        h = u / (math.sqrt(3) / 2)  # 1 at the edge of the hexagon
        if h > 1 + 1e-9:
            continue
        h = min(h, 1.0)
        phi = mid + v / u * math.sqrt(3) * math.pi / 6  # v/u = tan(30 deg) at the corner -> 30 degrees
        r = math.sqrt(max(0.0, 1 - (1 - h * h) ** 2))
        out[k] = r * math.cos(phi), r * math.sin(phi), 1 - h * h
    return out


_full = {}


def full(n, hexa):
    """all nodes of the grid with half width n"""
    if (n, hexa) not in _full:
        i, j = [a.ravel() for a in np.meshgrid(np.arange(-n, n + 1), np.arange(-n, n + 1), indexing="ij")]
        k = ref_hex(i, j, n) if hexa else ref_square(i / n, j / n)
        ok = np.isfinite(k).all(1)
        _full[n, hexa] = (np.stack([i, j], 1)[ok], k[ok])
    return _full[n, hexa]


def mk(lo, hi):
    @ck.group(f"coverage{lo}", timeout=800)
    def g(cx):
        for sg in range(lo, hi):
            hexa = R.system(sg) in (5, 6)
            for s in (1, 2) if sg in R.TWO else (1,):
                c = cell(cx, sg, s)
                if c is None:
                    continue
                with contextlib.redirect_stdout(io.StringIO()):
                    ops = G.sg_operators(sg, s).double().numpy()
                W = np.unique(np.round(ops[:, :3, :3]).astype(int).reshape(-1, 9), axis=0).reshape(-1, 3, 3)
                A = c.dsm.double().numpy()
                Q = np.einsum("ij,ajk,kl->ail", A, W, np.linalg.inv(A))
                cx.expect(len(W) == R.PG_ORDER[R.pg_index(sg)] and np.abs(np.einsum("aij,akj->aik", Q, Q) - np.eye(3)).max() < 1e-9, f"{sg}/ops", "point group in the Cartesian frame")
                for n in HALF:
                    r = cx.call(kvectors_grid, c, n, _key=f"{sg}", _case=(sg, s, n))
                    if r is None:
                        break
                    k, ij = r[0].double().numpy(), r[1].numpy()
                    nm = f"space group {sg} {R.HM[sg-1]} (half width {n})"
                    if not cx.expect(k.shape == (len(k), 3) and ij.shape == (len(k), 3) and len(k), f"{sg}/shape", f"{k.shape} {ij.shape}"):
                        break
                    cx.expect(np.isfinite(k).all() and np.abs(np.linalg.norm(k, axis=1) - 1).max() < 1e-5, f"{sg}/unit", f"{nm}: directions are unit vectors")
                    cx.expect(np.isin(ij[:, 2], (1, -1)).all() and (k[:, 2] * ij[:, 2] > -1e-6).all(), f"{sg}/hemisphere", f"{nm}: the hemisphere flag is the sign of z")
                    cx.expect(len(np.unique(ij, axis=0)) == len(ij) and np.abs(ij[:, :2]).max() <= n, f"{sg}/nodes", f"{nm}: grid nodes are distinct and inside the grid")
                    FI, FK = full(n, hexa)
                    look = {tuple(a): b for a, b in zip(FI.tolist(), FK)}
                    want = np.array([look.get((a, b), (np.nan,) * 3) for a, b, _ in ij.tolist()])
                    want[:, 2] *= ij[:, 2]
                    cx.close(k, want, f"{sg}/direction", f"{nm}: the direction belongs to the grid node", tol=3e-5, rows=ij)
                    # every node of both hemispheres is equivalent to a sampled one
                    K = np.concatenate([FK, FK * [1, 1, -1]])
                    best = np.full(len(K), np.inf)
                    for q in Q:
                        m = K @ q.T
                        d2 = 2 - 2 * (m @ k.T).max(1)
                        best = np.minimum(best, d2)
                    cx.trans(len(K) * len(Q))
                    cx.expect_all(np.sqrt(np.maximum(best, 0)) < 5e-3, f"{sg}/covered", f"{nm}: directions whose equivalents are all missing from the grid", rows=K)
                    cx.state(sg, s, n, len(k))
        cx.sample(sg=lo, half=HALF[-1])


for lo in range(1, 231, 12):
    mk(lo, min(lo + 12, 231))


@ck.group("override")
def override(cx):
    """a sampling scheme may be forced; the two full schemes contain every node"""
    for sg, hexa in ((1, False), (225, False), (194, True), (62, False)):
        c = cell(cx, sg)
        for n in HALF:
            for st, two in ((1, True), (2, False)):
                r = cx.call(kvectors_grid, c, n, st, _key="call")
                cx.state(sg, n, st)
                if r is None:
                    continue
                want = {(i, j, f) for i in range(-n, n + 1) for j in range(-n, n + 1) for f in ((1, -1) if two else (1,))}
                cx.expect(set(map(tuple, r[1].tolist())) == want and len(r[1]) == len(want), f"scheme{st}", "all nodes of the square grid")
    c = cell(cx, 225)
    for st in (0, 20, -1, 11, 13):
        try:
            kvectors_grid(c, 3, st)
            cx.fail("bad-scheme", f"sampling scheme {st} accepted")
        except (ValueError, NotImplementedError):
            cx.trans()


if __name__ == "__main__":
    ck.main()
