"""Reference model of rotations: plain numpy float64, written from the definitions."""
import itertools
import math
from fractions import Fraction

import numpy as np


def qmul(a, b):
    a, b = np.asarray(a), np.asarray(b)
    aw, ax, ay, az = np.moveaxis(a, -1, 0)
    bw, bx, by, bz = np.moveaxis(b, -1, 0)
    return np.stack(
        [
            aw * bw - ax * bx - ay * by - az * bz,
            aw * bx + ax * bw + ay * bz - az * by,
            aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw,
        ],
        -1,
    )


def qconj(a):
    return np.asarray(a) * np.array([1, -1, -1, -1])


def q2R(q):
    """active rotation matrix: R v = vec(q v q*)"""
    q = np.asarray(q, dtype=np.float64)
    e = np.eye(3)
    cols = []
    for k in range(3):
        v = np.zeros(q.shape)
        v[..., 1:] = e[k]
        cols.append(qmul(qmul(q, v), qconj(q))[..., 1:])
    return np.stack(cols, -1)


def axang2R(n, t):
    n, t = np.asarray(n, float), np.asarray(t, float)[..., None, None]
    K = np.zeros(n.shape[:-1] + (3, 3))
    K[..., 0, 1], K[..., 0, 2], K[..., 1, 2] = -n[..., 2], n[..., 1], -n[..., 0]
    K[..., 1, 0], K[..., 2, 0], K[..., 2, 1] = n[..., 2], -n[..., 1], n[..., 0]
    return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * (K @ K)


def bu2R(b):
    b = np.asarray(b, float)
    z = np.zeros(b.shape[:-1] + (3,))
    ez, ex = z + [0, 0, 1], z + [1, 0, 0]
    g = axang2R(ez, b[..., 0]) @ axang2R(ex, b[..., 1]) @ axang2R(ez, b[..., 2])
    return np.swapaxes(g, -1, -2)


def ho_angle(r):
    """solve 3/4 (w - sin w) = r^3 by bisection"""
    r = np.asarray(r, float)
    lo, hi = np.zeros_like(r), np.full_like(r, np.pi + 1e-6)
    for _ in range(70):
        mid = 0.5 * (lo + hi)
        up = 0.75 * _wms(mid) < r**3
        lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
    return 0.5 * (lo + hi)


def _wms(w):
    return np.where(
        w < 0.1, w**3 / 6 - w**5 / 120 + w**7 / 5040 - w**9 / 362880, w - np.sin(w)
    )


def ho2R(h):
    h = np.asarray(h, float)
    r = np.linalg.norm(h, axis=-1)
    n = np.where(r[..., None] > 0, h / np.where(r == 0, 1, r)[..., None], [0.0, 0, 1])
    return axang2R(n, ho_angle(r))


def cu2ho_ref(c):
    """Rosca, Morawiec, De Graef 2014, cube -> ball (pyramid by pyramid)."""
    c = np.asarray(c, float)
    out = np.zeros_like(c)
    R1 = (3 * math.pi / 4) ** (1 / 3)
    sc = R1 / (math.pi ** (2 / 3) / 2) * 1.0  # only used for the bounds in callers
    for i, p in enumerate(c.reshape(-1, 3)):
        a = np.abs(p)
        if a.max() == 0:
            continue
        k = int(np.argmax(a))
        perm = [(k + 1) % 3, (k + 2) % 3, k]
        x, y, z = p[perm] * (math.pi / 6) ** (1 / 6)
        if x == 0 and y == 0:
            X = Y = 0.0
        else:
            swap = abs(y) > abs(x)
            u, v = (y, x) if swap else (x, y)
            ang = math.pi * v / (12 * u)
            f = (
                (6 / math.pi) ** 0.5
                * 2**0.25
                * u
                / math.sqrt(2**0.5 - math.cos(ang))
            )
            U = f * (2**0.5 * math.cos(ang) - 1)
            V = f * 2**0.5 * math.sin(ang)
            X, Y = (V, U) if swap else (U, V)
        q = X * X + Y * Y
        s = math.sqrt(max(0.0, 1 - math.pi * q / (24 * z * z)))
        Z = (6 / math.pi) ** 0.5 * z - math.sqrt(math.pi / 24) * q / z
        r = np.zeros(3)
        r[perm] = [X * s, Y * s, Z]
        out.reshape(-1, 3)[i] = r
    return out


def ro2R(r):
    r = np.asarray(r, float)
    with np.errstate(all="ignore"):
        t = 2 * np.arctan(r[..., 3])
    return axang2R(r[..., :3], t)


def zh2R(z):
    z = np.asarray(z, float)
    a, b = z[..., :3], z[..., 3:]
    a = a / np.linalg.norm(a, axis=-1, keepdims=True)
    b = b - (a * b).sum(-1, keepdims=True) * a
    b = b / np.linalg.norm(b, axis=-1, keepdims=True)
    return np.stack([a, b, np.cross(a, b)], -2)


DECODE = {
    "qu": q2R,
    "om": lambda m: np.asarray(m, float),
    "ax": lambda a: axang2R(np.asarray(a, float)[..., :3], np.asarray(a, float)[..., 3]),
    "bu": bu2R,
    "ho": ho2R,
    "cu": lambda c: ho2R(cu2ho_ref(c)),
    "ro": ro2R,
    "zh": zh2R,
}


def lattice_quats(n, canonical=True):
    """all primitive integer quaternions in [-n, n]^4, normalised; canonical: w >= 0
    and, when w = 0, first non-zero vector component positive."""
    out, seen = [], set()
    for q in itertools.product(range(-n, n + 1), repeat=4):
        if not any(q):
            continue
        g = math.gcd(*[abs(v) for v in q])
        p = tuple(v // g for v in q)
        if canonical:
            s = next(v for v in p if v)
            if p[0] < 0 or (p[0] == 0 and s < 0):
                continue
        if p in seen:
            continue
        seen.add(p)
        out.append(p)
    a = np.array(out, float)
    a /= np.linalg.norm(a, axis=1, keepdims=True)
    # simplest first
    order = np.argsort([sum(abs(v) for v in p) for p in out], kind="stable")
    return a[order]


def lattice_dirs(n):
    out = set()
    for v in itertools.product(range(-n, n + 1), repeat=3):
        if any(v):
            g = math.gcd(*[abs(x) for x in v])
            out.add(tuple(x // g for x in v))
    out = sorted(out, key=lambda v: (sum(map(abs, v)), v))
    a = np.array(out, float)
    return a / np.linalg.norm(a, axis=1, keepdims=True)


def rot_angle_between(A, B):
    """angle of A^T B, accurate for small angles"""
    D = np.swapaxes(A, -1, -2) @ B - np.eye(3)
    return np.linalg.norm(D, axis=(-1, -2)) / math.sqrt(2)


def near_dirs(eps=(1e-2, 1e-3, 1e-4, 1e-6)):
    """directions next to the axes, face diagonals and body diagonals and next to the planes through them"""
    D = lattice_dirs(1)
    out = []
    for d in D:
        for t in D:
            if abs(abs(d @ t) - 1) > 1e-9:
                t = t - (t @ d) * d
                for e in eps:
                    v = d + e * t
                    out.append(v / np.linalg.norm(v))
    out = np.array(out)
    return out[np.unique(np.round(out, 8), axis=0, return_index=True)[1]]
