"""Reference symmetry: rotation groups by breadth first closure, sectors by half spaces."""
import math
import numpy as np
from mc import rot

MULT = {1: 2, 2: 4, 3: 8, 4: 8, 5: 16, 6: 6, 7: 12, 8: 12, 9: 24, 10: 24, 11: 48}
NAME = {1: "C1", 2: "C2", 3: "D2", 4: "C4", 5: "D4", 6: "C3", 7: "D3", 8: "C6", 9: "D6", 10: "T", 11: "O"}


def _rot(axis, n):
    a = np.array(axis, float)
    a /= np.linalg.norm(a)
    t = math.pi / n
    return np.array([math.cos(t), *(math.sin(t) * a)])


Z, X, D = (0, 0, 1), (1, 0, 0), (1, 1, 1)
GENS = {
    1: [], 2: [_rot(Z, 2)], 3: [_rot(Z, 2), _rot(X, 2)], 4: [_rot(Z, 4)], 5: [_rot(Z, 4), _rot(X, 2)],
    6: [_rot(Z, 3)], 7: [_rot(Z, 3), _rot(X, 2)], 8: [_rot(Z, 6)], 9: [_rot(Z, 6), _rot(X, 2)],
    10: [_rot(Z, 2), _rot(D, 3)], 11: [_rot(Z, 4), _rot(D, 3)],
}


def canon(q):
    q = np.asarray(q, float).copy()
    for i in range(4):
        if abs(q[i]) > 1e-7:
            return -q if q[i] < 0 else q
    return q


def _snap(q):
    # every component squared is a multiple of 1/4
    return np.copysign(np.sqrt(np.round(4 * q * q) / 4), q) + 0.0


def closure(gens, limit=200):
    """breadth first exploration of the words over gens."""
    I = np.array([1.0, 0, 0, 0])
    seen = {tuple(np.round(I, 6)): I}
    frontier, edges = [I], 0
    while frontier:
        nxt = []
        for q in frontier:
            for g in gens:
                edges += 1
                p = canon(_snap(rot.qmul(g, q)))
                k = tuple(np.round(p, 6) + 0.0)
                if k not in seen:
                    seen[k] = p
                    nxt.append(p)
        frontier = nxt
        assert len(seen) <= limit
    return np.array(list(seen.values())), edges


GROUP = {L: closure(GENS[L])[0] for L in range(1, 12)}
GROUPR = {L: rot.q2R(GROUP[L]) for L in range(1, 12)}

s3, h3 = math.sqrt(3) / 2, 0.5
SECTOR = {
    1: [(0, 0, 1)],
    2: [(0, 0, 1), (0, 1, 0)],
    3: [(0, 0, 1), (0, 1, 0), (1, 0, 0)],
    4: [(0, 0, 1), (0, 1, 0), (1, 0, 0)],
    5: [(0, 0, 1), (0, 1, 0), (2**-0.5, -(2**-0.5), 0)],
    6: [(0, 0, 1), (0, -1, 0), (s3, -h3, 0)],
    7: [(0, 0, 1), (1, 0, 0), (-h3, -s3, 0)],
    8: [(0, 0, 1), (0, 1, 0), (s3, -h3, 0)],
    9: [(0, 0, 1), (0, 1, 0), (h3, -s3, 0)],
    10: [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-(2**-0.5), 0, 2**-0.5), (0, -(2**-0.5), 2**-0.5)],
    11: [(0, 0, 1), (0, 1, 0), (2**-0.5, -(2**-0.5), 0), (-(2**-0.5), 0, 2**-0.5)],
}


def sector_margin(d, L):
    """>0 strictly inside the fundamental sector, <0 outside"""
    return np.min(np.asarray(d, float) @ np.array(SECTOR[L]).T, axis=-1)


def fz_real(q, L):
    """|Re(s q)| for every s of the group; column 0 is the identity"""
    return np.abs(rot.qmul(GROUP[L][:, None], np.asarray(q, float).reshape(1, -1, 4))[..., 0]).T


def fz_margin(q, L):
    """|Re q| minus the largest |Re(s q)| over s != 1 (positive strictly inside the FZ)."""
    r = fz_real(q, L)
    if r.shape[1] == 1:
        return np.full(r.shape[0], 2.0)
    return r[:, 0] - r[:, 1:].max(1)


def disori_cos(q1, q2, L1, L2):
    """max over s1, s2 of |Re(s1 q1 q2* s2)| = cos(angle / 2)"""
    m = rot.qmul(q1, rot.qconj(q2)).reshape(-1, 4)
    # Re(s1 m s2) = Re(s2 s1 m)
    ss = rot.qmul(GROUP[L2][:, None], GROUP[L1][None]).reshape(-1, 4)
    best = np.zeros(len(m))
    for s in ss:
        best = np.maximum(best, np.abs(rot.qmul(s, m)[:, 0]))
    return best
