"""Reference data on the 230 space groups, independent of the code under test.

HM: short Hermann-Mauguin symbols (ITA numbering).  Everything else is derived from
the symbol or computed from operators.
"""
import itertools
import re
from fractions import Fraction

import numpy as np

HM = """P1;P-1;P2;P21;C2;Pm;Pc;Cm;Cc;P2/m;P21/m;C2/m;P2/c;P21/c;C2/c;
P222;P2221;P21212;P212121;C2221;C222;F222;I222;I212121;Pmm2;Pmc21;Pcc2;Pma2;Pca21;Pnc2;Pmn21;Pba2;Pna21;Pnn2;Cmm2;Cmc21;Ccc2;Amm2;Abm2;Ama2;Aba2;Fmm2;Fdd2;Imm2;Iba2;Ima2;
Pmmm;Pnnn;Pccm;Pban;Pmma;Pnna;Pmna;Pcca;Pbam;Pccn;Pbcm;Pnnm;Pmmn;Pbcn;Pbca;Pnma;Cmcm;Cmca;Cmmm;Cccm;Cmma;Ccca;Fmmm;Fddd;Immm;Ibam;Ibca;Imma;
P4;P41;P42;P43;I4;I41;P-4;I-4;P4/m;P42/m;P4/n;P42/n;I4/m;I41/a;P422;P4212;P4122;P41212;P4222;P42212;P4322;P43212;I422;I4122;P4mm;P4bm;P42cm;P42nm;P4cc;P4nc;P42mc;P42bc;I4mm;I4cm;I41md;I41cd;
P-42m;P-42c;P-421m;P-421c;P-4m2;P-4c2;P-4b2;P-4n2;I-4m2;I-4c2;I-42m;I-42d;P4/mmm;P4/mcc;P4/nbm;P4/nnc;P4/mbm;P4/mnc;P4/nmm;P4/ncc;P42/mmc;P42/mcm;P42/nbc;P42/nnm;P42/mbc;P42/mnm;P42/nmc;P42/ncm;I4/mmm;I4/mcm;I41/amd;I41/acd;
P3;P31;P32;R3;P-3;R-3;P312;P321;P3112;P3121;P3212;P3221;R32;P3m1;P31m;P3c1;P31c;R3m;R3c;P-31m;P-31c;P-3m1;P-3c1;R-3m;R-3c;
P6;P61;P65;P62;P64;P63;P-6;P6/m;P63/m;P622;P6122;P6522;P6222;P6422;P6322;P6mm;P6cc;P63cm;P63mc;P-6m2;P-6c2;P-62m;P-62c;P6/mmm;P6/mcc;P63/mcm;P63/mmc;
P23;F23;I23;P213;I213;Pm-3;Pn-3;Fm-3;Fd-3;Im-3;Pa-3;Ia-3;P432;P4232;F432;F4132;I432;P4332;P4132;I4132;P-43m;F-43m;I-43m;P-43n;F-43c;I-43d;Pm-3m;Pn-3n;Pm-3n;Pn-3m;Fm-3m;Fm-3c;Fd-3m;Fd-3c;Im-3m;Ia-3d"""
HM = [x for x in HM.replace("\n", "").split(";") if x]
assert len(HM) == 230

BEG_PG = [1, 2, 3, 6, 10, 16, 25, 47, 75, 81, 83, 89, 99, 111, 123, 143, 147, 149, 156, 162, 168, 174, 175, 177, 183, 187, 191, 195, 200, 207, 215, 221]
PG = ["1", "-1", "2", "m", "2/m", "222", "mm2", "mmm", "4", "-4", "4/m", "422", "4mm", "-42m", "4/mmm", "3", "-3", "32", "3m", "-3m",
      "6", "-6", "6/m", "622", "6mm", "-6m2", "6/mmm", "23", "m-3", "432", "-43m", "m-3m"]
PG_ORDER = [1, 2, 2, 2, 4, 4, 4, 8, 4, 4, 8, 8, 8, 8, 16, 3, 6, 6, 6, 12, 6, 6, 12, 12, 12, 12, 24, 12, 24, 24, 24, 48]
PG_LAUE = [1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5, 5, 6, 6, 7, 7, 7, 8, 8, 8, 9, 9, 9, 9, 10, 10, 11, 11, 11]
SYS_BEG = [1, 3, 16, 75, 143, 168, 195]
CENT = {"P": [(0, 0, 0)], "A": [(0, 0, 0), (0, 12, 12)], "B": [(0, 0, 0), (12, 0, 12)], "C": [(0, 0, 0), (12, 12, 0)], "I": [(0, 0, 0), (12, 12, 12)],
        "F": [(0, 0, 0), (0, 12, 12), (12, 0, 12), (12, 12, 0)], "R": [(0, 0, 0), (16, 8, 8), (8, 16, 16)]}  # in 24ths
TWO = [48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129, 130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224, 227, 228]


def pg_index(sg):
    return sum(b <= sg for b in BEG_PG) - 1


def system(sg):
    return sum(b <= sg for b in SYS_BEG)


def laue(sg):
    return PG_LAUE[pg_index(sg)]


def centering(sg):
    return CENT[HM[sg - 1][0]]


def tokens(sg):
    """symbol -> list of (position index, [axis or mirror tokens])"""
    s = HM[sg - 1][1:]
    sysn = system(sg)
    ax = r"-?[1346]|21|2|31|32|41|42|43|61|62|63|64|65|[abcmnd]"
    # split by hand: the list of screw axes per symbol is unambiguous given the group number
    out = []
    i = 0
    while i < len(s):
        if s[i] == "-":
            out.append(s[i:i + 2])
            i += 2
        else:
            out.append(s[i])
            i += 1
    return out


SCREW = {  # symbols whose digits need a split, written out
    4: ["21"], 11: ["21", "/", "m"], 14: ["21", "/", "c"],
    17: ["2", "2", "21"], 18: ["21", "21", "2"], 19: ["21", "21", "21"], 20: ["2", "2", "21"], 24: ["21", "21", "21"],
    26: ["m", "c", "21"], 29: ["c", "a", "21"], 31: ["m", "n", "21"], 33: ["n", "a", "21"], 36: ["m", "c", "21"],
    76: ["41"], 77: ["42"], 78: ["43"], 80: ["41"], 84: ["42", "/", "m"], 86: ["42", "/", "n"], 88: ["41", "/", "a"],
    90: ["4", "21", "2"], 91: ["41", "2", "2"], 92: ["41", "21", "2"], 93: ["42", "2", "2"], 94: ["42", "21", "2"], 95: ["43", "2", "2"], 96: ["43", "21", "2"],
    98: ["41", "2", "2"], 101: ["42", "c", "m"], 102: ["42", "n", "m"], 105: ["42", "m", "c"], 106: ["42", "b", "c"], 109: ["41", "m", "d"], 110: ["41", "c", "d"],
    113: ["-4", "21", "m"], 114: ["-4", "21", "c"],
    131: ["42", "/", "m", "m", "c"], 132: ["42", "/", "m", "c", "m"], 133: ["42", "/", "n", "b", "c"], 134: ["42", "/", "n", "n", "m"], 135: ["42", "/", "m", "b", "c"],
    136: ["42", "/", "m", "n", "m"], 137: ["42", "/", "n", "m", "c"], 138: ["42", "/", "n", "c", "m"], 141: ["41", "/", "a", "m", "d"], 142: ["41", "/", "a", "c", "d"],
    144: ["31"], 145: ["32"], 151: ["31", "1", "2"], 152: ["31", "2", "1"], 153: ["32", "1", "2"], 154: ["32", "2", "1"],
    169: ["61"], 170: ["65"], 171: ["62"], 172: ["64"], 173: ["63"], 176: ["63", "/", "m"], 178: ["61", "2", "2"], 179: ["65", "2", "2"], 180: ["62", "2", "2"],
    181: ["64", "2", "2"], 182: ["63", "2", "2"], 185: ["63", "c", "m"], 186: ["63", "m", "c"], 193: ["63", "/", "m", "c", "m"], 194: ["63", "/", "m", "m", "c"],
    198: ["21", "3"], 199: ["21", "3"], 208: ["42", "3", "2"], 210: ["41", "3", "2"], 212: ["43", "3", "2"], 213: ["41", "3", "2"], 214: ["41", "3", "2"],
}


def parts(sg):
    """list over symbol positions of lists of tokens (axis / perpendicular mirror)"""
    t = SCREW.get(sg) or tokens(sg)
    out = []
    i = 0
    while i < len(t):
        cur = [t[i]]
        if i + 1 < len(t) and t[i + 1] == "/":
            cur.append(t[i + 2])
            i += 2
        out.append(cur)
        i += 1
    return out


def directions(sg):
    s = system(sg)
    e = np.eye(3, dtype=int)
    if s <= 1:
        return [[]]
    if s == 2:
        return [[(0, 1, 0)]]
    if s == 3:
        return [[(1, 0, 0)], [(0, 1, 0)], [(0, 0, 1)]]
    if s == 4:
        return [[(0, 0, 1)], [(1, 0, 0), (0, 1, 0)], [(1, 1, 0), (1, -1, 0)]]
    if s in (5, 6):
        return [[(0, 0, 1)], [(1, 0, 0), (0, 1, 0), (1, 1, 0)], [(1, -1, 0), (1, 2, 0), (2, 1, 0)]]
    return [[(1, 0, 0), (0, 1, 0), (0, 0, 1)], [(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)], [(1, 1, 0), (1, -1, 0), (0, 1, 1), (0, 1, -1), (1, 0, 1), (1, 0, -1)]]


def order(W):
    I = np.eye(3, dtype=int)
    P = W.copy()
    for n in range(1, 7):
        if (P == I).all():
            return n
        P = P @ W
    return 0


def wtype(W):
    """rotation type of an integer matrix: +-1,2,3,4,6 (mirror = -2)"""
    d = int(round(np.linalg.det(W)))
    t = int(np.trace(W)) * d
    return d * {3: 1, -1: 2, 0: 3, 1: 4, 2: 6}[t]


def axis(W):
    """primitive integer axis of the rotation part"""
    d = int(round(np.linalg.det(W)))
    R = W * d
    n = order(R)
    P = sum(np.linalg.matrix_power(R, k) for k in range(n))
    for c in range(3):
        v = P[:, c]
        if v.any():
            g = np.gcd.reduce(v)
            v = v // g
            return tuple(int(x) for x in v)
    return None


def sense_positive(W, ax, metric_hex):
    """is the rotation part of W a positive rotation about ax (in the crystal basis)?"""
    d = int(round(np.linalg.det(W)))
    R = W * d
    # generic vector x: sign of det[x, R x, axis] (basis change does not alter the sign of a determinant)
    for x in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 2, 5]):
        M = np.array([x, R @ np.array(x), ax], float)
        dt = np.linalg.det(M)
        if abs(dt) > 1e-9:
            return dt > 0
    return None


def intrinsic(W, w24):
    """translation part of the n-th power over n (exact, in 24ths as Fractions)"""
    n = order(W)
    P = sum(np.linalg.matrix_power(W, k) for k in range(n))
    v = P @ np.array(w24)
    return tuple(Fraction(int(x), 24 * n) for x in v)


def kinds(ops, sg):
    """set of (direction index, token) present in the group; ops = [(W, w in 24ths)]"""
    cent = centering(sg)
    dirs = directions(sg)
    found = set()
    H = Fraction(1, 2)
    Q = Fraction(1, 4)
    lat = [np.array(c) + 24 * np.array(k) for c in cent for k in itertools.product((-1, 0, 1), repeat=3)]
    latset = {tuple(int(x) % 24 for x in c) for c in cent}

    def shortest(ax):
        # shortest lattice vector along ax, as multiple of ax
        for m in (Fraction(1, 3), H, Fraction(2, 3), Fraction(1)):
            if tuple(int(m * x * 24) % 24 if (m * x * 24).denominator == 1 else -1 for x in ax) in latset:
                return m
        return Fraction(1)

    for W, w in ops:
        ty = wtype(W)
        if abs(ty) == 1:
            continue
        ax = axis(W)
        for di, D in enumerate(dirs):
            for d in D:
                if ax != d and tuple(-x for x in ax) != d:
                    continue
                for L in lat:
                    t = intrinsic(W, np.array(w) + L)
                    if ty == -2:
                        t = tuple(x % 1 for x in t)
                        found.add((di, "M", d, t))
                    elif ty > 0:
                        # along the axis: t = s * d
                        k = next(i for i in range(3) if d[i])
                        s = t[k] / d[k]
                        m = shortest(d)
                        f = s / m  # fraction of the repeat along the axis
                        pos = True if ty == 2 else sense_positive(W, d, False)
                        if not pos:
                            f = -f
                        found.add((di, ty, d, f % 1))
                    else:
                        found.add((di, ty, d, Fraction(0)))
    return found


def has(found, di, tok, sg):
    """is the symmetry element named tok present for direction set di ?"""
    H, Q = Fraction(1, 2), Fraction(1, 4)
    if tok == "1":
        return True
    if tok.lstrip("-")[0].isdigit():
        if tok[0] == "-":
            n = int(tok[1])
            return True if n == 1 else any(f[0] == di and f[1] == -n for f in found)
        n = int(tok[0])
        k = int(tok[1]) if len(tok) > 1 else 0
        return any(f[0] == di and f[1] == n and f[3] == Fraction(k, n) for f in found)
    for f in found:
        if f[0] != di or f[1] != "M":
            continue
        t = f[3]
        d = f[2]
        nz = [x for x in t if x]
        ad = tuple(abs(x) for x in d)
        axial = sum(ad) == 1
        if tok == "m" and not nz:
            return True
        if tok in "abc":
            want = [tuple(H if i == "abc".index(tok) else Fraction(0) for i in range(3))]
            if system(sg) == 7 or (system(sg) == 4 and tok != "c"):  # axes equivalent by symmetry
                want = [tuple(H if i == j else Fraction(0) for i in range(3)) for j in range(3)]
            if t in want and (system(sg) < 7 or tok != "c" or not axial or True):
                return True
        if tok == "n":
            if axial and sorted(t) == [0, H, H]:
                return True
            if not axial and all(x == H for x in t) or (not axial and t == tuple(H if x == 0 else Q for x in ad)):
                return True
            if not axial and sorted(t) in ([0, H, H], [H, H, H]):
                return True
        if tok == "d" and all(x.denominator == 4 for x in nz) and len(nz) >= 2:
            return True
    return False


def symmorphic(ops, sg):
    """does some point have the full point group as site symmetry?"""
    cent = {tuple(int(x) % 24 for x in c) for c in centering(sg)}
    gen = list(ops)
    for p in itertools.product(range(0, 24, 3), repeat=3):
        p = np.array(p)
        ok = True
        for W, w in gen:
            v = tuple(int(x) % 24 for x in (np.array(w) + W @ p - p))
            if v not in cent:
                ok = False
                break
        if ok:
            return True
    for p in itertools.product(range(0, 24, 4), repeat=3):
        p = np.array(p)
        if all(tuple(int(x) % 24 for x in (np.array(w) + W @ p - p)) in cent for W, w in gen):
            return True
    return False


def laue_from_ops(Ws):
    S = {tuple(W.ravel()) for W in Ws} | {tuple((-W).ravel()) for W in Ws}
    ty = [wtype(np.array(s).reshape(3, 3)) for s in S]
    n, n3, n4, n6 = len(S), ty.count(3), ty.count(4), ty.count(6)
    return {(2, 0, 0, 0): 1, (4, 0, 0, 0): 2, (8, 0, 0, 0): 3, (8, 0, 2, 0): 4, (16, 0, 2, 0): 5, (6, 2, 0, 0): 6, (12, 2, 0, 0): 7, (12, 2, 0, 2): 8,
            (24, 2, 0, 2): 9, (24, 8, 0, 0): 10, (48, 8, 6, 0): 11}.get((n, n3, n4, n6))
