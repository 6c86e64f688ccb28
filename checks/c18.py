"""C18  Reflection lists: exactly the allowed reflections within the resolution."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contextlib, io, itertools
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import sgref as R
from ebsdtorch.crystallography.unit_cell import Cell

LAT = {1: [(0.4, 0.5, 0.6, 91, 95, 99), (0.458, 0.53, 0.563, 103.46, 98.57, 99.32), (0.5, 0.5, 0.7, 70, 65, 110), (0.3, 0.9, 0.5, 120, 100, 60), (0.4, 0.5, 0.6, 55, 60, 65)],
       2: [(0.4, 0.5, 0.6, 90, 97, 90), (0.6, 0.3, 0.5, 90, 125, 90), (0.5, 0.4, 0.3, 90, 62, 90)], 3: [(0.4, 0.5, 0.6, 90, 90, 90), (0.31, 0.9, 0.44, 90, 90, 90)],
       4: [(0.4, 0.4, 0.6, 90, 90, 90), (0.6, 0.6, 0.29, 90, 90, 90)], 5: [(0.4, 0.4, 0.6, 90, 90, 120), (0.45, 0.45, 1.3, 90, 90, 120)],
       6: [(0.3, 0.3, 0.5, 90, 90, 120), (0.6, 0.6, 0.3, 90, 90, 120)], 7: [(0.4, 0.4, 0.4, 90, 90, 90), (0.3524, 0.3524, 0.3524, 90, 90, 90)]}
DMIN = [0.071, 0.093, 0.128, 0.2011, 0.31, 0.5203] + ([0.0507, 0.0603, 0.0831, 0.111, 0.1507, 0.2503, 0.4001] if THOROUGH else [])
ck = Check("C18", bounds=f"230 space groups x {len(DMIN)} resolutions x 2 to 5 lattices per crystal system, every reflection; every hkl of [-7..7]^3 for every centring")


def cell(cx, sg, lat, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return cx.call(Cell, sg, [(28, 0.1, 0.2, 0.3, 1.0, 0.005)], lat[:3], "nm", lat[3:], "deg", _key="Cell", _case=(sg, lat), **kw)


def quiet(cx, f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return cx.call(f, *a, **k)


def metric(lat):
    a, b, c = lat[:3]
    al, be, ga = np.deg2rad(lat[3:])
    G = np.array([[a * a, a * b * np.cos(ga), a * c * np.cos(be)], [a * b * np.cos(ga), b * b, b * c * np.cos(al)], [a * c * np.cos(be), b * c * np.cos(al), c * c]])
    return np.linalg.inv(G)


def allowed(sg, hkl):
    """lattice points t (24ths) of the centring: h.t integer for all of them"""
    t = np.array(R.centering(sg))
    return ((hkl @ t.T) % 24 == 0).all(-1)


def box(n):
    r = [np.arange(-k, k + 1) for k in n]
    return np.stack(np.meshgrid(*r, indexing="ij"), -1).reshape(-1, 3)


def rows(x):
    return set(map(tuple, x.tolist()))


def one(cx, sg, lat, dmin, c, tag, diff=True):
    """everything about one list"""
    gi = metric(lat)
    L = quiet(cx, c.get_reflections, dmin=dmin, difference_table=False, _key=f"{tag}/call")
    if L is None:
        return
    if not cx.expect(L.ndim == 2 and L.shape[1] == 3 and not L.is_floating_point(), f"{tag}/form", f"{tuple(L.shape)} {L.dtype}"):
        return
    H = L.numpy()
    S = rows(H)
    cx.state(sg, lat, dmin, len(S))
    cx.expect(len(S) == len(H), f"{tag}/dup", f"sg {sg}: reflections are listed once")
    # |h| <= |g| a; generous box
    n = [int(np.ceil(x / dmin)) + 1 for x in lat[:3]]
    B = box(n)
    B = B[(B != 0).any(1)]
    g = np.sqrt(np.einsum("ni,ij,nj->n", B, gi, B))
    tie = np.abs(g * dmin - 1) < 1e-6
    al = allowed(sg, B)
    want = rows(B[al & (g * dmin < 1) & ~tie])
    free = rows(B[tie])
    miss, extra = want - S, S - want - free
    cx.trans(len(B))
    cx.expect(not miss, f"{tag}/missing", f"space group {sg}, lattice {lat}, dmin {dmin}: {len(miss)} of {len(want)} reflections are missing", missing=sorted(miss)[:5])
    cx.expect(not extra, f"{tag}/extra", f"space group {sg}, lattice {lat}, dmin {dmin}: {len(extra)} listed reflections are not allowed, too fine or zero", extra=sorted(extra)[:5])
    lim = quiet(cx, c.get_hkl_limits, dmin, _key=f"{tag}/limits")
    if lim is not None and len(H):
        cx.expect((np.abs(H).max(0) <= np.array(lim)).all(), f"{tag}/limits", f"limits {lim} bound the list, largest indices {np.abs(H).max(0)}")
    U = quiet(cx, c.get_reflections, dmin=dmin, difference_table=False, filter_centering=False, _key=f"{tag}/nocentring")
    if U is not None:
        u = rows(U.numpy())
        w = rows(B[(g * dmin < 1) & ~tie])
        cx.expect(w <= u and u - w <= free and len(u) == len(U), f"{tag}/unfiltered", "list without the centring filter")
    if diff:
        D = quiet(cx, c.get_reflections, dmin=dmin, difference_table=True, _key=f"{tag}/difference")
        if D is not None:
            D = D.numpy()
            d = rows(D)
            cx.expect(len(d) == len(D) and (0, 0, 0) not in d, f"{tag}/diff-dup", "differences are listed once, without 000")
            cx.expect(allowed(sg, D).all() if len(D) else True, f"{tag}/diff-allowed", "differences obey the centring")
            H0 = np.concatenate([np.zeros((1, 3), int), H])
            step = max(1, len(H0) // 400)
            dd = (H0[:, None] - H0[None, ::step]).reshape(-1, 3)
            dd = np.unique(dd, axis=0)
            cx.trans(len(dd))
            lack = rows(dd) - d - {(0, 0, 0)}
            cx.expect(not lack, f"{tag}/diff-missing", f"{len(lack)} differences of listed reflections are not in the difference table", missing=sorted(lack)[:5])


def mk(lo, hi):
    @ck.group(f"lists{lo}", timeout=700)
    def g(cx):
        for sg in range(lo, hi):
            lats = LAT[R.system(sg)]
            for i, lat in enumerate(lats if THOROUGH else [lats[sg % len(lats)], lats[(sg + 1) % len(lats)]]):
                c = cell(cx, sg, lat)
                if c is None:
                    continue
                dm = DMIN if THOROUGH else [DMIN[(sg + 2 * j) % len(DMIN)] for j in range(2)] + [0.31]
                for dmin in dm:
                    vol = 1 / np.sqrt(np.linalg.det(metric(lat)))
                    if vol / dmin**3 > 900:
                        continue
                    one(cx, sg, lat, dmin, c, f"{sg}", diff=i == 0 and vol / dmin**3 < 150)
        cx.sample(space_group=lo)


for lo in range(1, 231, 20):
    mk(lo, min(lo + 20, 231))


@ck.group("oblique", timeout=600)
def oblique(cx):
    """oblique cells: the longest indices need not lie along the axes"""
    A = (60, 75, 90, 105, 120) if THOROUGH else (60, 90, 115)
    for al, be, ga in itertools.product(A, repeat=3):
        ca, cb, cg = np.cos(np.deg2rad([al, be, ga]))
        if 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg < 0.05:
            continue
        for abc in ((0.3, 0.4, 0.5), (0.5, 0.3, 0.3)):
            lat = (*abc, al, be, ga)
            c = cell(cx, 1, lat)
            if c is None:
                continue
            for dmin in (0.0817, 0.1203, 0.2303):
                one(cx, 1, lat, dmin, c, f"{abc}", diff=dmin > 0.1)


@ck.group("float32")
def f32(cx):
    """cells converted to single precision list the same reflections"""
    for s, lats in LAT.items():
        for sg in (R.SYS_BEG[s - 1], (R.SYS_BEG + [231])[s] - 1):
            for dmin in (0.128, 0.2011):
                c = cell(cx, sg, lats[0])
                if c is None:
                    continue
                a = quiet(cx, c.get_reflections, dmin=dmin, difference_table=False)
                b = quiet(cx, c.set_fp_dtype(torch.float32).get_reflections, dmin=dmin, difference_table=False)
                cx.state(sg, dmin)
                if a is None or b is None:
                    continue
                d = rows(a.numpy()) ^ rows(b.numpy())
                gi = metric(lats[0])
                bad = [x for x in d if abs(np.sqrt(np.array(x) @ gi @ np.array(x)) * dmin - 1) > 1e-5]
                cx.expect(not bad, f"{sg}", f"space group {sg}: {len(bad)} reflections differ", diff=bad[:4])


@ck.group("centring")
def centring(cx):
    B = box((7, 7, 7))
    for sg in range(1, 231):
        c = cell(cx, sg, LAT[R.system(sg)][0])
        if c is None:
            continue
        want = allowed(sg, B)
        for shp in ((-1, 3), (15, 15, 15, 3)):
            r = quiet(cx, c.is_g_allowed, torch.tensor(B).reshape(shp), _key=f"{sg}/call")
            if r is None:
                continue
            if cx.expect(tuple(r.shape) == tuple(torch.tensor(B).reshape(shp).shape[:-1]) and r.dtype == torch.bool, f"{sg}/shape", f"{tuple(r.shape)} {r.dtype}"):
                cx.expect_all(r.reshape(-1).numpy() == want, f"{sg}/value", f"space group {sg} {R.HM[sg-1]}: reflections allowed by the centring", rows=B)
        cx.state(R.HM[sg - 1][0], int(want.sum()))


if __name__ == "__main__":
    ck.main()
