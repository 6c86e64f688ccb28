"""C07  Equal area maps between square / hexagon and hemisphere; spherical coordinates."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import rot
import ebsdtorch.s2_and_so3.sphere as S
import ebsdtorch.utils.rosca_lambert as U
import ebsdtorch.crystallography.kvectors as K
import ebsdtorch.simulation.monte_carlo as MC

NG = 200 if THOROUGH else 60
ND = 16 if THOROUGH else 9
ck = Check("C07", bounds=f"all nodes of the ({2*NG}+1)^2 square grid and of the hexagonal grid of the same pitch, all primitive directions with indices up to {ND}, directions next to all axes, diagonals and mirror planes (1e-2 to 1e-6), "
           "both hemispheres, both precisions, every implementation in the repository")
DT = ((torch.float64, 1e-7), (torch.float32, 1.5e-3))


def ref_inv(p):
    """square [-1,1]^2 -> hemisphere, from the definition (Rosca 2010)"""
    p = np.asarray(p, float)
    a, b = p[:, 0], p[:, 1]
    m = np.maximum(abs(a), abs(b))
    ms = np.where(m == 0, 1, m)
    z = 1 - m**2
    rho = m * np.sqrt(np.maximum(2 - m**2, 0))
    A = abs(a) >= abs(b)
    # azimuth inside the quadrant is linear in the ratio
    az = np.where(A, np.pi / 4 * b / np.where(a == 0, 1, a), 0)
    el = np.where(A, 0, np.pi / 4 * a / np.where(b == 0, 1, b))
    x = np.where(A, np.sign(a) * rho * np.cos(az), np.sign(b) * rho * np.sin(el))
    y = np.where(A, np.sign(a) * rho * np.sin(az), np.sign(b) * rho * np.cos(el))
    return np.stack([np.where(m == 0, 0, x), np.where(m == 0, 0, y), z], 1)


def ref_fwd(d):
    d = np.asarray(d, float)
    x, y, z = d.T
    m = np.sqrt(np.maximum(1 - abs(z), 0))
    A = abs(x) >= abs(y)
    with np.errstate(all="ignore"):
        ra = np.where(A, np.arctan(np.where(x == 0, 0, y / np.where(x == 0, 1, x))), np.arctan(x / np.where(y == 0, 1, y))) * 4 / np.pi
    a = np.where(A, np.sign(x) * m, np.sign(y) * m * ra)
    b = np.where(A, np.sign(x) * m * ra, np.sign(y) * m)
    return np.stack([a, b], 1)


def ref_hex(p):
    p = np.asarray(p, float)
    r, t = np.hypot(p[:, 0], p[:, 1]), np.arctan2(p[:, 1], p[:, 0])
    k = np.floor(t / (np.pi / 3))
    mid = (k + 0.5) * np.pi / 3
    f = t - mid
    rr = r * np.cos(f) / (math.sqrt(3) / 2)
    az = mid + np.pi / 6 * np.tan(f) * math.sqrt(3)
    z = 1 - rr**2
    rho = rr * np.sqrt(np.maximum(2 - rr**2, 0))
    return np.stack([rho * np.cos(az), rho * np.sin(az), z], 1)


g = np.arange(-NG, NG + 1) / NG
SQ = np.array(list(itertools.product(g, g)))
DIRS = np.concatenate([rot.lattice_dirs(ND), rot.near_dirs()])
UP = DIRS[DIRS[:, 2] >= 0]


def jac(f, p, h=1e-5):
    out = []
    for k in range(2):
        e = np.zeros(2)
        e[k] = h
        out.append((f(p + e) - f(p - e)) / (2 * h))
    return np.linalg.norm(np.cross(out[0], out[1]), axis=1)


INV = {"sphere.inv_rosca_lambert": S.inv_rosca_lambert, "utils.square_to_hemisphere": U.square_to_hemisphere,
       "utils.square_to_hemisphere_v2": U.square_to_hemisphere_v2, "kvectors.square_to_hemisphere": K.square_to_hemisphere}
FWD = {"sphere.rosca_lambert": S.rosca_lambert, "monte_carlo.rosca_lambert": MC.rosca_lambert}


def run(cx, f, name, x):
    y = x.clone()
    r = cx.call(f, x, _key=name)
    cx.expect(torch.equal(x, y), f"{name}/mutates", "argument modified")
    return r


def mki(name, f):
    @ck.group("inv-" + name)
    def grp(cx):
        for dt, tol in DT:
            r = run(cx, f, name, torch.tensor(SQ, dtype=dt))
            if r is None:
                continue
            cx.states(str(dt), r)
            w = ref_inv(SQ)
            cx.close(r.double(), w, f"values/{dt}", "square to hemisphere", tol=tol, rows=SQ)
            cx.close(r.double().norm(dim=-1), np.ones(len(SQ)), f"unit/{dt}", "image is on the unit sphere", tol=1e-12 if dt == torch.float64 else 1e-5, rows=SQ)
            cx.expect_all(r[:, 2] >= -1e-6, f"north/{dt}", "image is on the northern hemisphere", rows=SQ)
            for shp in ((len(g), len(g)), (1, len(SQ))):
                q = run(cx, f, name, torch.tensor(SQ, dtype=dt).reshape(shp + (2,)))
                if q is not None:
                    cx.expect(tuple(q.shape) == shp + (3,), "shape", f"{tuple(q.shape)}")
                    cx.close(q.reshape(-1, 3), r, f"batch/{dt}", "batched equals flat", tol=1e-6)
            # round trip through every forward map
            for fn, ff in FWD.items():
                b = run(cx, ff, fn, r)
                if b is not None:
                    cx.close(b.double(), SQ, f"roundtrip-{fn}/{dt}", "square -> hemisphere -> square", tol=1e-6 if dt == torch.float64 else 3e-3, rows=SQ)
            # a small neighbourhood of the centre
            e = 10.0 ** -np.arange(3, 13)
            C = np.array([[s * a, t * a * k] for a in e for s in (1, -1) for t in (1, -1) for k in (0, 0.5, 1)])
            q = run(cx, f, name, torch.tensor(C, dtype=dt))
            cx.close(q.double(), ref_inv(C), f"centre/{dt}", "continuous at the centre", tol=tol, rows=C)
        # every cell of the square covers the same area on the sphere
        m = (abs(abs(SQ[:, 0]) - abs(SQ[:, 1])) > 1e-3) & (abs(SQ).max(1) < 1 - 1e-3) & (abs(SQ).max(1) > 0.02)
        J = jac(lambda p: f(torch.tensor(p)).numpy(), SQ[m])
        cx.close(J, np.full(m.sum(), np.pi / 2), "area", "area element is constant", tol=1e-5, rows=SQ[m])
        cx.sample(map=name, p=SQ[5], image=f(torch.tensor(SQ[5:6]))[0])


for k, v in INV.items():
    mki(k, v)


def mkf(name, f):
    @ck.group("fwd-" + name)
    def grp(cx):
        for dt, tol in DT:
            t = torch.tensor(DIRS, dtype=dt)
            r = run(cx, f, name, t)
            if r is None:
                continue
            cx.states(str(dt), r)
            cx.close(r.double(), ref_fwd(DIRS), f"values/{dt}", "hemisphere to square (|z| is used)", tol=tol, rows=DIRS)
            cx.expect_all(r.abs().max(-1).values <= 1 + 1e-6, f"inside/{dt}", "image is inside the square", rows=DIRS)
            for fn, ff in INV.items():
                b = run(cx, ff, fn, torch.clamp(r, -1, 1))
                w = DIRS * [1, 1, 1]
                w = np.stack([DIRS[:, 0], DIRS[:, 1], abs(DIRS[:, 2])], 1)
                if b is not None:
                    cx.close(b.double(), w, f"roundtrip-{fn}/{dt}", "direction -> square -> direction, mirrored to the northern hemisphere", tol=1e-6 if dt == torch.float64 else 3e-3, rows=DIRS)
            # symmetry of the square
            for sx, sy, sw in itertools.product((1, -1), (1, -1), (0, 1)):
                d2 = DIRS * [sx, sy, 1]
                if sw:
                    d2 = d2[:, [1, 0, 2]]
                w = ref_fwd(DIRS) * [sx, sy]
                if sw:
                    w = w[:, ::-1]
                q = run(cx, f, name, torch.tensor(d2, dtype=dt))
                amb = abs(abs(DIRS[:, 0]) - abs(DIRS[:, 1])) < -1
                cx.close(q.double(), w, f"equivariant/{dt}", "mirror images map to mirror images", tol=tol, rows=d2)
            k = (len(DIRS) // 4) * 4
            q = run(cx, f, name, t[:k].reshape(4, -1, 3))
            cx.expect(tuple(q.shape) == (4, k // 4, 2), "shape", f"{tuple(q.shape)}")
            cx.close(q.reshape(-1, 2), r[:k], f"batch/{dt}", "batched equals flat", tol=1e-6)
            # slightly above unit length, as rounding produces
            q = run(cx, f, name, torch.tensor([[0, 0, 1 + 2e-7], [1e-4, 2e-5, 1.0000001], [0, 0, -1 - 2e-7]], dtype=dt))
            cx.expect_all(torch.isfinite(q).all(-1) & (q.abs() < 1e-2).all(-1), f"pole/{dt}", "rounding above the unit sphere is tolerated")
        cx.sample(map=name, d=DIRS[11], image=f(torch.tensor(DIRS[11:12]))[0])


for k, v in FWD.items():
    mkf(k, v)


@ck.group("side_by_side")
def side(cx):
    for dt, tol in DT:
        t = torch.tensor(DIRS, dtype=dt)
        r = run(cx, S.rosca_lambert_side_by_side, "side", t)
        w = ref_fwd(DIRS)
        s = DIRS[:, 2] < 0
        want = np.stack([w[:, 0] / 2 + np.where(s, 0.5, -0.5), w[:, 1]], 1)
        cx.states(str(dt), r)
        cx.close(r.double(), want, f"values/{dt}", "north on the left half, south on the right half", tol=tol, rows=DIRS)
        rn = r.double().numpy()
        cx.expect_all((rn[:, 0] <= 1e-6)[DIRS[:, 2] >= 0], "left", "north is on the left", rows=DIRS[DIRS[:, 2] >= 0])
        cx.expect_all((rn[:, 0] >= -1e-6)[s], "right", "south is on the right", rows=DIRS[s])
        if dt == torch.float64:
            # different directions get different points
            u = {tuple(x) for x in np.round(rn[abs(DIRS[:, 2]) > 1e-9], 9)}
            cx.expect(len(u) == int((abs(DIRS[:, 2]) > 1e-9).sum()), "injective", "two directions share a point")
        q = run(cx, S.rosca_lambert_side_by_side, "side", t[: len(t) // 2 * 2].reshape(2, -1, 3))
        cx.close(q.reshape(-1, 2), r[: len(t) // 2 * 2], "batch", "batched equals flat", tol=1e-6)
    cx.sample(d=DIRS[3], image=r[3])


def mkh(name, f):
    @ck.group("hex-" + name)
    def grp(cx):
        n = NG
        P = []
        for i, j in itertools.product(range(-n, n + 1), repeat=2):
            x, y = (i + 0.5 * j) / n, j * math.sqrt(3) / 2 / n
            if max(abs(y) / (math.sqrt(3) / 2), abs(x) + abs(y) / math.sqrt(3)) <= 1 + 1e-12:
                P.append((x, y))
        P = np.array(P)
        for dt, tol in DT:
            r = run(cx, f, name, torch.tensor(P, dtype=dt))
            if r is None:
                continue
            rn = r.double().numpy()
            cx.states(str(dt), rn)
            cx.close(rn, ref_hex(P), f"values/{dt}", "hexagon to hemisphere", tol=max(tol, 1e-6), rows=P)
            cx.close(np.linalg.norm(rn, axis=1), np.ones(len(P)), f"unit/{dt}", "image is on the unit sphere", tol=1e-9 if dt == torch.float64 else 1e-5, rows=P)
            cx.expect_all(rn[:, 2] > -1e-6, f"north/{dt}", "image is on the northern hemisphere", rows=P)
            edge = np.maximum(abs(P[:, 1]) / (math.sqrt(3) / 2), abs(P[:, 0]) + abs(P[:, 1]) / math.sqrt(3)) > 1 - 1e-9
            cx.expect_all(abs(rn[edge, 2]) < 1e-5, f"equator/{dt}", "the border maps to the equator", rows=P[edge])
            if dt == torch.float64:
                c, s = 0.5, math.sqrt(3) / 2
                R = np.array([[c, -s], [s, c]])
                for M in (R, np.diag([1, -1]), np.diag([-1, 1])):
                    q = f(torch.tensor(P @ M.T)).numpy()
                    w = rn.copy()
                    w[:, :2] = w[:, :2] @ M.T
                    cx.close(q, w, "equivariant", "sixfold symmetry of the hexagon", tol=1e-6, rows=P)
        t = np.arctan2(P[:, 1], P[:, 0])
        m = (~edge) & (np.hypot(P[:, 0], P[:, 1]) > 0.02) & (abs((t + 1e-9) % (np.pi / 3)) > 1e-3) & (abs((t + 1e-9) % (np.pi / 3) - np.pi / 3) > 1e-3)
        J = jac(lambda p: f(torch.tensor(p)).numpy(), P[m])
        cx.close(J, np.full(m.sum(), 2 * np.pi / (1.5 * math.sqrt(3))), "area", "area element is constant", tol=1e-4, rows=P[m])
        cx.sample(map=name, p=P[9], image=rn[9])


mkh("utils.hexagon_to_hemisphere", U.hexagon_to_hemisphere)
mkh("kvectors.hexagon_to_hemisphere", K.hexagon_to_hemisphere)


def fringe():
    """points at all distances from the centre, the edges and the diagonals of the square"""
    e = np.concatenate([10.0 ** -np.arange(1, 8), 3 * 10.0 ** -np.arange(1, 8)])
    s = (0, 0.1, 0.4, 0.77, 0.999, 1)
    p = np.array([(1 - a, t) for a in e for t in s] + [(a, a * t) for a in e for t in s] + [(u, u * (1 - a)) for a in e for u in (0.2, 0.6, 1)])
    p = np.concatenate([p, p[:, ::-1]])
    return np.concatenate([p * k for k in itertools.product((1, -1), repeat=2)])


@ck.group("precision")
def precision(cx):
    """the digits of the input are kept everywhere: what is compared is the image of the input as rounded to its precision"""
    P = np.concatenate([SQ, fringe()])
    for name, f in INV.items():
        for dt, tol in ((torch.float64, 1e-11), (torch.float32, 3e-6)):
            t = torch.tensor(P, dtype=dt)
            r = run(cx, f, name, t)
            if r is not None:
                cx.states((name, str(dt)), r)
                cx.close(r.double(), ref_inv(t.double().numpy()), f"digits-{name}/{dt}", "square to hemisphere, to the digits of the input", tol=tol, rows=P)
    d = np.concatenate([DIRS, np.concatenate([ref_inv(fringe())] * 2) * np.repeat([[1, 1, 1], [1, 1, -1]], len(fringe()), 0)])
    for name, f in {**FWD, "side": S.rosca_lambert_side_by_side}.items():
        for dt, tol in ((torch.float64, 1e-10), (torch.float32, 3e-6)):
            t = torch.tensor(d, dtype=dt)
            u = t.double().numpy()
            u = u / np.linalg.norm(u, axis=1, keepdims=True)
            r = run(cx, f, name, t)
            if r is None:
                continue
            with np.errstate(all="ignore"):
                m = np.sqrt((u[:, 0] ** 2 + u[:, 1] ** 2) / (1 + abs(u[:, 2])))
                w = ref_fwd(u)
                big = abs(w).max(1, keepdims=True)
                w = np.where(big > 0, w / np.where(big > 0, big, 1), 0) * m[:, None]
                # next to the poles the height alone does not have the direction
                w = np.where(big > 1e-3, w, ref_fwd(np.stack([u[:, 0], u[:, 1], 0 * m], 1)) * m[:, None])
            if name == "side":
                w = np.stack([w[:, 0] / 2 + np.where(u[:, 2] < 0, 0.5, -0.5), w[:, 1]], 1)
            ok = np.ones(len(d), bool) if not name.startswith("monte") else abs(u[:, 2]) < 0.5  # (this one works from the height alone)
            cx.states((name, str(dt)), r)
            cx.close(r.double()[torch.tensor(ok)], w[ok], f"digits-{name}/{dt}", "hemisphere to square, to the digits of the input", tol=tol, rows=d[ok])


@ck.group("spherical")
def spherical(cx):
    # theta is the azimuth and phi the polar angle in both theta_phi_to_xyz (see DESIGN.md)
    import ebsdtorch.harmonics.sht as H

    n = 72 if THOROUGH else 36
    tp = np.array([(math.pi * i / n, -math.pi + 2 * math.pi * (j + 0.5) / n) for i in range(n + 1) for j in range(n)])
    want = np.stack([np.sin(tp[:, 0]) * np.cos(tp[:, 1]), np.sin(tp[:, 0]) * np.sin(tp[:, 1]), np.cos(tp[:, 0])], 1)
    for dt, tol in ((torch.float64, 1e-9), (torch.float32, 1e-5)):
        t = torch.tensor(tp, dtype=dt)
        x = cx.call(S.theta_phi_to_xyz, t[:, 1], t[:, 0])
        cx.close(x.double(), want, f"xyz/{dt}", "declination and azimuth to direction", tol=tol, rows=tp)
        h = cx.call(H.theta_phi_to_xyz, t.flip(-1))
        cx.close(h.double(), want, f"xyz-harmonics/{dt}", "declination and azimuth to direction", tol=tol, rows=tp)
        b = cx.call(S.xyz_to_theta_phi, torch.tensor(want, dtype=dt))
        ok = (tp[:, 0] > 1e-6) & (tp[:, 0] < math.pi - 1e-6)
        cx.close(b.double()[torch.tensor(ok)], tp[ok], f"angles/{dt}", "direction to declination and azimuth", tol=max(tol * 10, 1e-9), rows=tp[ok])
        d = torch.tensor(DIRS, dtype=dt)
        for shp in ((len(d),), (2, len(d) // 2)):
            dd = d[: int(np.prod(shp))].reshape(shp + (3,))
            tpd = cx.call(S.xyz_to_theta_phi, dd)
            cx.expect(tuple(tpd.shape) == shp + (2,), "shape", f"{tuple(tpd.shape)}")
            y = cx.call(S.theta_phi_to_xyz, tpd[..., 1], tpd[..., 0])
            cx.close(y.reshape(-1, 3), dd.reshape(-1, 3), f"roundtrip/{dt}", "direction -> angles -> direction", tol=max(tol, 1e-9), rows=dd.reshape(-1, 3))
        cx.states(str(dt), x)
    cx.sample(theta_phi=tp[40], xyz=x[40])


if __name__ == "__main__":
    ck.main()
