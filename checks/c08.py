"""C08  Samplers of directions and orientations."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import rot, sym
from mc.env import RandEnv
import ebsdtorch.s2_and_so3.sampling as SA
import ebsdtorch.s2_and_so3.laue_fz_ori as F
import ebsdtorch.s2_and_so3.laue_fz_s2 as S2

CPU = torch.device("cpu")
NMAX = 260 if THOROUGH else 130
EMAX = 14 if THOROUGH else 9
ck = Check("C08", bounds=f"s2/so3 spirals for every n in 1..{NMAX}, cubochoric grids for every edge in 1..{EMAX}, zone samplers for 11 groups x several targets / resolutions, "
           "random samplers with the random numbers enumerated on a product grid, every orientation of a lattice as coverage target")


def coords_cu(edge):
    h = 0.5 * math.pi ** (2 / 3)
    c = -h + 2 * h * np.arange(edge) / edge
    return np.array(list(itertools.product(c, repeat=3)))


def cu2q(c):
    h = rot.cu2ho_ref(c)
    n = np.linalg.norm(h, axis=1)
    w = rot.ho_angle(n)
    ax = h / np.where(n == 0, 1, n)[:, None]
    return np.concatenate([np.cos(w / 2)[:, None], np.sin(w / 2)[:, None] * ax], 1)


@ck.group("s2_fibonacci")
def s2f(cx):
    for mode in ("avg", "max"):
        for n in list(range(1, NMAX + 1)) + [890, 900, 11000, 11001]:
            p = cx.call(SA.s2_fibonacci, n, CPU, mode)
            if p is None:
                continue
            x = p.double().numpy()
            cx.state(mode, n)
            if not cx.expect(x.shape == (n, 3), f"{mode}/count", f"{x.shape} for n={n}", n=n):
                continue
            cx.close(np.linalg.norm(x, axis=1), np.ones(n), f"{mode}/unit", "points are on the unit sphere", tol=1e-9, n=n)
            if n < 2:
                continue
            cx.expect((np.diff(x[:, 2]) < 0).all(), f"{mode}/spiral", "the spiral descends from north to south", n=n)
            # every band of latitude holds its share of the points, every octant too
            z = np.sort(x[:, 2])
            cx.close(z, (2 * np.arange(n) + 1) / n - 1, f"{mode}/bands", "equal numbers of points in bands of equal area",
                     tol=(60.0 if mode == "max" and n >= 11000 else 30.0 if mode == "max" and n >= 890 else 12 if mode == "max" else 3.0) / n, n=n)
            if 24 <= n <= NMAX:
                T = rot.lattice_dirs(3)
                d = np.arccos(np.clip(T @ x.T, -1, 1)).min(1)
                cx.expect((d < (4.2 if mode == "max" else 3.4) / math.sqrt(n)).all(), f"{mode}/cover", f"hole of {d.max()*math.sqrt(n):.2f}/sqrt(n)", n=n)
                g = x @ x.T - 3 * np.eye(n)
                cx.expect(np.arccos(np.clip(g.max(), -1, 1)) > 2.0 / math.sqrt(n), f"{mode}/separated", "two points nearly coincide", n=n)
    cx.sample(n=3, points=SA.s2_fibonacci(3, CPU))


@ck.group("so3_fibonacci")
def so3f(cx):
    T = rot.lattice_quats(2)
    for n in list(range(1, NMAX + 1)) + [1000, 3000]:
        p = cx.call(SA.so3_fibonacci, n, CPU)
        if p is None:
            continue
        q = p.double().numpy()
        cx.state(n)
        if not cx.expect(q.shape == (n, 4), "count", f"{q.shape} for n={n}"):
            continue
        cx.close(np.linalg.norm(q, axis=1), np.ones(n), "unit", "unit quaternions", tol=1e-9, n=n)
        if n >= 30:
            d = 2 * np.arccos(np.clip(np.abs(T @ q.T), 0, 1)).min(1)
            cx.expect((d < 7.0 / n ** (1 / 3)).all(), "cover", f"hole of {d.max()*n**(1/3):.2f} n^-1/3", n=n)
            g = np.abs(q @ q.T) - 3 * np.eye(n)
            cx.expect(2 * np.arccos(np.clip(g.max(), -1, 1)) > 0.6 / n ** (1 / 3), "separated", "two samples nearly coincide", n=n)
    for n in (1000, 3000):
        q = SA.so3_fibonacci(n, CPU).double().numpy()
        cx.close(q.T @ q / n, np.eye(4) / 4, "isotropic", "second moments of the uniform distribution", tol=20.0 / n)
    cx.sample(n=5, samples=SA.so3_fibonacci(5, CPU))


@ck.group("cubochoric_grid")
def cug(cx):
    for e in range(1, EMAX + 1):
        g = cx.call(SA.so3_cubochoric_grid, e, CPU)
        if g is None:
            continue
        q = g.double().numpy()
        if not cx.expect(q.shape == (e**3, 4), "count", f"{q.shape} for edge {e}"):
            continue
        cx.states(e, q)
        cx.close(np.linalg.norm(q, axis=1), np.ones(len(q)), "unit", "unit quaternions", tol=1e-5, edge=e)
        cx.expect_all(q[:, 0] >= 0, "positive", "non-negative real part", edge=e)
        w = cu2q(coords_cu(e))
        # as a set of rotations
        M = np.abs(q @ w.T)
        ok = (2 * np.arccos(np.clip(M.max(1), 0, 1)) < 6e-3)
        cx.expect_all(ok, "grid", "sample is a node of the equal volume grid", rows=q, edge=e)
        cx.expect_all(2 * np.arccos(np.clip(M.max(0), 0, 1)) < 6e-3, "complete", "every node of the equal volume grid is sampled", rows=w, edge=e)
        if e > 1:
            D = np.abs(q @ q.T) - 3 * np.eye(len(q))
            cx.expect(2 * np.arccos(np.clip(D.max(), 0, 1)) > 0.25 / e, "distinct", "two nodes are the same rotation", edge=e)
    cx.sample(edge=2, samples=SA.so3_cubochoric_grid(2, CPU))


def cover(cx, key, s, L, lim, **case):
    T = rot.lattice_quats(2)
    best = np.zeros(len(T))
    for g in sym.GROUP[L]:
        best = np.maximum(best, np.abs(rot.qmul(g, T) @ s.T).max(1))
    ang = np.degrees(2 * np.arccos(np.clip(best, 0, 1)))
    cx.expect_all(ang < lim, key, f"an orientation is farther than {lim:.2f} deg from every sample (worst {ang.max():.2f})", rows=T, **case)


GRIDS = {}


def nodes(cx, key, q, L, e0, case):
    """the samples are exactly the nodes, inside the zone, of one equal volume grid of about the requested pitch"""
    best = None
    for e in (e0, e0 - 1, e0 + 1, e0 + 2):
        if e < 1:
            continue
        w = GRIDS.setdefault(e, cu2q(coords_cu(e))) if e in GRIDS or e < 40 else cu2q(coords_cu(e))
        w = np.where(w[:, :1] < 0, -w, w)
        m = sym.fz_margin(w, L)
        inner, outer = w[m > 1e-4], w[m > -1e-4]
        if not (len(inner) <= len(q) <= len(outer)):
            best = best or f"{len(q)} samples, a grid of edge {e} has between {len(inner)} and {len(outer)} nodes in the zone"
            continue
        a = np.arccos(np.clip(np.abs(q @ outer.T).max(1), 0, 1)) if len(outer) else np.ones(len(q))
        b = np.arccos(np.clip(np.abs(inner @ q.T).max(1), 0, 1)) if len(inner) else np.zeros(1)
        if a.max() < 3e-3 and b.max() < 3e-3:
            cx.trans(len(q))
            cx.expect(True, key)
            return
        best = f"edge {e}: {int((a > 3e-3).sum())} samples are no nodes, {int((b > 3e-3).sum())} nodes are missing"
    cx.expect(False, key, f"samples are not the nodes of an equal volume grid in the zone: {best}", case=case, laue=L)


def mko(L):
    @ck.group(f"ori_fz{L}")
    def grp(cx):
        n = len(sym.GROUP[L])
        for target in (50, 200, 1000) + ((4000,) if THOROUGH else ()):
            s = cx.call(F.sample_ori_fz_laue, L, target, CPU, False)
            if s is None:
                continue
            q = s.double().numpy()
            cx.states((L, target), q)
            cx.expect(q.ndim == 2 and q.shape[1] == 4 and 0.4 * target <= len(q) <= 1.7 * target + 25, "count", f"{q.shape} samples for a target of {target}", target=target)
            cx.expect_all(sym.fz_margin(q, L) > -1e-5, "inside", "sample is in the fundamental zone", rows=q, target=target)
            cx.close(np.linalg.norm(q, axis=1), np.ones(len(q)), "unit", "unit quaternions", tol=1e-5)
            # complete: all interior nodes of one equal volume grid
            D = np.abs(q @ q.T) - 3 * np.eye(len(q))
            cx.expect(np.arccos(np.clip(D.max(), 0, 1)) > 1e-3, "distinct", "two samples are the same rotation", target=target)
            nodes(cx, "grid", q, L, round((target * n) ** (1 / 3)), target)
            # the permutation is answered by the explorer: identity, reverse, rotation
            for nm, perm in (("rev", lambda m: torch.arange(m - 1, -1, -1)), ("rot", lambda m: torch.roll(torch.arange(m), 1))):
                with RandEnv(lambda k, name, o: perm(o.numel()) if "randperm" in name else None):
                    p = cx.call(F.sample_ori_fz_laue, L, target, CPU, True)
                a, b = sorted(map(tuple, p.tolist())), sorted(map(tuple, s.tolist()))
                cx.expect(a == b, f"permute-{nm}", "shuffling loses or repeats samples", target=target)
        for res in (12.0, 20.0) + ((6.0, 8.0) if THOROUGH else ()):
            s = cx.call(F.sample_ori_fz_laue_angle, L, res, CPU, False)
            if s is None:
                continue
            q = s.double().numpy()
            cx.states((L, "res", res), q)
            cx.expect_all(sym.fz_margin(q, L) > -1e-5, "res-inside", "sample is in the fundamental zone", rows=q, res=res)
            if L == 1:
                cover(cx, "res-cover", q, L, res, res=res)
            nodes(cx, "res-grid", q, L, round(2 * 131.97049 / res + 1), res)
            # spacing is not absurdly fine: count of equal volume cells of that size
            full = (2 * 131.97049 / res + 2.2) ** 3 / n
            cx.expect(0.5 * full <= len(q) <= 1.8 * full + 60, "res-count", f"{len(q)} samples, expected about {full:.0f}", res=res)
            with RandEnv(lambda k, name, o: torch.arange(o.numel() - 1, -1, -1) if "randperm" in name else None):
                p = cx.call(F.sample_ori_fz_laue_angle, L, res, CPU, True)
            cx.expect(sorted(map(tuple, p.tolist())) == sorted(map(tuple, s.tolist())), "res-permute", "shuffling loses or repeats samples", res=res)
        cx.sample(laue=L, n=len(q), first=q[0])


def mks(L):
    @ck.group(f"s2_fz{L}")
    def grp(cx):
        n2 = sym.MULT[L]
        T = rot.lattice_dirs(4)
        img = np.einsum("sij,nj->nsi", np.concatenate([sym.GROUPR[L], -sym.GROUPR[L]]), T)
        for target in (60, 250, 1000):
            for nm, f in (("fibonacci", S2.sample_s2_fz_laue_fibonacci), ("rosca", S2.sample_s2_fz_laue_rosca)):
                s = cx.call(f, L, target, CPU)
                if s is None:
                    continue
                d = s.double().numpy()
                cx.states((L, nm, target), d)
                cx.expect_all(sym.sector_margin(d, L) > -1e-5, f"{nm}/inside", "sample is in the fundamental sector", rows=d, target=target)
                cx.close(np.linalg.norm(d, axis=1), np.ones(len(d)), f"{nm}/unit", "unit vectors", tol=1e-5)
                k = 1.0 if nm == "fibonacci" else 2.0
                cx.expect(0.7 * target * k - 12 <= len(d) <= 1.3 * target * k + 4 * math.sqrt(target * k) + 16, f"{nm}/count", f"{len(d)} samples for a target of {target}", target=target)
                # coverage modulo symmetry
                c = np.einsum("nsi,mi->nsm", img, d).max((1, 2))
                a = np.arccos(np.clip(c, -1, 1))
                lim = 5.5 / math.sqrt(len(d) * n2) * (1.0 if nm == "fibonacci" else 1.25)
                cx.expect_all(a < lim, f"{nm}/cover", f"a direction is farther than {lim:.3f} rad from every sample (worst {a.max():.3f})", rows=T, target=target)
        cx.sample(laue=L, n=len(d), first=d[0])


for L in range(1, 12):
    mko(L)
    mks(L)


def product_grid(n, k):
    g = (np.arange(n) + 0.5) / n
    return np.array(list(itertools.product(g, repeat=k)))


@ck.group("random")
def rnd(cx):
    n = 24 if THOROUGH else 16
    G = product_grid(n, 3)
    N = len(G)

    def answer(k, name, o):
        if name == "aten::rand" and o.shape == (N,):
            return G[:, k % 3]
        if name == "aten::rand" and o.shape == (N, 3):
            return G
        if name == "aten::rand" and o.shape == (3, N):
            return G.T
        return None

    for nm, f, dt in (("uniform32", lambda: SA.so3_uniform_quat(N, CPU), 3e-5), ("uniform64", lambda: SA.so3_uniform_quat(N, CPU, torch.float64), 1e-9), ("cu", lambda: SA.so3_cu_rand(N, CPU), 3e-5)):
        with RandEnv(answer):
            q = cx.call(f, _key=nm)
        if q is None:
            continue
        cx.expect(tuple(q.shape) == (N, 4), f"{nm}/shape", f"{tuple(q.shape)}")
        q = q.double().numpy()
        cx.states(nm, q)
        cx.close(np.linalg.norm(q, axis=1), np.ones(N), f"{nm}/unit", "unit quaternions", tol=dt)
        if nm == "cu":
            cx.expect_all(q[:, 0] >= 0, "cu/positive", "non-negative real part")
        # moments of the rotation group's invariant measure, exact up to the quadrature error of the grid
        m2 = q.T @ q / N
        cx.close(m2, np.eye(4) / 4, f"{nm}/second-moment", "second moments of the uniform distribution", tol=0.02)
        m4 = np.einsum("ni,nj->ij", q**2, q**2) / N
        cx.close(m4, np.full((4, 4), 1 / 24) + np.eye(4) / 12, f"{nm}/fourth-moment", "fourth moments of the uniform distribution", tol=0.02)
        R = rot.q2R(q)
        cx.close(R.mean(0), np.zeros((3, 3)), f"{nm}/mean-rotation", "average rotation matrix of the uniform distribution", tol=0.02)
        # every class of rotations is reached
        T = rot.lattice_quats(1)
        a = np.degrees(2 * np.arccos(np.clip(np.abs(T @ q.T), 0, 1)).min(1))
        cx.expect_all(a < 800 / n, f"{nm}/cover", "a rotation is not reached", rows=T)
    # the extreme answers of the generator
    ext = np.array(list(itertools.product([0.0, 0.5, 1 - 2.0**-24], repeat=3)))
    N = len(ext)
    G = ext
    for nm, f in (("uniform", lambda: SA.so3_uniform_quat(N, CPU)), ("cu", lambda: SA.so3_cu_rand(N, CPU))):
        with RandEnv(answer):
            q = cx.call(f, _key=nm + "-extreme")
        if q is not None:
            cx.close(q.double().norm(dim=-1), np.ones(N), f"{nm}/extreme", "unit quaternions at the ends of the generator's range", tol=1e-5, rows=ext)
    cx.sample(n=n, second_moment=m2)


if __name__ == "__main__":
    ck.main()
