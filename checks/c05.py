"""C05  Disorientation: smallest rotation between two orientations modulo both symmetries."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import rot, sym
import ebsdtorch.s2_and_so3.laue_fz_ori as F
import ebsdtorch.s2_and_so3.laue_fz_misori as M

QA = rot.lattice_quats(2)
QA = QA[:: (7 if THOROUGH else 23)]
QB = rot.lattice_quats(3)[3:: (97 if THOROUGH else 211)]
ck = Check("C05", bounds=f"all 121 ordered pairs of Laue groups x all {len(QA)}x{len(QB)} orientation pairs; replaced by every representative of both classes")
I1, I2 = [x.ravel() for x in np.meshgrid(np.arange(len(QA)), np.arange(len(QB)), indexing="ij")]
P1, P2 = QA[I1], QB[I2]


def ang(c):
    return 2 * np.arccos(np.clip(c, -1, 1))


def member(d, m, L1, L2, tol):
    """is d in the double coset L1 m L2 ?"""
    ok = np.zeros(len(d), bool)
    for s in sym.GROUP[L1]:
        sm = rot.qmul(s, m)
        x = rot.qmul(sm[:, None], sym.GROUP[L2][None])
        ok |= (np.minimum(np.abs(x - d[:, None]).max(-1), np.abs(x + d[:, None]).max(-1)) < tol).any(1)
    return ok


def mk(L1):
    @ck.group(f"pairs{L1}")
    def g(cx):
        for L2 in range(1, 12):
            c = sym.disori_cos(P1, P2, L1, L2)
            m = rot.qmul(P1, rot.qconj(P2))
            cx.states((L1, L2), np.concatenate([P1, P2], 1))
            for dt, tol, atol in ((torch.float64, 1e-9, 1e-6), (torch.float32, 5e-6, 6e-3)):
                a, b = torch.tensor(P1, dtype=dt), torch.tensor(P2, dtype=dt)
                for mod in (F, M):
                    w = cx.call(mod.disori_angle_laue, a, b, L1, L2)
                    nm = mod.__name__.rsplit("_", 1)[1]
                    if w is not None:
                        cx.close(w, ang(c), f"angle-{nm}/{dt}", f"smallest angle over both symmetries", tol=atol, rows=np.concatenate([P1, P2], 1), L1=L1, L2=L2)
                        if dt == torch.float64:
                            cx.close(np.cos(w.numpy() / 2), c, f"cosine-{nm}", f"smallest angle over both symmetries", tol=1e-11, rows=np.concatenate([P1, P2], 1), L1=L1, L2=L2)
                for nm, f in (("disorientation", lambda: F.disorientation(a, b, L1, L2)), ("naive", lambda: M.disorientation_naive(a, b, L1, L2)),
                              ("misori_to_fz", lambda: M.misori_to_fz_laue(torch.tensor(m, dtype=dt), L1, L2))):
                    d = cx.call(f, _key=nm)
                    if d is None:
                        continue
                    d = d.double().numpy()
                    cx.close(np.abs(d[:, 0]), c, f"{nm}-real/{dt}", "the disorientation has the smallest angle", tol=tol, rows=np.concatenate([P1, P2], 1), L1=L1, L2=L2)
                    if dt == torch.float64:
                        cx.expect_all(member(d, m, L1, L2, 1e-9), f"{nm}-class", "the disorientation is symmetrically equivalent to the misorientation",
                                      rows=np.concatenate([P1, P2], 1), L1=L1, L2=L2)
                if L1 == L2:
                    o = cx.call(F.ori_angle_laue, a, b, L1)
                    if o is not None:
                        cx.close(o, ang(c), f"ori_angle/{dt}", "one sided reduction gives the disorientation angle for equal symmetries", tol=atol, rows=np.concatenate([P1, P2], 1), L1=L1)
                        if dt == torch.float64:
                            cx.close(np.cos(o.numpy() / 2), c, "ori_cosine", "one sided reduction gives the disorientation angle for equal symmetries", tol=1e-11, rows=np.concatenate([P1, P2], 1), L1=L1)
            # every representative of both orientations
            a, b = torch.tensor(P1), torch.tensor(P2)
            G1, G2 = sym.GROUP[L1], sym.GROUP[L2]
            for i, s1 in enumerate(G1):
                s2 = G2[i % len(G2)]
                w = cx.call(M.disori_angle_laue, torch.tensor(rot.qmul(s1, P1)), torch.tensor(rot.qmul(s2, P2)), L1, L2)
                cx.close(w, ang(c), "invariant", "symmetric representatives do not change the disorientation angle", tol=1e-6, rows=np.concatenate([P1, P2], 1), L1=L1, L2=L2)
            for s2 in G2:
                w = cx.call(F.disori_angle_laue, a, torch.tensor(rot.qmul(s2, P2)), L1, L2)
                cx.close(w, ang(c), "invariant2", "symmetric representatives do not change the disorientation angle", tol=1e-6, rows=np.concatenate([P1, P2], 1), L1=L1, L2=L2)
            w = cx.call(M.disori_angle_laue, b, a, L2, L1)
            cx.close(w, ang(c), "swap", "exchanging the two crystals does not change the angle", tol=1e-6, L1=L1, L2=L2)
            # the same crystal: zero
            if L1 == L2:
                for s in G1:
                    w = cx.call(M.disori_angle_laue, a, torch.tensor(rot.qmul(s, P1)), L1, L1)
                    cx.close(w, np.zeros(len(P1)), "zero", "symmetric images have zero disorientation", tol=1e-6, rows=P1, L1=L1)
                # a metric on the classes
                n, k = len(QA), len(QB)
                D = F.disori_angle_laue(a, b, L1, L1).reshape(n, k).numpy()
                q1 = torch.tensor(QA)
                E = F.disori_angle_laue(q1[:, None].expand(n, n, 4).reshape(-1, 4), q1[None].expand(n, n, 4).reshape(-1, 4), L1, L1).reshape(n, n).numpy()
                tri = E[:, :, None] + D[None] - D[:, None]
                cx.expect_all(tri.reshape(-1) > -1e-6, "triangle", "triangle inequality between classes", L1=L1)
            # shapes
            for shp in ((2, 3), (1,), ()):
                k = int(np.prod(shp))
                x, y = a[:k].reshape(shp + (4,)), b[:k].reshape(shp + (4,))
                for f, tail in ((F.disori_angle_laue, ()), (M.disori_angle_laue, ()), (F.disorientation, (4,)), (M.disorientation_naive, (4,))):
                    o = cx.call(f, x, y, L1, L2, _key=f"{f.__name__}-batch{shp}")
                    if o is not None:
                        w = f(a[:k], b[:k], L1, L2)
                        if tuple(o.shape) != shp + tail and o.numel() == w.numel() and shp == (2, 3) and tail == ():
                            cx.expect(tuple(o.shape) in ((6,), (2, 3)), "angle-shape", f"{tuple(o.shape)}")
                        elif tail:
                            cx.expect(tuple(o.shape) == shp + tail, f"{f.__name__}-shape{shp}", f"shape {tuple(o.shape)}")
                        cx.close(o.reshape(-1), w.reshape(-1), f"{f.__name__}-batch-values", "batched equals flat", tol=1e-12)
        cx.sample(L1=L1, L2=11, q1=P1[5], q2=P2[5], angle=float(ang(sym.disori_cos(P1[5:6], P2[5:6], L1, 11))[0]))


for L in range(1, 12):
    mk(L)

if __name__ == "__main__":
    ck.main()
