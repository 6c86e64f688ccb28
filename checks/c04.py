"""C04  Reduction of orientations to the fundamental zone."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import rot, sym
import ebsdtorch.s2_and_so3.laue_fz_ori as F
from ebsdtorch.s2_and_so3.laue_fz_s2 import s2_to_fz_laue
from ebsdtorch.s2_and_so3.quaternions import qu_apply

NQ = 5 if THOROUGH else 3
ck = Check("C04", bounds=f"every primitive integer quaternion with entries up to {NQ} (boundary and interior cases), all 11 Laue groups, "
           "every symmetrically equivalent representative of every orientation, both precisions, leading shapes (), (N,), (a,b)")
QS = LQ = rot.lattice_quats(NQ)


NEAR = [(1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 1e-5, 1e-6, 1e-7) if THOROUGH else (1e-2, 1e-3, 1e-4, 1e-6)][0]


def near(L):
    """orientations at small distances from the boundary of the zone, on all sides of it"""
    best = np.sort(sym.fz_real(QS, L), 1)
    if best.shape[1] < 2:
        return np.zeros((0, 4))
    T = QS[best[:, -1] - best[:, -2] < 1e-9]
    T = T[::max(1, len(T) // (80 if THOROUGH else 30))]
    out = []
    for d in NEAR:
        for a in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (0.6, -0.48, 0.64)):
            for s in (d, -d):
                out.append(rot.qmul(T, np.array([np.cos(s / 2), *(np.sin(s / 2) * np.array(a))])[None]))
    return np.concatenate(out) if len(T) else np.zeros((0, 4))


def pick(q, ref):
    """for every row of q the residual to the nearest +-row of ref[row]"""
    d = np.minimum(np.abs(q[:, None] - ref).max(-1), np.abs(q[:, None] + ref).max(-1))
    return d.min(1)


def mk(L):
    @ck.group(f"reduce{L}")
    def g(cx):
        G = sym.GROUP[L]
        n = len(G)
        QS = np.concatenate([LQ, near(L)])
        full = rot.qmul(G[None], QS[:, None])  # N,n,4 every representative
        for dt, tol, clr in ((torch.float64, 1e-9, 1e-8), (torch.float32, 3e-6, 1e-5)):
            q = torch.tensor(QS, dtype=dt)
            q0 = q.clone()
            e = cx.call(F.ori_equiv_laue, q, L)
            if e is not None:
                cx.expect(tuple(e.shape) == (len(QS), n, 4), f"equiv-shape/{dt}", f"shape {tuple(e.shape)}")
                en = e.double().numpy().reshape(len(QS), n, 4)
                D = np.minimum(np.abs(en[:, :, None] - full[:, None]).max(-1), np.abs(en[:, :, None] + full[:, None]).max(-1))
                cx.expect_all((D.min(2).max(1) < tol) & (D.min(1).max(1) < tol), f"equiv/{dt}",
                              "the equivalents are exactly symmetry times orientation", rows=QS)
            z = cx.call(F.ori_to_fz_laue, q, L)
            cx.expect(torch.equal(q, q0), f"mutates/{dt}", "argument modified")
            if z is None:
                continue
            zn = z.double().numpy()
            cx.states((L, str(dt)), zn)
            cx.expect_all(pick(zn, full) < tol, f"equivalent/{dt}", "reduced orientation is symmetrically equivalent to the input", rows=QS,
                          describe=lambda i: zn[i])
            best = sym.fz_real(QS, L)
            srt = np.sort(best, 1)
            gap = srt[:, -1] - (srt[:, -2] if n > 1 else -1)
            cx.close(zn[:, 0], srt[:, -1], f"smallest-angle/{dt}", "reduced orientation has the smallest angle of its class and non-negative real part", tol=tol, rows=QS)
            cx.expect_all(sym.fz_margin(zn, L) > -tol, f"in-zone/{dt}", "reduced orientation lies in the zone", rows=QS)
            z2 = cx.call(F.ori_to_fz_laue, z, L)
            uniq = gap > clr
            un = uniq & (srt[:, -1] > clr)
            if un.any() and z2 is not None:
                cx.close(z2.double().numpy()[un], zn[un], f"idempotent/{dt}", "reducing twice changes nothing", tol=tol, rows=QS[un])
                fast = cx.call(F.ori_in_fz_laue, z[torch.tensor(un)], L)
                cx.expect_all(fast, f"in-zone-fast/{dt}", "membership test accepts the reduced interior orientation", rows=QS[un])
            # invariance over the whole class
            for k in range(n):
                qk = torch.tensor(full[:, k], dtype=dt)
                zk = cx.call(F.ori_to_fz_laue, qk, L, _key="to_fz-class")
                if zk is None or not un.any():
                    continue
                a = zk.double().numpy()[un]
                cx.expect_all(np.abs(a - zn[un]).max(1) < 4 * tol, f"class/{dt}", "every representative reduces to the same orientation", rows=full[:, k][un], operator=k,
                              describe=lambda i: {"got": a[i], "want": zn[un][i]})
            # membership on every representative
            allq = full.reshape(-1, 4)
            allq = np.where(allq[:, :1] < 0, -allq, allq)
            m = sym.fz_margin(allq, L)
            clear = np.abs(m) > clr
            t = torch.tensor(allq, dtype=dt)
            for name in ("ori_in_fz_laue", "ori_in_fz_laue_brute"):
                r = cx.call(getattr(F, name), t, L)
                if r is not None and clear.any():
                    cx.expect(tuple(r.shape) == (len(allq),), f"{name}-shape/{dt}", f"shape {tuple(r.shape)}")
                    cx.expect_all(r.numpy()[clear] == (m[clear] > 0), f"{name}/{dt}", f"{name} is membership in the zone of smallest angles", rows=allq[clear])
            if uniq.any():
                r = cx.call(F.ori_in_fz_laue, t, L).numpy().reshape(len(QS), n)
                sub = un
                cx.expect_all(r[sub].sum(1) == 1, f"one-per-class/{dt}", "exactly one representative of an interior class is in the zone", rows=QS[sub])
            # leading shapes
            base = z
            for shp in ((2, 3), (3, 2), (1,), ()):
                k = int(np.prod(shp))
                s = q[5:5 + k].reshape(shp + (4,))
                for name, tail in (("ori_to_fz_laue", (4,)), ("ori_equiv_laue", (n, 4)), ("ori_in_fz_laue", ()), ("ori_in_fz_laue_brute", ())):
                    o = cx.call(getattr(F, name), s, L, _key=f"{name}-shape{shp}")
                    if o is not None:
                        cx.expect(tuple(o.shape) == shp + tail, f"{name}/batch{shp}", f"shape {tuple(o.shape)}")
                        w = getattr(F, name)(q[5:5 + k], L).reshape(shp + tail)
                        cx.expect(torch.equal(o, w), f"{name}/batch-values{shp}", "batched evaluation equals flat evaluation")
        # a direction seen through the reduced orientation is symmetrically equivalent
        q = torch.tensor(QS)
        z = F.ori_to_fz_laue(q, L)
        for d in rot.lattice_dirs(1)[::4]:
            dd = torch.tensor(d).expand(len(QS), 3)
            a = cx.call(qu_apply, q, dd)
            b = cx.call(qu_apply, z, dd)
            an, bn = a.numpy(), b.numpy()
            eqv = np.einsum("sij,nj->nsi", sym.GROUPR[L], an)
            cx.expect_all(np.abs(eqv - bn[:, None]).max(-1).min(1) < 1e-9, "directions",
                          "crystal direction seen through the reduced orientation is a symmetric image of the original", rows=QS, d=d)
        cx.sample(laue=L, q=QS[11], reduced=z[11])


for L in range(1, 12):
    mk(L)


@ck.group("cube")
def cube(cx):
    r = 2**0.5 - 1
    n = 25 if THOROUGH else 13
    for m in (n, n - 1):
        ax = np.linspace(-r, r, m)
        C = np.array(list(itertools.product(ax, repeat=3)))
        C[np.abs(C) < 1e-12] = 0
        cx.states("cube", C)
        t = torch.tensor(C)
        z = cx.call(F.cube_to_rfz, t, 11)
        if z is None:
            return
        zn = z.numpy()
        cx.expect_all((np.abs(zn).max(1) <= r + 1e-9) & (np.abs(zn).sum(1) <= 1 + 1e-9), "inside", "cube maps into the cubic zone", rows=C, describe=lambda i: zn[i])
        b = cx.call(F.rfz_to_cube, z, 11)
        cx.close(b, C, "roundtrip", "cube -> zone -> cube", tol=1e-9, rows=C)
        cr = np.linalg.norm(np.cross(C, zn), axis=1)
        cx.expect_all((cr < 1e-9) & ((C * zn).sum(1) >= -1e-12), "ray", "the map keeps the direction", rows=C, describe=lambda i: zn[i])
        onb = np.abs(C).max(1) > r - 1e-12
        bd = np.maximum(np.abs(zn).max(1) / r, np.abs(zn).sum(1))
        cx.expect_all(np.abs(bd[onb] - 1) < 1e-9, "surface", "the surface of the cube maps to the surface of the zone", rows=C[onb])
        inz = (np.abs(C).sum(1) <= 1)
        c = cx.call(F.rfz_to_cube, torch.tensor(C[inz]), 11)
        if c is not None:
            cn = c.numpy()
            cx.expect_all(np.abs(cn).max(1) <= r + 1e-9, "inside-cube", "zone maps into the cube", rows=C[inz])
            cx.close(cx.call(F.cube_to_rfz, c, 11), C[inz], "roundtrip2", "zone -> cube -> zone", tol=1e-9, rows=C[inz])
    cx.sample(c=C[20], z=zn[20])


if __name__ == "__main__":
    ck.main()
