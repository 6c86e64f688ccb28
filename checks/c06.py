"""C06  Fundamental sector of directions."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import rot, sym
import ebsdtorch.s2_and_so3.laue_fz_s2 as S
from ebsdtorch.s2_and_so3.laue_fz_ori import ori_color_laue

N = 10 if THOROUGH else 6
ck = Check("C06", bounds=f"all primitive lattice directions with indices up to {N} (poles, mirror planes, interior), directions next to all axes and planes, 11 Laue groups, all symmetric images, both precisions")
DS = np.concatenate([rot.lattice_dirs(N), rot.near_dirs()])


def mk(L):
    @ck.group(f"sector{L}")
    def g(cx):
        R = sym.GROUPR[L]
        full = np.einsum("sij,nj->nsi", np.concatenate([R, -R]), DS)
        n2 = full.shape[1]
        marg = sym.sector_margin(full, L)
        best = marg.max(1)
        for dt, tol, edge in ((torch.float64, 1e-9, 1e-7), (torch.float32, 3e-6, 1e-4)):
            d = torch.tensor(DS, dtype=dt)
            d0 = d.clone()
            e = cx.call(S.s2_equiv_laue, d, L)
            if e is not None:
                cx.expect(tuple(e.shape) == (len(DS), n2, 3), f"equiv-shape/{dt}", f"shape {tuple(e.shape)}")
                en = e.double().numpy()
                ok = np.ones(len(DS), bool)
                for k in range(n2):
                    ok &= (np.abs(en - full[:, k:k + 1]).max(-1).min(1) < tol) & (np.abs(full - en[:, k:k + 1]).max(-1).min(1) < tol)
                cx.expect_all(ok, f"equiv/{dt}", "the equivalents are the images under the group with inversion", rows=DS)
            z = cx.call(S.s2_to_fz_laue, d, L)
            cx.expect(torch.equal(d, d0), f"mutates/{dt}", "argument modified")
            if z is None:
                continue
            zn = z.double().numpy()
            cx.states((L, str(dt)), zn)
            cx.expect_all(np.abs(full - zn[:, None]).max(-1).min(1) < tol, f"equivalent/{dt}", "reduced direction is a symmetric image", rows=DS, describe=lambda i: zn[i])
            cx.expect_all(sym.sector_margin(zn, L) > -edge, f"in-sector/{dt}", "reduced direction lies in the fundamental sector", rows=DS, describe=lambda i: zn[i])
            inter = best > edge
            for k in range(n2):
                x = torch.tensor(full[:, k], dtype=dt)
                y = cx.call(S.s2_to_fz_laue, x, L, _key="to_fz-class")
                if y is not None:
                    yn = y.double().numpy()
                    cx.expect_all(np.abs(yn - zn).max(1)[inter] < 4 * tol, f"class/{dt}", "all symmetric images reduce to the same direction", rows=full[:, k][inter], image=k)
                    cx.expect_all(sym.sector_margin(yn, L) > -edge, f"class-in-sector/{dt}", "reduced image lies in the sector", rows=full[:, k], image=k)
                r = cx.call(S.s2_in_fz_laue, x, L)
                if r is not None:
                    clear = np.abs(marg[:, k]) > edge
                    cx.expect_all((r.numpy() == (marg[:, k] > 0))[clear], f"member/{dt}", "membership in the fundamental sector", rows=full[:, k][clear])
            r = cx.call(S.s2_in_fz_laue, torch.tensor(full, dtype=dt), L)
            if r is not None:
                cnt = r.numpy().sum(1)
                cx.expect_all(cnt[inter] == 1, f"unique/{dt}", "exactly one image of an interior direction is in the sector", rows=DS[inter])
            a = cx.call(S.s2_in_fz_laue, z, L)
            if a is not None and dt == torch.float64:
                cx.expect_all(a.numpy(), f"covered/{dt}", "the sector is closed: the reduced direction is reported inside", rows=DS)
            for shp in ((2, 3), (1,), ()):
                k = int(np.prod(shp))
                s = d[7:7 + k].reshape(shp + (3,))
                for nm, tail in (("s2_to_fz_laue", (3,)), ("s2_in_fz_laue", ()), ("s2_equiv_laue", (n2, 3))):
                    o = cx.call(getattr(S, nm), s, L, _key=f"{nm}-batch{shp}")
                    if o is not None:
                        cx.expect(tuple(o.shape) == shp + tail, f"{nm}-shape{shp}", f"shape {tuple(o.shape)}")
                        cx.expect(torch.equal(o.reshape(-1), getattr(S, nm)(d[7:7 + k], L).reshape(-1)), f"{nm}-values{shp}", "batched equals flat")
        cx.sample(laue=L, d=DS[40], reduced=zn[40])


for L in range(1, 12):
    mk(L)


@ck.group("rounding")
def rounding(cx):
    """unit vectors up to rounding: components a few units in the last place off, next to the poles and axes too"""
    for dt, u, offs, edge in ((torch.float32, 2.0**-23, (0.0, 1e-5, 1e-4, 2e-4, 3.5e-4), 3e-5), (torch.float64, 2.0**-52, (0.0, 1e-9, 1e-8), 1e-9)):
        P = []
        for o in offs:
            for k in range(1 if o == 0 else 24):
                a = 2 * np.pi * (k + 0.3) / 24
                for s in (-1, -0.5, 0, 1, 2):
                    for sg in (1, -1):
                        v = [o * np.cos(a), o * np.sin(a), sg * (1 + s * u)]
                        P += [v, [v[2], v[0], v[1]], [v[1], v[2], v[0]]]
        for v in rot.lattice_dirs(2):
            P += [v * (1 + s * u) for s in (-2, -1, 1, 2)]
        t = torch.tensor(np.array(P), dtype=dt)
        X = t.double().numpy()
        for L in range(1, 12):
            R = sym.GROUPR[L]
            full = np.einsum("sij,nj->nsi", np.concatenate([R, -R]), X)
            z = cx.call(S.s2_to_fz_laue, t, L)
            r = cx.call(S.s2_in_fz_laue, t, L)
            if z is None or r is None:
                continue
            zn = z.double().numpy()
            cx.states((L, str(dt)), zn)
            tol = 16 * u
            cx.expect_all(np.abs(full - zn[:, None]).max(-1).min(1) < tol, f"image/{dt}", f"Laue {L}: reduced direction is a symmetric image", rows=X, describe=lambda i: zn[i])
            cx.expect_all(sym.sector_margin(zn, L) > -edge, f"sector/{dt}", f"Laue {L}: reduced direction lies in the sector", rows=X, describe=lambda i: zn[i])
            m = sym.sector_margin(X, L)
            clear = np.abs(m) > edge
            cx.expect_all((r.numpy() == (m > 0))[clear], f"member/{dt}", f"Laue {L}: membership", rows=X[clear], describe=lambda i: m[clear][i])
            a = cx.call(S.s2_in_fz_laue, z, L)
            if a is not None:
                cx.expect_all(a.numpy(), f"covered/{dt}", f"Laue {L}: the reduced direction is reported inside", rows=X, describe=lambda i: zn[i])


def mkc(L):
    @ck.group(f"color{L}")
    def c(cx):
        """symmetric images of an orientation get the same colour"""
        q = rot.lattice_quats(2)[1::3]
        G = sym.GROUP[L]
        for ref in ([0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.36, 0.48, 0.8]):
            rd = torch.tensor(ref, dtype=torch.float64)
            d = np.einsum("nij,j->ni", rot.q2R(q), np.array(ref))
            img = np.einsum("sij,nj->nsi", np.concatenate([sym.GROUPR[L], -sym.GROUPR[L]]), d)
            inter = sym.sector_margin(img, L).max(1) > 1e-6
            if not inter.any():
                continue
            qq = torch.tensor(q[inter])
            c0 = cx.call(ori_color_laue, qq, rd, L)
            if c0 is None:
                return
            cx.expect(tuple(c0.shape) == (len(qq), 3), "shape", f"{tuple(c0.shape)}")
            cx.states((L, str(ref)), c0)
            for k, s in enumerate(G):
                c1 = cx.call(ori_color_laue, torch.tensor(rot.qmul(s, q[inter])), rd, L)
                if c1 is not None:
                    df = np.abs(c1.numpy().astype(int) - c0.numpy().astype(int))
                    df = np.minimum(df, 256 - df)
                    cx.expect_all(df.max(1) <= 1, "same", "symmetric images of an orientation have the same colour", rows=q[inter], operator=k, ref=ref)


for L in range(1, 12):
    mkc(L)

if __name__ == "__main__":
    ck.main()
