"""C29  Structure factors and excitation errors."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contextlib, functools, io, itertools, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import sgref as R
from ebsdtorch.crystallography.unit_cell import Cell
from ebsdtorch.crystallography import diffraction as D
from ebsdtorch.crystallography.ebsd_master import calc_sg_batched
from ebsdtorch.crystallography.scattering_factors.scattering_factors_WK import scatter_factor_WK as WK
from ebsdtorch.crystallography.scattering_factors.scattering_factors_Hybrid import scatter_factor_hybrid as HY
import ebsdtorch.crystallography.groups as G

LAT = {1: (0.4, 0.5, 0.6, 91, 95, 99), 2: (0.4, 0.5, 0.6, 90, 97, 90), 3: (0.4, 0.5, 0.6, 90, 90, 90), 4: (0.4, 0.4, 0.6, 90, 90, 90), 5: (0.4, 0.4, 0.6, 90, 90, 120),
       6: (0.45, 0.45, 0.6, 90, 90, 120), 7: (0.5, 0.5, 0.5, 90, 90, 90)}
NB = 70 if THOROUGH else 45
ck = Check("C29", bounds=f"230 space groups, structures with two or three sites, all pairs of about {NB} reflections; flag, voltage and site histories on 7 crystal systems; excitation errors on a lattice of directions")


def quiet(cx, f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return cx.call(f, *a, **k)


def cell(cx, sg, atoms, s=1, lat=None):
    lat = lat or LAT[R.system(sg)]
    return quiet(cx, Cell, sg, atoms, lat[:3], "nm", lat[3:], "deg", s, _key="Cell", _case=(sg, s))


def metric(lat):
    a, b, c = lat[:3]
    al, be, ga = np.deg2rad(lat[3:])
    M = np.array([[a * a, a * b * np.cos(ga), a * c * np.cos(be)], [a * b * np.cos(ga), b * b, b * c * np.cos(al)], [a * c * np.cos(be), b * c * np.cos(al), c * c]])
    return np.linalg.inv(M), math.sqrt(np.linalg.det(M))


@functools.lru_cache(None)
def operators(sg, s):
    with contextlib.redirect_stdout(io.StringIO()):
        return G.sg_operators(sg, s).double().numpy()


def orbit(sg, s, x):
    ops = operators(sg, s)
    p = ops[:, :3, :3] @ np.asarray(x, float) + ops[:, :3, 3]
    p = (p + 1e-7) % 1.0 - 1e-7
    out = []
    for q in p:
        if all(np.abs((q - o + 0.5) % 1 - 0.5).max() > 1e-3 for o in out):
            out.append(q)
    return np.array(out)


def dmin_for(sg, lat, nb):
    """largest resolution with about nb reflections"""
    gi, vol = metric(lat)
    n = len(R.centering(sg))
    return (4.19 * vol / n / nb) ** (1 / 3)


def brute_F(sg, s, atoms, f, dh):
    """sum over sites of f[site, g] occ sum_r exp(-2 pi i g.r)"""
    F = np.zeros(len(dh), complex)
    for k, at in enumerate(atoms):
        r = orbit(sg, s, at[1:4])
        F += f[k] * at[4] * np.exp(-2j * np.pi * dh @ r.T).sum(1)
    return F


def factors(name, atoms, gl, V, core=True, phon=True):
    """reference use of the scattering factor models, float64; gl in 1/nm"""
    u = torch.tensor([10 * math.sqrt(a[5] / (8 * math.pi**2)) for a in atoms], dtype=torch.float64)
    z = torch.tensor([a[0] for a in atoms])
    v = torch.tensor([float(V)], dtype=torch.float64)
    g = torch.as_tensor(gl, dtype=torch.float64) * 0.1
    if name == "WK":
        r = WK(g * 2 * math.pi, z, u, v, include_core=core, include_phonon=phon)
    else:
        r = HY(g, z, u, v, include_core=core, include_phonon=phon)
    return r[0].numpy()


PRE = 0.04787801 * 0.664840340614319


def ucg_ref(sg, s, atoms, lat, H, V, name, absorption=True, core=True, phon=True):
    gi, vol = metric(lat)
    dh = (H[None] - H[:, None]).reshape(-1, 3).astype(float)
    u, inv = np.unique(dh, axis=0, return_inverse=True)
    inv = inv.reshape(-1)
    gl = np.sqrt(np.maximum(np.einsum("ni,ij,nj->n", u, gi, u), 0))
    gu, gv = np.unique(np.round(gl, 9), return_inverse=True)
    f = factors(name, atoms, gu, V, core, phon)[:, gv.reshape(-1)]
    Fr, Fi = brute_F(sg, s, atoms, f.real, u), brute_F(sg, s, atoms, f.imag, u)
    if not absorption:
        Fi = 0 * Fi
    n = len(H)
    z = int(np.nonzero((u == 0).all(1))[0][0])
    return (PRE / vol) * (Fr + 1j * Fi)[inv].reshape(n, n), (PRE / vol) * abs(Fi[z]), (0.04787801 / vol) * abs(Fr[z])


def wavelength(V, v0=0.0):
    """relativistic electron wavelength in nm; v0 mean inner potential in V (added to the corrected potential)"""
    h, m, e, c = 6.62607015e-34, 9.1093837015e-31, 1.602176634e-19, 2.99792458e8
    V = V * 1e3
    return 1e9 * h / math.sqrt(2 * m * e * (V * (1 + e * V / (2 * m * c * c)) + v0))


ZS = [28, 8, 6, 14, 26, 79, 13, 11, 17, 38, 22, 92, 50, 1, 74, 3]


def atoms_for(sg):
    a, b = ZS[sg % 16], ZS[(sg * 7 + 3) % 16]
    return [(a, 0.0, 0.0, 0.0, 1.0, 0.004), (b, 0.137, 0.244, 0.41, 0.7, 0.008)]


def mk(lo, hi):
    @ck.group(f"crystals{lo}", timeout=800)
    def g(cx):
        for sg in range(lo, hi):
            lat = LAT[R.system(sg)]
            at = atoms_for(sg)
            s = 2 if sg in R.TWO and (sg % 2 or THOROUGH) else 1
            c = cell(cx, sg, at, s)
            if c is None:
                continue
            dm = dmin_for(sg, lat, NB)
            nm = f"space group {sg} {R.HM[sg-1]}"
            gi, vol = metric(lat)
            # ---- S_gh
            S = quiet(cx, D.calc_sgh, c, dm, _key="sgh")
            H = quiet(cx, c.get_reflections, dmin=dm, difference_table=False)
            if S is None or H is None:
                continue
            H = np.concatenate([np.zeros((1, 3), int), H.numpy()])
            n = len(H)
            cx.state(sg, s, n)
            dh = (H[None] - H[:, None]).reshape(-1, 3).astype(float)
            g2 = np.einsum("ni,ij,nj->n", dh, gi, dh)
            if cx.expect(tuple(S.shape) == (2, n, n), f"{sg}/sgh-shape", f"{tuple(S.shape)}"):
                for k in range(2):
                    r = orbit(sg, s, at[k][1:4])
                    w = at[k][0] ** 2 * at[k][4] * np.exp(-at[k][5] * g2 / 4) * np.exp(2j * np.pi * dh @ r.T).sum(1)
                    d = np.abs(S[k].numpy().reshape(-1) - w)
                    cx.trans(n * n)
                    cx.expect(d.max() < 2e-4 * np.abs(w).max(), f"{sg}/sgh", f"{nm}: S_gh = Z^2 occ DW sum exp(2 pi i (h-g).r), site {k}; off by {d.max():.3g} of {np.abs(w).max():.3g}")
            # ---- U_g
            V = (10.0, 20.0, 30.0)[sg % 3]
            for sf in ("WK", "Hybrid") if (sg % 2 or THOROUGH) else ("WK",):
                r = quiet(cx, D.calc_helper_bloch_formalism, c, dm, torch.tensor([V]), scatter_factor=sf, _key=f"{sf}/call")
                if r is None:
                    continue
                hk, U, up, lam = r
                if not cx.expect(tuple(U.shape) == (1, n, n) and (hk.numpy() == H).all() and tuple(up.shape) == (1,) and tuple(lam.shape) == (1,), f"{sg}/ucg-shape", f"{tuple(U.shape)} {tuple(up.shape)} {tuple(lam.shape)}; reflections as listed with 000 first"):
                    continue
                w, w0, v0 = ucg_ref(sg, s, at, lat, H, V, sf)
                U = U[0].numpy()
                d = np.abs(U - w)
                cx.trans(n * n)
                cx.expect(d.max() < 3e-4 * np.abs(w).max(), f"{sg}/ucg-{sf}", f"{nm}: potential coefficients {sf}; off by {d.max():.3g} of {np.abs(w).max():.3g}")
                cx.expect(abs(float(up[0].real) - w0) < 2e-3 * w0 + 1e-9, f"{sg}/upmod-{sf}", f"{nm}: mean absorption {float(up[0].real)} expected {w0}")
                cx.expect(abs(float(lam[0]) / wavelength(V, v0) - 1) < 1e-5, f"{sg}/lambda", f"{nm}: refracted wavelength {float(lam[0])} expected {wavelength(V, v0)}")
                # symmetry of the coefficients themselves
                ops = operators(sg, s)
                look = {tuple(h): i for i, h in enumerate(H.tolist())}
                for o in ops:
                    hw = np.rint(H @ o[:3, :3]).astype(int)
                    idx = np.array([look.get(tuple(h), -1) for h in hw.tolist()])
                    ok = idx >= 0
                    # F(gW) = F(g) exp(2 pi i g.w) for exp(-2 pi i g.r)
                    e = np.abs(U[0, idx[ok]] - U[0, ok] * np.exp(2j * np.pi * H[ok] @ o[:3, 3]))
                    cx.trans(int(ok.sum()))
                    if not cx.expect(ok.mean() > 0.9 and e.max() < 3e-4 * np.abs(U).max(), f"{sg}/symmetry-{sf}", f"{nm}: coefficients do not have the symmetry of the crystal (extinctions and phases), off by {e.max() if ok.any() else None}"):
                        break
        cx.sample(sg=lo)


for lo in range(1, 231, 23):
    mk(lo, min(lo + 23, 231))

STRUCT = [(1, [(26, 0.505, 0.2555, 0.708, 1.0, 0.005), (15, 0.9386, 0.1433, 0.2096, 0.8, 0.003), (8, 0.24, 0.3085, 0.3716, 1.0, 0.01)]),
          (14, [(8, 0.1, 0.2, 0.3, 1.0, 0.006), (14, 0.37, 0.41, 0.05, 0.5, 0.004)]), (62, [(22, 0.1, 0.25, 0.3, 1.0, 0.004), (8, 0.2, 0.03, 0.33, 1.0, 0.009)]),
          (141, [(22, 0.0, 0.75, 0.125, 1.0, 0.005), (8, 0.0, 0.25, 0.208, 1.0, 0.007)]), (152, [(14, 0.47, 0.0, 1 / 3, 1.0, 0.005), (8, 0.41, 0.27, 0.214, 1.0, 0.008)]),
          (186, [(30, 1 / 3, 2 / 3, 0.0, 1.0, 0.006), (16, 1 / 3, 2 / 3, 0.3748, 1.0, 0.006)]), (205, [(26, 0.0, 0.0, 0.0, 1.0, 0.004), (16, 0.385, 0.385, 0.385, 1.0, 0.005)]),
          (225, [(11, 0.0, 0.0, 0.0, 1.0, 0.005), (17, 0.5, 0.5, 0.5, 1.0, 0.005)]), (227, [(14, 0.0, 0.0, 0.0, 1.0, 0.005), (32, 0.0, 0.0, 0.0, 0.25, 0.006)])]


@ck.group("options", timeout=800)
def options(cx):
    """every combination of flags; several voltages at once equal single ones; absorption-free coefficients are Hermitian"""
    VS = [5.0, 20.0, 30.0, 200.0]
    for sg, at in STRUCT:
        lat = LAT[R.system(sg)]
        c = cell(cx, sg, at)
        if c is None:
            continue
        dm = dmin_for(sg, lat, 25)
        for sf, ab, co, ph in itertools.product(("WK", "Hybrid"), (True, False), (True, False), (True, False)):
            case = (sg, sf, ab, co, ph)
            cx.state(case)
            kw = dict(absorption=ab, include_core=co, include_phonon=ph, scatter_factor=sf)
            r = quiet(cx, D.calc_helper_bloch_formalism, c, dm, torch.tensor(VS), _key=f"{sf}/call", _case=case, **kw)
            if r is None:
                continue
            H, U, up, lam = r[0].numpy(), r[1].numpy(), r[2].numpy(), r[3].numpy()
            if not cx.expect(len(U) == len(VS) and len(up) == len(VS) and len(lam) == len(VS), f"{sf}/batch", f"{U.shape} {up.shape} {lam.shape}"):
                continue
            tag = f"{sf}/abs{int(ab)}-core{int(co)}-tds{int(ph)}"
            for i, V in enumerate(VS):
                w, w0, v0 = ucg_ref(sg, 1, at, lat, H, V, sf, ab, co, ph)
                m = np.abs(w).max()
                cx.expect(np.abs(U[i] - w).max() < 3e-4 * m, f"{tag}/value", f"sg {sg} {V} kV {kw}: coefficients off by {np.abs(U[i]-w).max():.3g} of {m:.3g}")
                cx.expect(abs(up[i] - w0) < 2e-3 * w0 + 1e-7 * m, f"{tag}/upmod", f"sg {sg} {V} kV {kw}: mean absorption {up[i]} expected {w0}")
                cx.expect(abs(lam[i] / wavelength(V, v0) - 1) < 1e-5, f"{tag}/lambda", f"sg {sg} {V} kV wavelength {lam[i]}, expected {wavelength(V, v0)}")
                if not ab:
                    cx.expect(np.abs(U[i] - U[i].conj().T).max() < 1e-5 * m, f"{tag}/hermitian", "coefficients without absorption are Hermitian")
                one = quiet(cx, D.calc_helper_bloch_formalism, c, dm, torch.tensor([V]), _key=f"{sf}/call", _case=case, **kw)
                if one is not None:
                    cx.expect(np.abs(one[1][0].numpy() - U[i]).max() < 1e-5 * m and abs(one[3][0] - lam[i]) < 1e-6 * lam[i] and abs(one[2][0] - up[i]) < 1e-6 * m, f"{tag}/alone", f"{V} kV computed alone differs from the batch")
        for bad in ("wk", "LVD", ""):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    D.calc_helper_bloch_formalism(c, dm, torch.tensor([20.0]), scatter_factor=bad)
                cx.fail("unknown", f"unknown scattering factor model {bad!r} accepted")
            except ValueError:
                cx.trans()


@ck.group("sites", timeout=600)
def sites(cx):
    """histories of equivalent descriptions of one structure: sites permuted, split into partial occupancies, moved along
    the orbit or by a lattice vector"""
    V = torch.tensor([20.0])
    for sg, at in STRUCT:
        lat = LAT[R.system(sg)]
        dm = dmin_for(sg, lat, 25)
        c0 = cell(cx, sg, at)
        base = quiet(cx, D.calc_helper_bloch_formalism, c0, dm, V)
        bs = quiet(cx, D.calc_sgh, c0, dm)
        if base is None or bs is None:
            continue
        vs = []
        for p in itertools.permutations(range(len(at))):
            vs.append((f"perm{p}", [at[i] for i in p], list(p)))
        for k in range(len(at)):
            a = at[k]
            for w in (0.5, 0.3):
                vs.append((f"split{k}", at[:k] + [a[:4] + (a[4] * w, a[5]), a[:4] + (a[4] * (1 - w), a[5])] + at[k + 1:], None))
            for t in ((1, 0, 0), (0, -1, 2)):
                vs.append((f"shift{k}", at[:k] + [(a[0], a[1] + t[0], a[2] + t[1], a[3] + t[2]) + a[4:]] + at[k + 1:], list(range(len(at)))))
            for r in orbit(sg, 1, a[1:4])[:: 1 if THOROUGH else 3]:
                vs.append((f"orbit{k}", at[:k] + [(a[0], *map(float, r)) + a[4:]] + at[k + 1:], list(range(len(at)))))
        for tag, at2, p in vs:
            c = cell(cx, sg, at2)
            r = quiet(cx, D.calc_helper_bloch_formalism, c, dm, V)
            s = quiet(cx, D.calc_sgh, c, dm)
            cx.state(sg, tag, at2)
            if r is None or s is None:
                continue
            m = base[1].abs().max()
            cx.expect((r[1] - base[1]).abs().max() < 3e-4 * m and (r[2] - base[2]).abs().max() < 1e-5 * m, f"{tag}/ucg", f"sg {sg}: potential changes with an equivalent description of the crystal ({tag})")
            ms = bs.abs().max()
            if p is not None:
                cx.expect((s - bs[p]).abs().max() < 3e-4 * ms, f"{tag}/sgh", f"sg {sg}: S_gh changes with an equivalent description ({tag})")
            else:
                cx.expect((s.sum(0) - bs.sum(0)).abs().max() < 3e-4 * ms, f"{tag}/sgh", f"sg {sg}: sum of S_gh changes with an equivalent description ({tag})")


@ck.group("p1", timeout=600)
def p1(cx):
    """the same crystal described in P1 with all its atoms has the same coefficients"""
    V = torch.tensor([15.0])
    for sg, at in STRUCT[1:]:
        lat = LAT[R.system(sg)]
        dm = dmin_for(sg, lat, 25)
        c = cell(cx, sg, at)
        full = [(a[0], *map(float, r)) + a[4:] for a in at for r in orbit(sg, 1, a[1:4])]
        if len(full) > 60:
            continue
        c1 = cell(cx, 1, full, lat=lat)
        for sf in ("WK", "Hybrid"):
            r, q = (quiet(cx, D.calc_helper_bloch_formalism, x, dm, V, scatter_factor=sf) for x in (c, c1))
            cx.state(sg, sf)
            if r is None or q is None:
                continue
            H, H1 = r[0].tolist(), {tuple(h): i for i, h in enumerate(q[0].tolist())}
            ok = [tuple(h) in H1 for h in H]
            if not cx.expect(all(ok), "reflections", "reflections of the crystal are reflections of P1"):
                continue
            idx = [H1[tuple(h)] for h in H]
            m = r[1].abs().max()
            cx.expect((q[1][0][idx][:, idx] - r[1][0]).abs().max() < 3e-4 * m, f"{sg}/{sf}", f"sg {sg}: coefficients differ from the P1 description")
            out = [i for i, h in enumerate(q[0].tolist()) if h not in H]
            if out:
                cx.expect(q[1][0][0][out].abs().max() < 3e-4 * m, f"{sg}/{sf}-ext", f"sg {sg}: reflections left out by the centring are not extinct in P1")


@ck.group("scatter-matrix", timeout=600)
def scatter(cx):
    """the scattering matrix helper describes the same potential"""
    V = torch.tensor([10.0, 20.0, 30.0])
    for sg, at in STRUCT:
        c = cell(cx, sg, at)
        dm = dmin_for(sg, LAT[R.system(sg)], 25)
        for sf in ("WK", "Hybrid"):
            b = quiet(cx, D.calc_helper_bloch_formalism, c, dm, V, scatter_factor=sf)
            for co, ph in itertools.product((True, False), repeat=2):
                b2 = quiet(cx, D.calc_helper_bloch_formalism, c, dm, V, scatter_factor=sf, include_core=co, include_phonon=ph)
                q = quiet(cx, D.calc_helper_scatter_matrix, c, dm, V, scatter_factor=sf, include_core=co, include_phonon=ph)
                cx.state(sg, sf, co, ph)
                if b2 is None or q is None:
                    continue
                w = b2[1] * b2[3][:, None, None]
                m = w.abs().max()
                cx.expect((q[0] == b2[0]).all() and (q[3] - b2[3]).abs().max() < 1e-8, f"{sf}/same", "same reflections and wavelengths")
                cx.expect((q[1] - w).abs().max() < 1e-4 * m, f"{sf}/qg", f"sg {sg}: q_g is lambda U_g, off by {(q[1]-w).abs().max():.3g} of {m:.3g}")
                x = 1 / (b2[2].real * b2[3])
                if co or ph:
                    cx.expect(((q[2].real - x).abs() <= 1e-3 * x.abs()).all(), f"{sf}/xgp", f"sg {sg}: absorption length {q[2]} expected {x}")
            n = quiet(cx, D.calc_helper_scatter_matrix, c, dm, V, scatter_factor=sf, apply_qg_shift=False)
            if n is not None and b is not None:
                w = (b[1] * b[3][:, None, None]).abs()
                cx.expect((n[1].abs() - w).abs().max() < 1e-3 * w.max(), f"{sf}/noshift", f"sg {sg}: without the phase shift the moduli are unchanged, off by {(n[1].abs() - w).abs().max():.3g} of {w.max():.3g}")


@ck.group("wavelength")
def wl(cx):
    V = [0.1, 0.5, 1, 2, 5, 10, 15, 20, 25, 30, 60, 80, 100, 200, 300, 1000]
    for dt in (torch.float64, torch.float32):
        for shp in ((16,), (4, 4), (2, 1, 8)):
            r = cx.call(D.calc_lambda, torch.tensor(V, dtype=dt).reshape(shp))
            cx.state(str(dt), shp)
            if r is None:
                continue
            cx.expect(all(tuple(x.shape) == shp for x in r), "shape", "shape is kept")
            w = np.array([wavelength(v) for v in V])
            cx.expect_all(np.abs(r[0].double().numpy().ravel() / w - 1) < 1e-5, "lambda", "relativistic wavelength", rows=V)
            gam = 1 + np.array(V) * 1e3 * 1.602176634e-19 / (9.1093837015e-31 * 2.99792458e8**2)
            cx.expect_all(np.abs(r[1].double().numpy().ravel() / gam - 1) < 1e-5, "gamma", "relativistic factor", rows=V)
            cx.expect_all(np.abs(r[2].double().numpy().ravel() / (np.array(V) * 1e3 * (1 + gam) / 2) - 1) < 1e-5, "psi", "relativistic potential", rows=V)


@ck.group("excitation", timeout=600)
def excitation(cx):
    """s_g = distance from the reciprocal point to the Ewald sphere, measured along the beam to first order"""
    dirs = np.array([d for d in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(d) and math.gcd(*d) == 1], float)
    dirs = np.concatenate([dirs, dirs + [0.13, -0.29, 0.41]])
    dirs /= np.linalg.norm(dirs, axis=1, keepdims=True)
    for sg, at in STRUCT:
        lat = LAT[R.system(sg)]
        for dt in (torch.float64, torch.float32):
            with contextlib.redirect_stdout(io.StringIO()):
                c = cell(cx, sg, at)
                c = c.set_fp_dtype(dt)
            H = quiet(cx, c.get_reflections, dmin=dmin_for(sg, lat, 60), difference_table=False)
            rsm = np.linalg.inv(np.array(c.dsm.double())).T  # Cartesian = rsm . hkl
            gc = H.double().numpy() @ rsm.T
            gi, _ = metric(lat)
            cx.close(np.einsum("ni,ni->n", gc, gc), np.einsum("ni,ij,nj->n", H.numpy(), gi, H.numpy()), f"{sg}/metric", "reciprocal lattice", tol=1e-4)
            for lam in (0.0388, 0.0086, 0.00251):
                kc = dirs / lam
                kr = kc @ np.linalg.inv(rsm).T
                p = kc[:, None] + gc[None]
                num = -np.einsum("gj,kgj->kg", gc, 2 * kc[:, None] + gc[None])
                den = 2 * np.einsum("kgj,kj->kg", p, kc) * lam
                w = num / den
                good = np.abs(den) > 0.2 / lam
                kt, ht = torch.tensor(kr, dtype=dt), H.to(dt)
                cx.state(sg, str(dt), lam)
                for nm, f in (("calc_sg", lambda: D.calc_sg(c, H[None, :, :], kt[:, None, :])), ("calc_sg_batched", lambda: calc_sg_batched(c.rmt.to(dt), ht[None], kt[:, None, :]))):
                    r = quiet(cx, f)
                    if r is None:
                        continue
                    if cx.expect(tuple(r.shape) == w.shape, f"{nm}/shape", f"{tuple(r.shape)}"):
                        tol = 1e-7 if dt == torch.float64 else 6e-3
                        d = np.abs(r.double().numpy() - w)
                        cx.expect_all((d <= tol * (1 + np.abs(w)))[good], f"{nm}/value-{str(dt)[6:]}", f"excitation errors, sg {sg}, lambda {lam}")
        cx.sample(sg=sg)


if __name__ == "__main__":
    ck.main()
