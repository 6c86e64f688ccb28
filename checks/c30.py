"""C30  Dynamical master patterns."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contextlib, functools, io, itertools, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import sgref as R
from ebsdtorch.crystallography.unit_cell import Cell
from ebsdtorch.crystallography import diffraction as D
from ebsdtorch.crystallography.kvectors import kvectors_grid
from ebsdtorch.crystallography.ebsd_master import ebsd_master_pattern
import ebsdtorch.crystallography.groups as G

ck = Check("C30", bounds="230 space groups with two sites (all sampled directions of a small grid); nine structures x all flag, weight, chunk and voltage histories; P1 expansions followed to every direction of the full grid")
LAT = {1: (0.4, 0.5, 0.6, 91, 95, 99), 2: (0.4, 0.5, 0.6, 90, 97, 90), 3: (0.4, 0.5, 0.6, 90, 90, 90), 4: (0.4, 0.4, 0.6, 90, 90, 90), 5: (0.4, 0.4, 0.6, 90, 90, 120),
       6: (0.45, 0.45, 0.6, 90, 90, 120), 7: (0.5, 0.5, 0.5, 90, 90, 90)}
STRUCT = [(1, [(26, 0.505, 0.2555, 0.708, 1.0, 0.005), (15, 0.9386, 0.1433, 0.2096, 0.8, 0.003)]), (4, [(8, 0.1, 0.2, 0.3, 1.0, 0.006), (14, 0.37, 0.41, 0.05, 0.5, 0.004)]),
          (33, [(22, 0.1, 0.25, 0.3, 1.0, 0.004), (8, 0.2, 0.03, 0.33, 1.0, 0.009)]), (62, [(22, 0.1, 0.25, 0.3, 1.0, 0.004), (8, 0.2, 0.03, 0.33, 1.0, 0.009)]),
          (82, [(31, 0.0, 0.0, 0.0, 1.0, 0.005), (34, 0.2, 0.13, 0.07, 1.0, 0.005)]), (141, [(22, 0.0, 0.75, 0.125, 1.0, 0.005), (8, 0.0, 0.25, 0.208, 1.0, 0.007)]),
          (205, [(26, 0.0, 0.0, 0.0, 1.0, 0.004), (16, 0.385, 0.385, 0.385, 1.0, 0.005)]), (216, [(31, 0.0, 0.0, 0.0, 1.0, 0.005), (33, 0.25, 0.25, 0.25, 1.0, 0.005)]),
          (225, [(11, 0.0, 0.0, 0.0, 1.0, 0.005), (17, 0.5, 0.5, 0.5, 1.0, 0.005)]), (152, [(14, 0.47, 0.0, 1 / 3, 1.0, 0.005), (8, 0.41, 0.27, 0.214, 1.0, 0.008)]),
          (186, [(30, 1 / 3, 2 / 3, 0.0, 1.0, 0.006), (16, 1 / 3, 2 / 3, 0.3748, 1.0, 0.006)]), (167, [(13, 0.0, 0.0, 0.352, 1.0, 0.004), (8, 0.306, 0.0, 0.25, 1.0, 0.006)])]


def quiet(cx, f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return cx.call(f, *a, **k)


def cell(cx, sg, atoms, lat=None, s=1):
    lat = lat or LAT[R.system(sg)]
    with contextlib.redirect_stdout(io.StringIO()):
        c = cx.call(Cell, sg, atoms, lat[:3], "nm", lat[3:], "deg", s, _key="Cell", _case=(sg, s))
        return None if c is None else c.set_fp_dtype(torch.float32)


def dmin_for(sg, lat, nb):
    a, b, c = lat[:3]
    al, be, ga = np.deg2rad(lat[3:])
    M = np.array([[a * a, a * b * np.cos(ga), a * c * np.cos(be)], [a * b * np.cos(ga), b * b, b * c * np.cos(al)], [a * c * np.cos(be), b * c * np.cos(al), c * c]])
    return (4.19 * math.sqrt(np.linalg.det(M)) / len(R.centering(sg)) / nb) ** (1 / 3)


def weights(nv, nd, kind=0):
    """deterministic depth distributions whose 95 % depth is not close to a bin edge"""
    x = np.arange(nd)
    while True:
        w = np.stack([np.exp(-x / (3.0 + v + 0.1 * kind)) * (1 + 0.3 * np.sin(1.7 * x + v + kind)) * (1.0 + 0.5 * v) for v in range(nv)])
        c = np.cumsum(w, 1)
        if np.abs(c / c[:, -1:] - 0.95).min() > 1e-3:
            return torch.tensor(w, dtype=torch.float32)
        kind = (kind + 0.37) % 7


def cutoff(w):
    c = np.cumsum(w.double().numpy(), 1)
    c = c / c[:, -1:]
    assert np.abs(c - 0.95).min() > 1e-4
    return (c >= 0.95).argmax(1)


def reference(cx, c, V, step, w, dmin, n, **kw):
    """Darwin-Howie-Whelan solution in double precision, column by column"""
    S = quiet(cx, D.calc_sgh, c, dmin)
    b = quiet(cx, D.calc_helper_bloch_formalism, c, dmin, V, **kw)
    k = quiet(cx, kvectors_grid, c, n)
    if S is None or b is None or k is None:
        return None
    H, U, up, lam = b[0].double().numpy(), b[1].numpy().astype(complex), b[2].numpy().real.astype(float), b[3].double().numpy()
    S = S.numpy().astype(complex)
    kd = k[0].double().numpy()
    kd /= np.linalg.norm(kd, axis=1, keepdims=True)
    A = c.dsm.double().numpy()
    gc = H @ np.linalg.inv(A)  # Cartesian reciprocal vectors
    W = (w.double() / w.double().sum()).numpy()
    cut = cutoff(w)
    out = np.zeros((len(V), len(S), len(kd)))
    for v in range(len(V)):
        kc = kd / lam[v]
        p = kc[:, None] + gc[None]
        sg = -np.einsum("gj,kgj->kg", gc, 2 * kc[:, None] + gc[None]) / (2 * np.einsum("kgj,kj->kg", p, kc) * lam[v])
        M = np.repeat(U[v][None], len(kd), 0)
        i = np.arange(len(H))
        M[:, i, i] = 2 * sg / lam[v] + 1j * up[v]
        E = torch.linalg.matrix_exp(torch.tensor(1j * math.pi * lam[v] * step * M)).numpy()
        psi = np.zeros((len(kd), len(H)), complex)
        psi[:, 0] = 1
        for d in range(min(cut[v], 100)):
            psi = np.einsum("kij,kj->ki", E, psi)
            out[v] += W[v, d] * np.einsum("sij,ki,kj->sk", S, psi, psi.conj()).real
    return out


def mp(cx, c, V, step, w, dmin, n, **kw):
    return quiet(cx, ebsd_master_pattern, c, V, step, w, dmin, grid_half_width=n, _key="call", **kw)


def close(cx, a, b, key, what, tol=2e-3):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if not cx.expect(a.shape == b.shape, key + "-shape", f"{what}: {a.shape} {b.shape}"):
        return
    cx.trans(a.size)
    e = np.abs(a - b).max() / (np.abs(b).max() + 1e-30)
    cx.expect(np.isfinite(a).all() and e < tol, key, f"{what}: off by {e:.3g} of the largest intensity")


ZS = [28, 8, 6, 14, 26, 79, 13, 11, 17, 38, 22, 92, 50, 3, 74, 9]


def mk(lo, hi):
    @ck.group(f"groups{lo}", timeout=800)
    def g(cx):
        for sg in range(lo, hi):
            s = 2 if sg in R.TWO and sg % 2 else 1
            c = cell(cx, sg, [(ZS[sg % 16], 0.0, 0.0, 0.0, 1.0, 0.004), (ZS[(sg * 7 + 3) % 16], 0.137, 0.244, 0.41, 0.7, 0.008)], s=s)
            if c is None:
                continue
            dm = dmin_for(sg, LAT[R.system(sg)], 40 if THOROUGH else 18)
            V, w, n = torch.tensor([20.0, 14.0]), weights(2, 8, sg % 7), (6 if THOROUGH else 2)
            r = mp(cx, c, V, 1.0, w, dm, n)
            cx.state(sg, s)
            if r is None:
                continue
            cx.expect(r.dtype == torch.float32 and (r[:, :].sum(1) > 0).all(), "positive", f"space group {sg}: intensities are positive")
            f = reference(cx, c, V, 1.0, w, dm, n)
            if f is not None:
                close(cx, r.numpy(), f, f"{sg}/value", f"space group {sg} {R.HM[sg-1]}: dynamical intensities")
        cx.sample(sg=lo)


for lo in range(1, 231, 23):
    mk(lo, min(lo + 23, 231))


@ck.group("flags", timeout=800)
def flags(cx):
    V, n = torch.tensor([25.0, 12.0]), 2
    for sg, at in STRUCT:
        c = cell(cx, sg, at)
        if c is None:
            continue
        dm = dmin_for(sg, LAT[R.system(sg)], 18)
        for sf, ab, co, ph, (step, nd) in itertools.product(("WK", "Hybrid"), (True, False), (True, False), (True, False), ((1.0, 9), (0.4, 14), (2.5, 5)) if THOROUGH else ((0.7, 9),)):
            kw = dict(scatter_factor=sf, absorption=ab, include_core=co, include_phonon=ph)
            w = weights(2, nd)
            r, f = mp(cx, c, V, step, w, dm, n, **kw), reference(cx, c, V, step, w, dm, n, **kw)
            cx.state(sg, sf, ab, co, ph, step)
            if r is not None and f is not None:
                close(cx, r.numpy(), f, f"{sf}-abs{int(ab)}-core{int(co)}-tds{int(ph)}", f"space group {sg}, {kw}, depth step {step}")
    for bad in ("wk", "none"):
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                ebsd_master_pattern(c, V, 1.0, weights(2, 6), dm, grid_half_width=2, scatter_factor=bad)
            cx.fail("unknown", f"scattering factor model {bad} accepted")
        except ValueError:
            cx.trans()


@ck.group("histories", timeout=800)
def histories(cx):
    """chunk sizes, voltages together or alone, scaling and integer weights, repeated calls; nothing handed in is changed"""
    V = torch.tensor([25.0, 18.0, 11.0])
    for sg, at in STRUCT:
        c = cell(cx, sg, at)
        if c is None:
            continue
        dm, n = dmin_for(sg, LAT[R.system(sg)], 16), 2
        w = weights(3, 8)
        w0, V0 = w.clone(), V.clone()
        base = mp(cx, c, V, 1.0, w, dm, n)
        if base is None:
            continue
        nk = base.shape[-1]
        b = base.numpy()
        cx.expect(torch.equal(w, w0) and torch.equal(V, V0), "inputs", "the weights and voltages of the caller are unchanged")
        for ch in sorted({1, 2, 3, 5, 7, nk - 1, nk, nk + 1, 1000} if THOROUGH else {1, 3, 7, nk - 1, nk, nk + 1} - {0}):
            cx.state(sg, "chunk", ch)
            r = mp(cx, c, V, 1.0, w, dm, n, k_chunk_size=ch)
            if r is not None:
                close(cx, r.numpy(), b, "chunk", f"sg {sg}: directions computed {ch} at a time", tol=2e-4)
        r = mp(cx, c, V, 1.0, w, dm, n)
        if r is not None:
            close(cx, r.numpy(), b, "again", f"sg {sg}: the second call on the same objects", tol=1e-6)
        for k in range(1, 4):
            for p in itertools.permutations(range(3), k):
                p = list(p)
                cx.state(sg, "voltages", p)
                r = mp(cx, c, V[p], 1.0, w[p], dm, n)
                if r is not None:
                    f = float(w.double().sum() / w[p].double().sum())
                    close(cx, r.numpy(), b[p] * f, "voltages", f"sg {sg}: voltages {V[p].tolist()} computed without the others", tol=5e-4)
        for sc in (3.0, 1e5, 1e-4):
            r = mp(cx, c, V, 1.0, w * sc, dm, n)
            if r is not None:
                close(cx, r.numpy(), b, "scale", f"sg {sg}: weights times {sc}", tol=5e-4)
        wi = (w * 5000).round()
        x, y = mp(cx, c, V, 1.0, wi, dm, n), mp(cx, c, V, 1.0, wi.long(), dm, n)
        if x is not None and y is not None:
            close(cx, y.numpy(), x.numpy(), "counts", f"sg {sg}: integer counts as weights", tol=1e-4)
        # half the step with the weights on every second slice is the same integral
        w2 = torch.zeros(3, 16)
        w2[:, 1::2] = w
        r = mp(cx, c, V, 0.5, w2, dm, n)
        cx.state(sg, "half step")
        if r is not None:
            close(cx, r.numpy(), b, "halfstep", f"sg {sg}: slices cut in two", tol=1e-3)
        # weights behind the 95 % depth do not matter
        if THOROUGH:
            for nd in (3, 5, 12, 30, 110):
                w3 = weights(3, nd, 1)
                r, f = mp(cx, c, V, 0.3, w3, dm, n), reference(cx, c, V, 0.3, w3, dm, n)
                cx.state(sg, "depth", nd)
                if r is not None and f is not None:
                    close(cx, r.numpy(), f, "depth", f"sg {sg}: {nd} depth bins")


def orbit(sg, x):
    with contextlib.redirect_stdout(io.StringIO()):
        ops = G.sg_operators(sg, 1).double().numpy()
    p = ((ops[:, :3, :3] @ np.asarray(x, float) + ops[:, :3, 3]) + 1e-7) % 1.0 - 1e-7
    out = []
    for q in p:
        if all(np.abs((q - o + 0.5) % 1 - 0.5).max() > 1e-3 for o in out):
            out.append(q)
    return np.array(out)


@ck.group("descriptions", timeout=800)
def descriptions(cx):
    """one crystal, many descriptions: split sites, shifted origin, P1 with all atoms.  The P1 pattern has a value for every
    direction of both hemispheres; the direction is carried to its sampled equivalent by the point group."""
    V, w = torch.tensor([20.0]), weights(1, 8)
    for sg, at in STRUCT:
        lat = LAT[R.system(sg)]
        dm, n = dmin_for(sg, lat, 14), 3
        c = cell(cx, sg, at)
        if c is None:
            continue
        base = mp(cx, c, V, 1.0, w, dm, n)
        if base is None:
            continue
        tot = base.sum(1).numpy()
        for k in range(len(at)):
            a = at[k]
            x = at[:k] + [a[:4] + (a[4] * 0.4, a[5]), a[:4] + (a[4] * 0.6, a[5])] + at[k + 1:]
            r = mp(cx, cell(cx, sg, x), V, 1.0, w, dm, n)
            cx.state(sg, "split", k)
            if r is not None:
                close(cx, r.sum(1).numpy(), tot, "split", f"sg {sg}: site {k} split into two partial occupancies")
        r = mp(cx, cell(cx, sg, at[::-1]), V, 1.0, w, dm, n)
        if r is not None:
            close(cx, r.numpy(), base.numpy()[:, ::-1], "order", f"sg {sg}: order of the sites")
        full = [(a[0], *map(float, r)) + a[4:] for a in at for r in orbit(sg, a[1:4])]
        if len(full) > 48:
            continue
        for sh in ((0.0, 0.0, 0.0), (0.13, 0.27, 0.41)):
            f = [(a[0], a[1] + sh[0], a[2] + sh[1], a[3] + sh[2]) + a[4:] for a in full]
            c1 = cell(cx, 1, f, lat=lat)
            r1 = mp(cx, c1, V, 1.0, w, dm, n)
            ks, k1 = quiet(cx, kvectors_grid, c, n), quiet(cx, kvectors_grid, c1, n)
            cx.state(sg, "P1", sh)
            if r1 is None or ks is None or k1 is None:
                continue
            ks, k1 = ks[0].double().numpy(), k1[0].double().numpy()
            with contextlib.redirect_stdout(io.StringIO()):
                ops = G.sg_operators(sg, 1).double().numpy()
            W = np.unique(np.round(ops[:, :3, :3]).astype(int).reshape(-1, 9), axis=0).reshape(-1, 3, 3)
            A = c.dsm.double().numpy()
            Q = np.einsum("ij,ajk,kl->ail", A, W, np.linalg.inv(A))
            t1 = r1.sum(1).numpy()[0]
            hexa = R.system(sg) in (5, 6)
            hit = np.zeros(len(k1), bool)
            bad = []
            for q in Q:
                d = (k1 @ q.T) @ ks.T
                j = d.argmax(1)
                ok = d[np.arange(len(k1)), j] > 1 - 1e-9 * 500
                hit |= ok
                e = np.abs(t1[ok] - tot[0][j[ok]]) / tot.max()
                cx.trans(int(ok.sum()))
                if ok.any() and e.max() > 3e-3:
                    i = np.nonzero(ok)[0][e.argmax()]
                    bad.append((float(e.max()), k1[i].tolist()))
            cx.expect(not bad, "p1", f"sg {sg}: intensity of an equivalent direction differs in the P1 description of the crystal (origin {sh})", bad=bad[:3])
            cx.expect(hit.all() or hexa, "reached", f"sg {sg}: directions of the full grid without a sampled equivalent")


if __name__ == "__main__":
    ck.main()
