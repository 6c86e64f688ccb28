"""C12  Streamed covariance and online PCA do not depend on how the data were cut up."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.utils.pca_covmat import OnlineCovMatrix
from ebsdtorch.utils.pca_online import KrasulinaPCA, OjaPCA

torch.set_num_threads(1)
F32, F64 = torch.float32, torch.float64
N = 11 if THOROUGH else 8
ck = Check("C12", bounds=f"all {2**(N-1)} ordered splits of {N} rows into batches for 5 data sets x 4 dtype pairs x correlation on/off with queries after every batch; all 120 orders x 16 splits of 5 rows; "
           "empty batches at every position; checkpoint/restore at every position; Oja, Oja++ and Krasulina updates over all splits of 5 rows for every component count and several start values")


def compositions(n):
    for cut in itertools.product((0, 1), repeat=n - 1):
        out, c = [], 1
        for b in cut:
            if b:
                out.append(c)
                c = 1
            else:
                c += 1
        out.append(c)
        yield tuple(out)


def noise(n, d, s=1):
    g = np.random.default_rng(s)
    return g.standard_normal((n, d)) @ (np.eye(d) + 0.5 * g.standard_normal((d, d)))


DATA = {
    "plain": noise(N, 3),
    "offset": noise(N, 3, 2) + np.array([100.0, -50.0, 3.0]),
    "scales": noise(N, 4, 3) * np.array([10.0, 1.0, 0.1, 3.0]),
    "dependent": np.concatenate([noise(N, 2, 4), noise(N, 2, 4)[:, :1] * -2 + 1], 1),
    "wide": noise(N, N + 4, 5),
    "far": noise(N, 3, 6) + np.array([4000.0, -2000.0, 1000.0]),
    "small": noise(N, 3, 9) * 1e-5,
    "large": noise(N, 3, 10) * 1e6 + 3e6,
}
TYPES = {"f64": (F64, F64, F64), "f32": (F32, F32, F32), "f32data": (F32, F64, F64), "f32d64": (F32, F32, F64)}
TOL = {"f64": 1e-9, "f32": 3e-4, "f32data": 3e-4, "f32d64": 3e-4}


def judge(cx, m, x, corr, t, case, eig=False):
    n = len(x)
    cx.expect(int(m.obs) == n, "obs", f"{int(m.obs)} observations counted, {n} were given", **case)
    s = np.abs(x).max()
    cx.close(m.mean.double().reshape(-1), x.mean(0), "mean", "running mean", tol=TOL[t] / (1 if t == "f64" else 100) * s, **case)
    if n < 2:
        return
    want = np.corrcoef(x, rowvar=False) if corr else np.cov(x, rowvar=False)
    got = m.get_covmat()
    if corr and n < 4:
        return
    # what rounding allows: the digits of the deviations, not those of the squares of the data
    sd = np.abs(x - x.mean(0)).max()
    eps = 1e-15 if t == "f64" else 1e-7
    tol = TOL[t] * sd**2 + 60 * eps * s * sd
    if corr:
        tol = TOL[t] * 30 + 300 * eps * s / x.std(0).min()
    cx.close(got.double(), want, "cov", "correlation" if corr else "covariance", tol=tol, **case)
    if eig:
        v = m.get_eigenvectors().double()
        lam = np.linalg.eigvalsh(want)
        e = max(TOL[t] * 30, 1e-8) * lam.max() + 30 * tol
        cx.close(v.T @ v, np.eye(len(lam)), "orthonormal", "eigenvectors are not orthonormal", tol=1e-9 if t == "f64" else 1e-4, **case)
        cx.close(v.T @ torch.as_tensor(want) @ v, np.diag(lam), "eigen", "eigenvectors do not diagonalise the matrix in ascending order", tol=e, **case)


def splits(name):
    @ck.group("split-" + name, timeout=400)
    def g(cx):
        x = DATA[name]
        for t, (dx, dc, dd) in TYPES.items():
            xt = torch.as_tensor(x).to(dx)
            xr = xt.double().numpy()
            keep = xt.clone()
            for corr in (False, True):
                for comp in compositions(N):
                    if name == "wide" and len(comp) > 4:
                        continue
                    cx.state(name, t, corr, comp)
                    m = OnlineCovMatrix(x.shape[1], covmat_dtype=dc, delta_dtype=dd, correlation=corr)
                    a = 0
                    for i, b in enumerate(comp):
                        cx.call(m, xt[a : a + b], _key="update", _case=dict(data=name, types=t, split=comp))
                        a += b
                        # queries in between (on every second history) must not disturb it
                        if a == N or comp[0] % 2:
                            judge(cx, m, xr[:a], corr, t, dict(data=name, types=t, split=comp, given=a), eig=a == N)
            cx.expect(torch.equal(keep, xt), "aliasing", "the data of the caller were changed", types=t)
        cx.sample(data=name, split=comp, covariance=m.get_covmat())


for n_ in DATA:
    splits(n_)


@ck.group("orders", timeout=300)
def orders(cx):
    """all orders of the rows and all splits of every order"""
    x = noise(5, 2, 7) + 3
    for p in itertools.permutations(range(5)):
        for comp in compositions(5):
            cx.state(p, comp)
            m = OnlineCovMatrix(2, covmat_dtype=F64, delta_dtype=F64)
            for b in torch.as_tensor(x[list(p)]).split(list(comp)):
                m(b)
            judge(cx, m, x, False, "f64", dict(order=p, split=comp))
    cx.sample(order=p, covariance=m.get_covmat())


@ck.group("layouts", timeout=300)
def layouts(cx):
    """strided, transposed and expanded batches, empty batches, restored checkpoints"""
    x = noise(6, 3, 8) + 1
    xt = torch.as_tensor(x)
    views = {"transposed": xt.T.contiguous().T, "strided": torch.stack([xt, -xt], -1)[..., 0], "flipped": xt.flip(0).flip(0)}
    for n, v in views.items():
        for comp in compositions(6):
            cx.state(n, comp)
            m = OnlineCovMatrix(3, covmat_dtype=F64, delta_dtype=F64)
            for b in v.split(list(comp)):
                m(b)
            judge(cx, m, x, False, "f64", dict(view=n, split=comp))
    for comp in compositions(6):
        for k in range(len(comp) + 1):
            cx.state("empty", comp, k)
            m = OnlineCovMatrix(3, covmat_dtype=F64, delta_dtype=F64)
            for i, b in enumerate(xt.split(list(comp))):
                if i == k:
                    m(xt[:0])
                m(b)
            if k == len(comp):
                m(xt[:0])
            judge(cx, m, x, False, "f64", dict(empty_before=k, split=comp))
            # stop after k batches, carry the state over to a new object and continue there
            a, b = (OnlineCovMatrix(3, covmat_dtype=F64, delta_dtype=F64) for _ in range(2))
            parts = xt.split(list(comp))
            for q in parts[:k]:
                a(q)
            b.load_state_dict(a.state_dict())
            for q in parts[k:]:
                b(q)
            judge(cx, b, x, False, "f64", dict(restored_after=k, split=comp))
            judge(cx, a, x[: sum(comp[:k])], False, "f64", dict(original_after=k, split=comp)) if k else None
    cx.sample(views=list(views))


def ortho(cx, q, key, case, tol=1e-9):
    cx.close(q.T @ q, np.eye(q.shape[1]), key, "components are not orthonormal", tol=tol, **case)


@ck.group("oja", timeout=300)
def oja(cx):
    D = 4
    x = torch.as_tensor(noise(5, D, 9))
    for k in range(1, D + 1):
        for eta in (0.5, 0.05):
            for s in range(3):
                for comp in compositions(5):
                    cx.state(k, eta, s, comp)
                    torch.manual_seed(s)
                    p = OjaPCA(D, k, eta=eta, dtype=F64)
                    for b in x.split(list(comp)):
                        q0 = p.get_components().clone()
                        case = dict(k=k, eta=eta, start=s, split=comp)
                        cx.call(p, b, _key="oja", _case=case)
                        q1 = p.get_components()
                        ref = torch.linalg.qr(q0 + eta * b.T @ (b @ q0))[0]
                        ortho(cx, q1, "oja-orthonormal", case)
                        # columns of a QR factor are unique up to sign
                        cx.close((ref.T @ q1).abs(), np.eye(k), "oja-step", "not the orthonormalised Oja update", tol=1e-8, **case)
                    z = p.transform(x)
                    cx.close(z, x @ q1, "oja-transform", "projection", **case)
                    cx.close(p.inverse_transform(z), x @ q1 @ q1.T, "oja-inverse", "reconstruction", **case)
    cx.sample(k=k, components=q1)


@ck.group("oja++", timeout=300)
def ojapp(cx):
    """columns are redrawn one at a time; a redrawn column is orthonormal again after the next update"""
    for D in (3, 5):
        x = torch.as_tensor(noise(40, D, 11))
        for k in range(1, D + 1):
            for s in range(3):
                torch.manual_seed(s)
                p = cx.call(OjaPCA, D, k, eta=0.3, dtype=F64, use_oja_plus=True)
                case = dict(D=D, k=k, start=s)
                changed = 0
                for i, b in enumerate(x.split(1)):
                    cx.state(D, k, s, i)
                    q0 = p.get_components().clone()
                    cx.call(p, b, _key="oja++", _case=case)
                    ref = torch.linalg.qr(q0 + 0.3 * b.T @ (b @ q0))[0]
                    ok = ((ref * p.get_components()).sum(0).abs() - 1).abs() < 1e-8
                    ok &= (p.get_components().norm(dim=0) - 1).abs() < 1e-8
                    cx.expect(int((~ok).sum()) <= 1, "columns", "more than one column replaced in a step", **case, step=i)
                    changed += int((~ok).sum())
                cx.expect(changed == k, "all", f"{changed} columns were drawn instead of {k}", **case)
                ortho(cx, p.get_components(), "oja++-orthonormal", case)
    cx.sample(**case)


@ck.group("krasulina", timeout=300)
def krasulina(cx):
    D = 4
    x = torch.as_tensor(noise(5, D, 10))
    I = torch.eye(D, dtype=F64)
    for k in range(1, D + 1):
        for eta in (0.5, 0.05):
            for s in range(3):
                for comp in compositions(5):
                    cx.state(k, eta, s, comp)
                    torch.manual_seed(s)
                    p = KrasulinaPCA(D, k, eta=eta, dtype=F64)
                    case = dict(k=k, eta=eta, start=s, split=comp)
                    for b in x.split(list(comp)):
                        c0 = p.inverse_transform(torch.eye(k, dtype=F64)).clone()
                        before = {n: t.clone() for n, t in p.state_dict().items()}
                        cx.call(p, b, _key="krasulina", _case=case)
                        c1 = p.inverse_transform(torch.eye(k, dtype=F64))
                        pinv = torch.linalg.pinv(c1)
                        cx.close(p.transform(I), pinv, "pinv", "transform is not the least squares projection on the components", tol=1e-8, rtol=1e-7, **case)
                        h = torch.linalg.pinv(c0) @ b.T
                        r = b.T - c0 @ h
                        d = c1 - c0
                        # the update lives in the span of the residuals (rows of the latent variables)
                        left = d - r @ torch.linalg.pinv(r, rtol=1e-8) @ d
                        cx.close(left, 0 * left, "span", "update leaves the span of the residuals", tol=1e-7 if k < D else 1e-6, **case)
                        if b.shape[0] > 1:
                            # the update of a batch is the sum of the updates its rows would give by themselves
                            tot = torch.zeros_like(d)
                            for row in b:
                                one = KrasulinaPCA(D, k, eta=eta, dtype=F64)
                                one.load_state_dict(before)
                                one(row[None])
                                tot += one.inverse_transform(torch.eye(k, dtype=F64)) - c0
                            cx.close(d, tot, "rows", "update of a batch is not the sum over its rows", tol=1e-8, rtol=1e-7, **case)
                        if b.shape[0] == 1 and k < D:
                            a = float((d * (r @ h.T)).sum() / (r @ h.T).square().sum())
                            cx.close(d, a * (r @ h.T), "rank1", "update is not along residual x latent", tol=1e-8, **case)
                            cx.expect(0 < a <= eta + 1e-9, "step", f"step size {a} outside (0, eta]", **case)
                    u = p.get_components()
                    ortho(cx, u, "krasulina-orthonormal", case, 1e-8)
                    cx.close(u @ u.T @ c1, c1, "krasulina-span", "components do not span the subspace", tol=1e-7, **case)
                    z = p.transform(x)
                    cx.close(p.inverse_transform(z).T, x @ u @ u.T, "krasulina-inverse", "reconstruction is not the orthogonal projection", tol=1e-7, **case)
                    # the order of the rows inside a batch does not matter
                    if len(comp) == 1:
                        torch.manual_seed(s)
                        p2 = KrasulinaPCA(D, k, eta=eta, dtype=F64)
                        p2(x.flip(0))
                        cx.close(p2.inverse_transform(torch.eye(k, dtype=F64)), c1, "row-order", "update depends on the order inside a batch", tol=1e-8, **case)
    cx.sample(k=k, components=u)


@ck.group("converge", timeout=300)
def converge(cx):
    """the leading subspace is found from every start, however the stream is cut into batches"""
    D = 5
    g = np.random.default_rng(3)
    rot = np.linalg.qr(g.standard_normal((D, D)))[0]
    x = g.standard_normal((240, D)) * np.array([4, 2.5, 0.3, 0.2, 0.1]) @ rot.T
    lam, v = np.linalg.eigh(x.T @ x)
    xt = torch.as_tensor(x)
    for dt in (F64, F32):
        for k in (1, 2):
            for s in range(4 if THOROUGH else 2):
                for bs in (1, 7, 60):
                    for name, mk in (("oja", lambda: OjaPCA(D, k, eta=0.02, dtype=dt)), ("krasulina", lambda: KrasulinaPCA(D, k, eta=0.1, dtype=dt))):
                        cx.state(dt, k, s, bs, name)
                        torch.manual_seed(s)
                        p = mk()
                        for _ in range(8):
                            for b in xt.to(dt).split(bs):
                                p(b)
                        u = p.get_components().double()
                        cx.expect(u.shape == (D, k) and p.get_components().dtype == dt, "shape", "shape or type of the components", algorithm=name)
                        c = float(torch.linalg.svdvals(torch.as_tensor(v[:, -k:]).T @ u).min())
                        cx.expect(c > 0.97, "subspace", f"{name}: cosine to the leading subspace {c}", k=k, start=s, batch=bs, dtype=str(dt))
                        if name == "oja" and k == 2:
                            cx.expect(abs(float(u[:, 0] @ torch.as_tensor(v[:, -1]))) > 0.9, "sorted", "components are not sorted by variance", start=s, batch=bs)
    cx.sample(k=k, cosine=c)


if __name__ == "__main__":
    ck.main()
