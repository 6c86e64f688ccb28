"""C02  Quaternion algebra: product, conjugate, action, interpolation, alignment."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import rot
import ebsdtorch.s2_and_so3.quaternions as Q
import ebsdtorch.s2_and_so3.orientations as O

ck = Check("C02", bounds="all ordered pairs (thorough: triples) of the 80 non-zero integer quaternions in {-1,0,1}^4 (exact arithmetic); "
           "all words over 2 generators of 4 finite rotation groups until closure; 98^2 pairs of directions; both precisions")
INT = np.array([q for q in itertools.product((-1, 0, 1), repeat=4) if any(q)], float)
UNIT = INT / np.linalg.norm(INT, axis=1, keepdims=True)
DT = [torch.float64, torch.float32]


def tol(dt):
    return 1e-9 if dt == torch.float64 else 2e-5


def call(cx, name, *a):
    a0 = [x.clone() if isinstance(x, torch.Tensor) else x for x in a]
    r = cx.call(getattr(Q, name), *a, _key=name)
    for x, y in zip(a, a0):
        if isinstance(x, torch.Tensor):
            cx.expect(torch.equal(x, y), f"{name}/mutates", f"{name} modified its argument")
    return r


@ck.group("products")
def products(cx):
    for dt in DT:
        I = torch.tensor(INT, dtype=dt)
        A, B = I[:, None, :].expand(80, 80, 4), I[None, :, :].expand(80, 80, 4)
        W = rot.qmul(INT[:, None], INT[None])
        rows = np.concatenate([np.broadcast_to(INT[:, None], W.shape), np.broadcast_to(INT[None], W.shape)], -1).reshape(-1, 8)
        cx.states("pair" + str(dt), rows)
        for lay, (a, b) in {"expanded": (A, B), "broadcast": (I[:, None, :], I[None]),
                            "flat": (A.reshape(-1, 4), B.reshape(-1, 4))}.items():
            raw = call(cx, "qu_prod_raw", a, b)
            if raw is not None:
                cx.close(raw.reshape(-1, 4), W.reshape(-1, 4), f"raw/{lay}/{dt}", "Hamilton product", tol=1e-12, rows=rows)
            p = call(cx, "qu_prod", a, b)
            if p is not None:
                p = p.reshape(-1, 4).double().numpy()
                w = W.reshape(-1, 4)
                same = (np.abs(p - w).max(1) < 1e-12) | (np.abs(p + w).max(1) < 1e-12)
                cx.expect_all(same & (p[:, 0] >= 0), f"prod/{lay}/{dt}", "standardised product", rows=rows, describe=lambda i: p[i])
            r = call(cx, "qu_prod_pos_real", a, b)
            if r is not None:
                cx.close(r.reshape(-1), np.abs(W[..., 0]).reshape(-1), f"posreal/{lay}/{dt}", "magnitude of the real part", tol=1e-12, rows=rows)
            x = call(cx, "qu_prod_axis", a, b)
            if x is not None:
                cx.close(x.reshape(-1, 3), W[..., 1:].reshape(-1, 3), f"axis/{lay}/{dt}", "vector part of the product", tol=1e-12, rows=rows)
        c = call(cx, "qu_conj", I)
        cx.close(c, rot.qconj(INT), f"conj/{dt}", "conjugate", tol=0, rows=INT)
        cx.close(call(cx, "qu_prod_raw", I, c), np.concatenate([(INT**2).sum(1, keepdims=True), np.zeros((80, 3))], 1), f"inverse/{dt}", "q q* = |q|^2", tol=1e-12, rows=INT)
        s = call(cx, "qu_std", I)
        w = np.where(INT[:, :1] < 0, -INT, INT)
        eq = (np.abs(s.double().numpy() - w).max(1) == 0) | ((INT[:, 0] == 0) & (np.abs(s.double().numpy() + w).max(1) == 0))
        cx.expect_all(eq, f"std/{dt}", "standardisation picks the antipode with non-negative real part", rows=INT)
        for f in ("qu_norm", "qu_norm_std"):
            n = call(cx, f, I * 3.7).double().numpy()
            u = UNIT if f == "qu_norm" else np.where(UNIT[:, :1] < 0, -UNIT, UNIT)
            eq = np.abs(n - u).max(1) < 1e-6
            if f == "qu_norm_std":
                eq |= (INT[:, 0] == 0) & (np.abs(n + u).max(1) < 1e-6)
            cx.expect_all(eq, f"{f}/{dt}", f"{f}", rows=INT)
    cx.sample(a=INT[3], b=INT[70], product=rot.qmul(INT[3], INT[70]))


@ck.group("triples")
def triples(cx):
    I = torch.tensor(INT)
    N = 80 if THOROUGH else 80
    ids = range(80) if THOROUGH else range(0, 80)
    W2 = rot.qmul(INT[:, None], INT[None])
    for i in ids:
        a = I[i].expand(80, 80, 4)
        b, c = I[:, None, :].expand(80, 80, 4), I[None].expand(80, 80, 4)
        w = rot.qmul(np.broadcast_to(INT[i], W2.shape), W2)
        t = cx.call(Q.qu_triple_prod_pos_real, a, b, c)
        if t is not None:
            cx.close(t.reshape(-1), np.abs(w[..., 0]).reshape(-1), f"triple{i}", "magnitude of the real part of a triple product", tol=1e-12, rows=w.reshape(-1, 4))
        l = Q.qu_prod_raw(Q.qu_prod_raw(a, b), c)
        r = Q.qu_prod_raw(a, Q.qu_prod_raw(b, c))
        cx.expect_all((l - r).abs().amax(-1) < 1e-12, f"assoc{i}", "associativity")
        cx.states("t%d" % i, w.reshape(-1, 4))


@ck.group("action")
def action(cx):
    D = rot.lattice_dirs(1) * 1.7
    for dt in DT:
        u, d = torch.tensor(UNIT, dtype=dt), torch.tensor(D, dtype=dt)
        R = rot.q2R(UNIT)
        W = np.einsum("nij,mj->nmi", R, D)
        got = call(cx, "qu_apply", u[:, None, :], d[None])
        rows = np.concatenate([np.broadcast_to(UNIT[:, None], W.shape[:2] + (4,)), np.broadcast_to(D[None], W.shape)], -1).reshape(-1, 7)
        cx.states("act" + str(dt), rows)
        if got is not None:
            cx.close(got.reshape(-1, 3), W.reshape(-1, 3), f"apply/{dt}", "rotation of a point", tol=tol(dt), rows=rows)
        # homomorphism: acting with a product is acting twice; every ordered pair
        ab = Q.qu_prod(u[:, None].expand(80, 80, 4), u[None].expand(80, 80, 4))
        l = Q.qu_apply(ab[:, :, None, :], d[None, None, :5])
        r = Q.qu_apply(u[:, None, None], Q.qu_apply(u[None, :, None], d[None, None, :5]))
        cx.expect_all((l - r).abs().amax(-1) < tol(dt), f"homomorphism/{dt}", "(ab) v = a (b v)")
        # agreement with the matrix of the same library
        m = O.qu2om(u)
        cx.close((m[:, None] @ d[None, :, :, None]).squeeze(-1).reshape(-1, 3), W.reshape(-1, 3), f"matrix/{dt}", "qu2om acts like qu_apply", tol=tol(dt), rows=rows)
    cx.sample(q=UNIT[5], v=D[3], image=W[5, 3])


@ck.group("closure")
def closure(cx):
    """breadth-first search over words in two generators with the real product: the
    reachable set is a known finite group."""
    h = math.sqrt(.5)
    g5 = (1 + math.sqrt(5)) / 4
    gens = {
        "tetrahedral": ([[.5, .5, .5, .5], [0, 0, 0, 1.]], 12),
        "octahedral": ([[.5, .5, .5, .5], [h, 0, 0, h]], 24),
        "dihedral6": ([[math.cos(math.pi / 6), 0, 0, .5], [0, 1., 0, 0]], 12),
        "icosahedral": ([[.5, .5, .5, .5], [g5, 0.5, (math.sqrt(5) - 1) / 4, 0]], 60),
    }
    for name, (g, order) in gens.items():
        for dt in DT:
            G = torch.tensor(g, dtype=dt)
            seen, frontier, depth = {}, [torch.tensor([1.0, 0, 0, 0], dtype=dt)], 0

            def key(q):
                v = np.round(q.double().numpy(), 3) + 0.0
                s = next((x for x in v if abs(x) > 1e-3), 1)
                return tuple((v if s > 0 else -v).tolist())
            seen[key(frontier[0])] = frontier[0]
            while frontier and len(seen) < 400:
                nxt = []
                for q in frontier:
                    for k in range(len(G)):
                        p = Q.qu_norm_std(Q.qu_prod(G[k], q))
                        cx.trans()
                        kk = key(p)
                        if kk not in seen:
                            seen[kk] = p
                            nxt.append(p)
                frontier, depth = nxt, depth + 1
            cx.expect(len(seen) == order, f"order/{name}/{dt}", f"words in the generators of the {name} group reach {len(seen)} rotations, not {order}")
            for k in seen:
                cx.state(name, str(dt), k)
            # inverses and products stay inside
            E = torch.stack(list(seen.values()))
            for q in E:
                cx.expect(key(Q.qu_std(Q.qu_conj(q))) in seen, f"inverse/{name}/{dt}", "conjugate leaves the group")
            P = Q.qu_prod(E[:, None], E[None]).reshape(-1, 4)
            cx.expect(all(key(p) in seen for p in P), f"products/{name}/{dt}", "product leaves the group")


@ck.group("slerp")
def slerp(cx):
    ts = [0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0]
    S = np.concatenate([UNIT, UNIT[:3] + 0])
    for dt in DT:
        u = torch.tensor(UNIT, dtype=dt)
        a, b = u[:, None].expand(80, 80, 4).reshape(-1, 4), u[None].expand(80, 80, 4).reshape(-1, 4)
        dot = (a * b).sum(-1).double().numpy()
        keep = dot > -1 + 1e-5  # antipodal quaternions have no unique geodesic
        a, b, dot = a[keep], b[keep], dot[keep]
        om = np.arccos(np.clip(dot, -1, 1))
        cx.states("slerp" + str(dt), torch.cat([a, b], 1))
        for t in ts:
            r = call(cx, "qu_slerp", a, b, t)
            if r is None:
                continue
            if not cx.expect(tuple(r.shape) == tuple(a.shape), f"shape/{dt}", f"qu_slerp returns shape {tuple(r.shape)}"):
                continue
            rr = r.double().numpy()
            e = 1e-6 if dt == torch.float64 else 2e-3
            cx.expect_all(np.abs(np.linalg.norm(rr, axis=1) - 1) < e, f"unit/{t}/{dt}", "interpolated quaternion is not a unit quaternion", rows=np.concatenate([a, b], 1))
            ang = np.arccos(np.clip((rr * a.double().numpy()).sum(1), -1, 1))
            cx.expect_all(np.abs(ang - t * om) < (2e-7 if dt == torch.float64 else 2e-3), f"speed/{t}/{dt}", "angle from the start is not t times the total", rows=np.concatenate([a, b], 1))
            if t in (0.0, 1.0):
                cx.close(rr, (a if t == 0 else b).double().numpy(), f"end/{t}/{dt}", "end points", tol=e)
        # nearly identical and nearly opposite quaternions
        tang = np.roll(UNIT, 1, axis=0) * [1, -1, 1, 1]
        tang = tang - (tang * UNIT).sum(1, keepdims=True) * UNIT
        ok = np.linalg.norm(tang, axis=1) > 0.1
        A0, T0 = UNIT[ok], tang[ok] / np.linalg.norm(tang[ok], axis=1, keepdims=True)
        for d in (0.5, 0.1, 3e-2, 9e-3, 2e-3, 3e-4, np.pi - 0.1, np.pi - 9e-3):
            a = torch.tensor(A0, dtype=dt)
            b = torch.tensor(np.cos(d) * A0 + np.sin(d) * T0, dtype=dt)
            cx.states(f"slerpnear{d:.5f}{dt}", torch.cat([a, b], 1))
            for t in (0.0, 0.25, 0.5, 0.9, 1.0):
                r = call(cx, "qu_slerp", a, b, t)
                if r is None:
                    continue
                want = np.cos(t * d) * A0 + np.sin(t * d) * T0
                err = np.abs(r.double().numpy() - want).max(1)
                # the angle between close float32 quaternions is only known to about eps / d
                tol = 1e-8 if dt == torch.float64 else 1e-6 + 1e-5 * min(1, 1e-1 / min(d, np.pi - d)) if d < 3 else 3e-2
                if dt == torch.float64 and d > 3:
                    tol = 1e-6
                cx.expect_all(err < tol, f"near/{d:.4f}/{t}/{dt}", "interpolation of nearly identical or nearly opposite quaternions is off the geodesic", rows=torch.cat([a, b], 1).numpy())
        for i, j in [(0, 1), (5, 5), (7, 60)]:
            r = call(cx, "qu_slerp", u[i], u[j], 0.5)
            f = call(cx, "qu_slerp", u[i:i + 1], u[j:j + 1], 0.5)
            if r is not None and f is not None:
                cx.expect(tuple(r.shape) == (4,) and tuple(f.shape) == (1, 4) and torch.allclose(r, f[0], atol=1e-6, equal_nan=True), f"single{i}/{dt}", "single quaternion vs batch of one")


@ck.group("alignment")
def alignment(cx):
    D = rot.lattice_dirs(2)
    n = len(D)
    near = []
    for v in rot.lattice_dirs(1):
        w = np.cross(v, [.3, -.5, .8])
        w /= np.linalg.norm(w)
        for e in (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-9):
            for s in (1, -1):
                q = s * v + e * w
                near.append((v, q / np.linalg.norm(q)))
    A = np.concatenate([np.repeat(D, n, 0), np.array([a for a, _ in near])])
    B = np.concatenate([np.tile(D, (n, 1)), np.array([b for _, b in near])])
    rows = np.concatenate([A, B], 1)
    for dt in DT:
        a, b = torch.tensor(A, dtype=dt), torch.tensor(B, dtype=dt)
        q = call(cx, "quaternion_rotate_sets_sphere", a, b)
        cx.states("al" + str(dt), rows)
        if q is None:
            continue
        e = 1e-6 if dt == torch.float64 else 2e-3
        cx.expect_all((q.norm(dim=-1) - 1).abs() < e, f"unit/{dt}", "not a unit quaternion", rows=rows)
        m = Q.qu_apply(q, a)
        cx.expect_all((m - b).abs().amax(-1) < e, f"maps/{dt}", "the rotation does not bring the start onto the finish", rows=rows, describe=lambda i: q[i])
        cosw = (a * b).sum(-1).double().numpy()
        ang = 2 * np.arctan2(np.linalg.norm(q.double().numpy()[:, 1:], axis=1), np.abs(q.double().numpy()[:, 0]))
        cx.expect_all(np.abs(np.cos(ang) - cosw) < e, f"shortest/{dt}", "the rotation is not the smallest one", rows=rows)
    cx.sample(start=A[5], finish=B[5])


@ck.group("angle")
def angle(cx):
    for dt in DT:
        u = torch.tensor(np.concatenate([UNIT, [[1, 0, 0, 0], [-1, 0, 0, 0], [0, 1, 0, 0]]]), dtype=dt)
        over = u * (1 + 4 * torch.finfo(dt).eps)
        for lab, x in (("unit", u), ("rounded_up", over)):
            r = call(cx, "qu_angle", x)
            if r is not None:
                v = u.double().numpy()
                want = 2 * np.arctan2(np.linalg.norm(v[:, 1:], axis=1), v[:, 0])
                cx.close(r, want, f"{lab}/{dt}", "rotation angle", tol=1e-6 if dt == torch.float64 else 3e-3, rows=v)
        cx.states("an" + str(dt), u)


@ck.group("digits")
def digits(cx):
    """results are as precise as the number format, for quaternions of no special form"""
    V = np.stack([np.cos(1.0 + 0.7 * k + np.sqrt(np.arange(1, 61) * (2 + k))) for k in range(4)], 1)
    U = V / np.linalg.norm(V, axis=1, keepdims=True)
    n = len(V)
    for dt, e in ((torch.float64, 1e-13), (torch.float32, 2e-6)):
        for nm, X in (("unit", U), ("any", V)):
            t = torch.tensor(X, dtype=dt)
            X = t.double().numpy()
            a, b = t[:, None].expand(n, n, 4), t[None].expand(n, n, 4)
            W = rot.qmul(X[:, None], X[None])
            rows = np.concatenate([np.broadcast_to(X[:, None], W.shape), np.broadcast_to(X[None], W.shape)], -1).reshape(-1, 8)
            cx.states(f"{nm}{dt}", rows)
            for f, want in (("qu_prod_raw", W), ("qu_prod_pos_real", np.abs(W[..., :1])), ("qu_prod_axis", W[..., 1:])):
                r = call(cx, f, a, b)
                if r is not None:
                    cx.close(r.double().reshape(-1, want.shape[-1]), want.reshape(-1, want.shape[-1]), f"{f}/{nm}/{dt}", f, tol=e, rows=rows)
            r = cx.call(Q.qu_triple_prod_pos_real, a, b, t.flip(0)[None].expand(n, n, 4))
            if r is not None:
                cx.close(r.double().reshape(-1), np.abs(rot.qmul(W, np.broadcast_to(X[::-1][None], W.shape))[..., 0]).reshape(-1), f"triple/{nm}/{dt}", "triple product", tol=2 * e, rows=rows)
            r = call(cx, "qu_conj", t)
            if r is not None:
                cx.close(r.double(), rot.qconj(X), f"conj/{nm}/{dt}", "conjugate", tol=0, rows=X)
            u = X / np.linalg.norm(X, axis=1, keepdims=True)
            sg = np.where(u[:, :1] < 0, -1, 1)
            for f, want in (("qu_norm", u), ("qu_norm_std", u * sg)):
                r = call(cx, f, t)
                if r is not None:
                    cx.close(r.double(), want, f"{f}/{nm}/{dt}", f, tol=e, rows=X)
            if nm == "unit":
                for f in ("qu_angle",):
                    r = call(cx, f, t)
                    if r is not None:
                        cx.close(r.double(), 2 * np.arctan2(np.linalg.norm(u[:, 1:], axis=1), u[:, 0]), f"angle/{dt}", "rotation angle", tol=100 * e, rows=X)
                v = t[:, 1:] / t[:, 1:].norm(dim=-1, keepdim=True)
                A, B = v[:, None].expand(n, n, 3).reshape(-1, 3), v[None].expand(n, n, 3).reshape(-1, 3)
                far = (torch.cross(A, B, dim=-1).norm(dim=-1) > 0.3).numpy()
                r = call(cx, "quaternion_rotate_sets_sphere", A, B)
                if r is not None:
                    r = r.double().numpy()
                    got = np.einsum("nij,nj->ni", rot.q2R(r), A.double().numpy())
                    cx.expect_all(((np.abs(got - B.double().numpy()).max(1) < 50 * e) & (np.abs(np.linalg.norm(r, axis=1) - 1) < 50 * e)) | ~far, f"sphere/{dt}", "the rotation brings the start onto the finish", rows=rows)
    cx.sample(a=X[0], b=X[1], product=W[0, 1])


if __name__ == "__main__":
    ck.main()
