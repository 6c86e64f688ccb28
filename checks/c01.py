"""C01  Conversions between rotation representations never change the rotation.

Explicit-state search: a state is (rotation, representation, precision); the
transitions are all x2y conversion functions of the library.  From every start
state every path of conversions up to the depth bound is executed and the result
decoded by the reference model (mc/rot.py) must be the rotation started from.
"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import math, re
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import rot
import ebsdtorch.s2_and_so3.orientations as O

ck = Check("C01", bounds="start rotations: all primitive integer quaternions with |entries|<=2 (thorough 3), both signs, "
           "plus 26 axes x 16 near-identity/near-180 angles; conversion paths up to length 2 (thorough 3); fp64 and fp32; 6 batch shapes")
REPS = ["qu", "om", "ax", "bu", "ho", "cu", "ro", "zh"]
EDGES = {}
for n in sorted(dir(O)):
    m = re.fullmatch(r"([a-z]{2})2([a-z]{2})(_newton|_reference)?", n)
    if m and m.group(1) in REPS and m.group(2) in REPS and callable(getattr(O, n)):
        EDGES[n] = (m.group(1), m.group(2), getattr(O, n))
TAIL = {"qu": (4,), "om": (3, 3), "ax": (4,), "bu": (3,), "ho": (3,), "cu": (3,), "ro": (4,), "zh": (6,)}


def tol_for(theta, dt, path=""):
    # homochoric inverses treat rotations below ~2e-3 rad as the identity (documented cut-off)
    # (the inverse cosine of the cubochoric map loses half of the digits on its diagonals)
    t = (3e-7 if "cu" in path or "ho" in path else 6e-8) if dt == torch.float64 else 6e-3
    return t + np.where(theta < 2.5e-3, theta, 0.0)


SPECIAL = [1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 3e-3, 1e-2, .0499, .0501, .1, math.pi / 2 - 1e-6, math.pi / 2,
           math.pi - 1e-2, math.pi - 1e-4, math.pi - 1e-6, math.pi - 1e-9]


def start_quats():
    Q = [rot.lattice_quats(3 if THOROUGH else 2)]
    ax = rot.lattice_dirs(2 if THOROUGH else 1)
    for t in SPECIAL:
        Q.append(np.concatenate([np.full((len(ax), 1), math.cos(t / 2)), ax * math.sin(t / 2)], 1))
    return np.concatenate(Q)


def encode(rep, q):
    return q if rep == "qu" else getattr(O, "qu2" + rep)(q)


def valid(rep, Y, dt):
    """range predicate of each representation"""
    Y = Y.double().numpy()
    e = 1e-6 if dt == torch.float64 else 1e-3
    if rep == "qu":
        return (np.abs(np.linalg.norm(Y, axis=-1) - 1) < e) & (Y[:, 0] >= -e)
    if rep == "om":
        d = np.abs(Y @ np.swapaxes(Y, -1, -2) - np.eye(3)).max((1, 2))
        return (d < e) & (np.abs(np.linalg.det(Y) - 1) < e)
    if rep == "ax":
        return (np.abs(np.linalg.norm(Y[:, :3], axis=-1) - 1) < e) & (Y[:, 3] >= -e) & (Y[:, 3] <= math.pi + e)
    if rep == "ro":
        return (np.abs(np.linalg.norm(Y[:, :3], axis=-1) - 1) < e) & ~np.isnan(Y[:, 3])
    if rep == "ho":
        return np.linalg.norm(Y, axis=-1) <= (0.75 * math.pi) ** (1 / 3) + e
    if rep == "cu":
        return np.abs(Y).max(-1) <= math.pi ** (2 / 3) / 2 + e
    if rep == "bu":
        return (Y > -e).all(-1) & (Y[:, 0] < 2 * math.pi + e) & (Y[:, 1] < math.pi + e) & (Y[:, 2] < 2 * math.pi + e)
    return np.isfinite(Y).all(-1)


def decode(rep, Y):
    return rot.DECODE[rep](Y.double().numpy())


def edges_for(src):
    return [(n, d, f) for n, (s, d, f) in EDGES.items() if s == src]


def check_state(cx, path, rep, Y, R0, theta, dt, q):
    if tuple(Y.shape) != (len(R0),) + TAIL[rep]:
        cx.fail(f"shape/{path}", f"conversion {path} returned shape {tuple(Y.shape)}")
        return False
    if Y.dtype != dt:
        cx.fail(f"dtype/{path}", f"conversion {path} changed the precision to {Y.dtype}")
    with np.errstate(all="ignore"):
        err = rot.rot_angle_between(R0, decode(rep, Y))
    ok = (err <= tol_for(theta, dt, path)) & np.isfinite(err)
    ok1 = cx.expect_all(ok, f"rotation/{path}/{dt}", f"conversion {path} changes the rotation",
                        rows=q, describe=lambda i: {"got": Y[i], "angle_error": err[i]})
    cx.expect_all(valid(rep, Y, dt), f"range/{path}/{dt}", f"result of {path} is not a valid {rep}", rows=q,
                  describe=lambda i: Y[i])
    return ok1


def explore(cx, rep, X, R0, theta, dt, q, depth, path):
    for name, dst, f in edges_for(rep):
        X0 = X.clone()
        Y = cx.call(f, X, _key=f"{path}>{name}")
        if Y is None:
            continue
        cx.expect(torch.equal(torch.nan_to_num(X0), torch.nan_to_num(X)), f"mutates/{name}", f"{name} modifies its input")
        p = f"{path}>{name}"
        if not check_state(cx, p, dst, Y, R0, theta, dt, q):
            continue
        cx.states(f"{dst}{dt}", Y.reshape(len(Y), -1).nan_to_num(posinf=9e9), 5)
        if depth > 1:
            explore(cx, dst, Y, R0, theta, dt, q, depth - 1, p)


def mk(dt, sign, first):
    dn = "f64" if dt == torch.float64 else "f32"

    @ck.group(f"paths_{dn}_{'pos' if sign > 0 else 'neg'}_{first}")
    def g(cx, dt=dt, sign=sign, first=first):
        Q = start_quats() * sign
        q = torch.tensor(Q, dtype=dt)
        qd = q.double().numpy()
        qd = qd / np.linalg.norm(qd, axis=1, keepdims=True)
        R0 = rot.q2R(qd)
        theta = rot.rot_angle_between(R0, np.eye(3)[None].repeat(len(R0), 0))
        cx.states(f"start{dt}", q, 7)
        if first == "qu":
            explore(cx, "qu", q, R0, theta, dt, Q, 2 if THOROUGH else 1, "qu")
        else:
            X = encode(first, q)
            if check_state(cx, "qu2" + first, first, X, R0, theta, dt, Q):
                explore(cx, first, X, R0, theta, dt, Q, 3 if THOROUGH and dt == torch.float64 else 2, "qu2" + first)
        cx.sample(start=Q[len(Q) // 2], rep=first, edges=[e[0] for e in edges_for(first)])


for dt in (torch.float64, torch.float32):
    for first in REPS:
        mk(dt, 1, first)
        # antipodal quaternion: only where the input representation is the quaternion or derived from it
        if first in ("qu", "om", "ax", "ho", "bu"):
            mk(dt, -1, first)


@ck.group("native_grids")
def native(cx):
    """start states given directly in a representation, including its singular strata."""
    starts = {}
    a = [0, 15, 30, 45, 60, 90, 120, 135, 150, 180]
    bun = [(x, y, z) for x in (a + [210, 270, 300, 345] if THOROUGH else a + [270]) for y in (0, 1e-3, 30, 54.7, 90, 135, 179.999, 180) for z in a + [225, 300]]
    starts["bu"] = np.radians(np.array(bun, float))
    L = math.pi ** (2 / 3) / 2
    g = np.linspace(-L, L, 9 if THOROUGH else 7)
    starts["cu"] = np.stack(np.meshgrid(g, g, g, indexing="ij"), -1).reshape(-1, 3)
    r = (0.75 * math.pi) ** (1 / 3)
    d = rot.lattice_dirs(2)
    starts["ho"] = np.concatenate([d * s * r for s in (1e-3, .01, .25, .5, .75, .9, .999, 1.0)] + [np.zeros((1, 3))])
    angs = [0.0, .01, .3, math.pi / 3, math.pi / 2, 2, 3, math.pi]
    starts["ax"] = np.concatenate([np.concatenate([d, np.full((len(d), 1), t)], 1) for t in angs])
    starts["ro"] = np.concatenate([np.concatenate([d, np.full((len(d), 1), t)], 1) for t in (0.01, .5, 1, 2, 1e3, 1e6, np.inf)] + [[[0, 0, 1, 0.]]])
    starts["om"] = np.stack([m for m in signed_perms() if np.linalg.det(m) > 0])
    zz = [np.concatenate([u * s, v * t]) for u in rot.lattice_dirs(1) for v in rot.lattice_dirs(1) if np.linalg.norm(np.cross(u, v)) > .1 for s in (1, .3) for t in (1, 5.)]
    starts["zh"] = np.array(zz)
    for rep, S in starts.items():
        for dt in (torch.float64, torch.float32):
            X = torch.tensor(S, dtype=dt)
            with np.errstate(all="ignore"):
                R0 = decode(rep, X)
            theta = rot.rot_angle_between(R0, np.eye(3)[None].repeat(len(R0), 0))
            if dt == torch.float32 and rep in ("ax", "ro"):
                pass
            explore(cx, rep, X, R0, theta, dt, S, 2 if THOROUGH else 1, rep)
            cx.states("nat" + rep + str(dt), X.reshape(len(X), -1).nan_to_num(posinf=9e9))
    cx.sample(bunge=starts["bu"][37], cubochoric=starts["cu"][5])


def signed_perms():
    import itertools
    for p in itertools.permutations(range(3)):
        for s in itertools.product([1, -1], repeat=3):
            m = np.zeros((3, 3))
            for i in range(3):
                m[i, p[i]] = s[i]
            yield m


@ck.group("unreduced_angles")
def unreduced(cx):
    """axis-angle input with an angle outside of [0, pi] still denotes a rotation."""
    d = rot.lattice_dirs(2)
    for dt in (torch.float64, torch.float32):
        for t in (-1e-4, -.04, -.06, -1, -math.pi / 2, -3, -2 * math.pi + .3, 4, 5, 6.2, 7):
            X = torch.tensor(np.concatenate([d, np.full((len(d), 1), t)], 1), dtype=dt)
            R0 = decode("ax", X)
            cx.states("un" + str(dt), X)
            for n in ("ax2om", "ax2qu"):
                Y = cx.call(getattr(O, n), X)
                if Y is not None:
                    err = rot.rot_angle_between(R0, decode(n[3:], Y))
                    cx.expect_all(err < (1e-7 if dt == torch.float64 else 1e-4), f"{n}/{t}/{dt}", f"{n} of an angle of {t}", rows=X,
                                  describe=lambda i: Y[i])


@ck.group("batch_shapes")
def shapes(cx):
    """the value of one rotation does not depend on the batch it is in."""
    q = torch.tensor(np.concatenate([rot.lattice_quats(1)[:18], start_quats()[-6:]]))
    N = 24
    leads = [((), [7]), ((1,), [9]), ((1, 1), [3]), ((2, 3), range(6)), ((3, 1, 2), range(10, 16)), ((24,), range(24)),
             ((2, 3, 4), range(24)), ((0,), []), ((4, 0), [])]
    for n, (s, d, f) in EDGES.items():
        X = encode(s, q)
        rows = [cx.call(f, X[i:i + 1].clone(), _key=f"{n}/row") for i in range(N)]
        if any(r is None for r in rows):
            continue
        W = torch.cat(rows)
        for lead, sel in leads:
            sel = list(sel)
            x = X[sel].reshape(lead + TAIL[s])
            y = cx.call(f, x.clone(), _key=f"{n}/shape{lead}")
            if y is None:
                continue
            cx.state(n, lead)
            w = W[sel].reshape(lead + TAIL[d])
            if cx.expect(tuple(y.shape) == tuple(w.shape), f"{n}/shape{lead}/dims", f"{n} on a batch of shape {lead} returns {tuple(y.shape)}") and w.numel():
                cx.expect(torch.allclose(y, w, atol=1e-7, rtol=1e-6, equal_nan=True), f"{n}/shape{lead}/values",
                          f"{n} gives a different result in a batch of shape {lead}")
        # a non-contiguous batch
        x = X[:, None].expand((N, 2) + TAIL[s]).transpose(0, 1)
        y = cx.call(f, x, _key=f"{n}/noncontig")
        if y is not None:
            cx.expect(torch.allclose(y[1], W, atol=1e-7, rtol=1e-6, equal_nan=True), f"{n}/noncontig/values", f"{n} differs on a strided batch")


@ck.group("clifford")
def clifford(cx):
    q = torch.tensor(rot.lattice_quats(2))
    q = q[(q.abs() > 1e-9).sum(1) >= 4]
    cl = O.qu2cl(q).numpy()
    p = q.numpy()
    for k, (a, b) in enumerate([(1, 0), (3, 2), (2, 0), (1, 3), (3, 0), (2, 1)]):
        cx.close(np.tan(cl[:, k]), p[:, a] / p[:, b], f"ratio{k}", "Clifford torus angle", tol=1e-9, rtol=1e-9, rows=p)
    cx.states("cl", cl)


@ck.group("digits", timeout=200)
def digits(cx):
    """rotations of no special form keep the digits of the number format; only the series of the homochoric inverse are less exact"""
    V = np.stack([np.cos(1.0 + 0.7 * k + np.sqrt(np.arange(1, 4001 if THOROUGH else 801) * (2 + k))) for k in range(4)], 1)
    U = V / np.linalg.norm(V, axis=1, keepdims=True)
    U = np.where(U[:, :1] < 0, -U, U)
    th, a = 2 * np.arccos(U[:, 0]), np.sort(np.abs(U[:, 1:]), 1)
    U = U[(th > 0.3) & (th < math.pi - 0.2) & (a[:, 2] - a[:, 1] > 0.03) & (a[:, 1] - a[:, 0] > 0.03)]
    R0 = rot.q2R(U)
    for dt in (torch.float64, torch.float32):
        for n, (s, d, f) in EDGES.items():
            x = encode(s, torch.tensor(U)).to(dt)
            cx.states(f"{n}{dt}", U)
            y = cx.call(f, x, _key=n)
            if y is None:
                continue
            if dt == torch.float32:
                t = 6e-3 if d == "cu" else 1e-5
            elif s in ("ho", "cu") and d not in ("ho", "cu") and not n.endswith("newton"):
                t = 6e-8
            else:
                t = 2e-10 if "cu" in (s, d) else 2e-12
            with np.errstate(all="ignore"):
                err = rot.rot_angle_between(R0, decode(d, y))
            cx.expect_all(err <= t, f"digits/{n}/{dt}", f"{n} loses digits of {dt}", rows=U, describe=lambda i: {"angle_error": err[i]})
    cx.sample(conversions=len(EDGES), rotations=len(U))


if __name__ == "__main__":
    ck.main()
