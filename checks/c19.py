"""C19  The exponential and logarithm of rigid motions are the matrix exponential and its inverse."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.lie_algebra import se3 as S
from ebsdtorch.s2_and_so3.quaternions import qu_apply

torch.set_num_threads(1)
F32, F64 = torch.float32, torch.float64
PI = math.pi
# angles on both sides of every switch between series and closed forms, and half turns
ANGLES = [0.0, 1e-12, 1e-8, 1e-6, 1e-5, 9e-5, 1.1e-4, 5e-4, 9.9e-4, 1.01e-3, 2e-3, 5e-3, 9.9e-3, 0.0101, 0.03, 0.0499, 0.0501, 0.06, 0.1, 0.3, 0.7, 1.0, PI / 2, 2.0, 2.09, 2.1, 2.5, 3.0, 3.1, 3.13, 3.14, 3.1415]
HALF = [PI - 1e-5, PI - 1e-7, PI]
WIDE = [3.2, 4.0, 5.0, 6.0, 2 * PI - 1e-3, 2 * PI + 0.3, 9.0]
R = 3 if THOROUGH else 2
AX = np.array([v for v in itertools.product(range(-R, R + 1), repeat=3) if any(v) and math.gcd(*[abs(x) for x in v]) == 1], float)
AX /= np.linalg.norm(AX, axis=1, keepdims=True)
SHIFTS = np.array([[0, 0, 0], [1, 0, 0], [0, -2.0, 0], [0, 0, 0.5], [0.3, -0.7, 1.1], [20.0, -3.0, 7.0]])
ck = Check("C19", bounds=f"{len(AX)} lattice axes x {len(ANGLES) + len(HALF) + len(WIDE)} angles (both sides of every switch of formula, half turns, more than a turn) x {len(SHIFTS)} translations x 2 dtypes x 3 representations; "
           "derivatives by all six components; all pairs of twists on one axis; all batch layouts up to 3 dimensions")


def twists(angles):
    w = AX[:, None, None] * np.array(angles)[None, :, None, None]
    w = np.broadcast_to(w, (len(AX), len(angles), len(SHIFTS), 3))
    t = np.broadcast_to(SHIFTS, w.shape)
    return np.concatenate([w, t], -1).reshape(-1, 6)


def hat(v):
    v = torch.as_tensor(v).double()
    z = torch.zeros_like(v[..., 0])
    x, y, zz, a, b, c = v.unbind(-1)
    return torch.stack([torch.stack([z, -zz, y, a], -1), torch.stack([zz, z, -x, b], -1), torch.stack([-y, x, z, c], -1), torch.stack([z, z, z, z], -1)], -2)


def expm(v):
    return torch.matrix_exp(hat(v))


I3 = torch.eye(3, dtype=F64)


def rot(q):
    """the rotation a quaternion performs"""
    return qu_apply(q[..., None, :].expand(*q.shape[:-1], 3, 4), torch.eye(3, dtype=q.dtype).expand(*q.shape[:-1], 3, 3)).transpose(-1, -2)


REP = {
    "matrix": (lambda v: S.se3_exp_map_om(v), lambda e: S.se3_log_map_om(e), lambda e: e),
    "split": (lambda v: S.se3_exp_map_split(v), lambda e: S.se3_log_map_split(*e), lambda e: join(*e)),
    "quaternion": (lambda v: S.se3_exp_map_quat(v), lambda e: S.se3_log_map_quat(*e), lambda e: join(rot(e[0]), e[1])),
}


def join(r, t):
    last = torch.zeros(r.shape[:-2] + (1, 4), dtype=r.dtype)
    last[..., 3] = 1
    return torch.cat([torch.cat([r, t[..., None]], -1), last], -2)


for name in REP:
    for dt in (F32, F64):
        def g(cx, name=name, dt=dt):
            ex, lg, mat = REP[name]
            tol = 1e-6 if dt == F32 else (1e-11 if name == "quaternion" else 1e-12)
            for part, angles in (("regular", ANGLES), ("half", HALF), ("wide", WIDE)):
                v = twists(angles)
                ang = np.linalg.norm(v[:, :3], axis=1)
                big = np.maximum(1, np.abs(v[:, 3:]).max(1))
                cx.states(name + part, v)
                x = torch.as_tensor(v).to(dt)
                e = cx.call(ex, x, _key="exp")
                if e is None:
                    continue
                m = mat(e).double()
                cx.expect((e[0] if isinstance(e, tuple) else e).dtype == dt, "dtype", "type of the result")
                # compare with the exponential of what was passed in
                ref = expm(x.double())
                cx.close((m[:, :3, :3]), ref[:, :3, :3], f"exp-rotation-{part}", "rotation is not the matrix exponential", tol=tol, rows=v)
                cx.close(m[:, :3, 3] / torch.as_tensor(big)[:, None], ref[:, :3, 3] / torch.as_tensor(big)[:, None], f"exp-translation-{part}", "translation is not the one of the matrix exponential", tol=tol, rows=v)
                if name == "matrix":
                    cx.close(m[:, 3], np.broadcast_to([0, 0, 0, 1.0], (len(v), 4)), "last-row", "last row", tol=0)
                l = cx.call(lg, e, _key="log")
                if l is None:
                    continue
                l = l.double()
                # whatever the branch: the logarithm leads back to the same motion
                back = expm(l)
                la = l[:, :3].norm(dim=1)
                cx.expect_all((la <= PI + 1e-5).numpy(), f"log-range-{part}", "rotation vector longer than half a turn", rows=v)
                ltol = tol * 20
                sel = [(np.ones(len(v), bool), tol * 20)]
                for s, t in sel:
                    if s.any():
                        b = torch.as_tensor(big[s])[:, None, None]
                        cx.close(back[s] / b, ref[s] / b, f"log-{part}", "exponential of the logarithm is another motion", tol=t, rows=v[s])
                        if part == "regular":
                            cx.close(l[s] / b[..., 0], v[s] / np.asarray(b[..., 0]), f"inverse-{part}", "logarithm is not the twist", tol=t * 2, rows=v[s])
            cx.sample(twist=v[7], motion=m[7])
        ck.group(f"maps-{name}-{'f32' if dt == F32 else 'f64'}", timeout=200)(g)


@ck.group("parts", timeout=200)
def parts(cx):
    """the building blocks: skew matrix, rotation exponential, V and its inverse"""
    for dt, tol in ((F64, 1e-12), (F32, 3e-6)):
        v = twists(ANGLES + HALF)[:: len(SHIFTS)]
        w = torch.as_tensor(v[:, :3]).to(dt)
        cx.states(str(dt), v)
        k = cx.call(S.skew, w)
        u = torch.as_tensor(AX[: len(w)]).to(dt)
        for a in torch.eye(3, dtype=dt):
            cx.close((k @ a).double(), torch.linalg.cross(w, a.expand_as(w)).double(), "skew", "skew matrix is not the cross product", tol=1e-12 if dt == F64 else 1e-6)
        e = cx.call(S.w_exp, w)
        cx.close(e.double(), expm(torch.cat([w.double(), 0 * w.double()], 1))[:, :3, :3], "w_exp", "rotation exponential", tol=tol, rows=v)
        e2, vm = cx.call(S.w_exp_vmat, w)
        cx.close(e2.double(), e.double(), "w_exp_vmat", "the two rotation exponentials differ", tol=tol, rows=v)
        # V maps t to the translation of the exponential
        ref = torch.stack([expm(torch.cat([w.double(), a.double().expand_as(w)], 1))[:, :3, 3] for a in torch.eye(3)], -1)
        for nm, m in (("w_exp_vmat", vm), ("w_to_v", cx.call(S.w_to_v, w))):
            cx.close(m.double(), ref, nm, "V matrix", tol=tol, rows=v)
        inv = cx.call(S.w_to_v_inv, w)
        cx.close(inv.double() @ ref, np.broadcast_to(np.eye(3), ref.shape), "w_to_v_inv", "inverse of V", tol=tol * 5, rows=v)
    cx.sample(omega=v[5], V=ref[5])


@ck.group("group-laws", timeout=200)
def laws(cx):
    """one parameter subgroups and inverses, all pairs of multiples"""
    s = [-1.0, -0.5, -1e-2, -1e-3, 0.0, 1e-4, 1e-3, 0.01, 0.3, 1.0, 2.0]
    base = twists([1.3])
    for a, b in itertools.product(s, s):
        cx.state(a, b)
        for name, (ex, lg, mat) in REP.items():
            v = torch.as_tensor(base)
            p = mat(ex(v * a)) @ mat(ex(v * b))
            cx.close(p, mat(ex(v * (a + b))), f"{name}-sum", "exp(a v) exp(b v) is not exp((a + b) v)", tol=1e-8, rows=base)
    for name, (ex, lg, mat) in REP.items():
        v = torch.as_tensor(twists(ANGLES))
        cx.close(mat(ex(v)) @ mat(ex(-v)), np.broadcast_to(np.eye(4), (len(v), 4, 4)), f"{name}-inverse", "exp(-v) is not the inverse", tol=1e-8)
    # conjugation with the cubic rotations
    for p in itertools.permutations(range(3)):
        for sg in itertools.product((1, -1), repeat=3):
            g = np.zeros((3, 3))
            for i in range(3):
                g[i, p[i]] = sg[i]
            if np.linalg.det(g) < 0:
                continue
            cx.state(p, sg)
            gt = torch.as_tensor(g)
            v = torch.as_tensor(twists(ANGLES + HALF[:1]))
            vr = torch.cat([v[:, :3] @ gt.T, v[:, 3:] @ gt.T], 1)
            for name, (ex, lg, mat) in REP.items():
                m = mat(ex(v))
                want = join(gt @ m[:, :3, :3] @ gt.T, m[:, :3, 3] @ gt.T)
                cx.close(mat(ex(vr)), want, f"{name}-conjugate", "rotated twist does not give the rotated motion", tol=1e-8)
    cx.sample(pair=(a, b))


def deriv(name):
    @ck.group(f"derivatives-{name}", timeout=300)
    def derivatives(cx):
        """the maps are used for optimisation: derivatives are exact, also at rest"""
        jac = torch.autograd.functional.jacobian
        axes = AX[:: 3 if THOROUGH else 9]
        ex, lg, mat = REP[name]
        for th in [0.0, 1e-9, 1e-4, 9.9e-4, 1.01e-3, 0.02, 0.0499, 0.0501, 0.5, 2.0, 3.0, 3.1, 3.14]:
            for a in axes:
                for t in SHIFTS[[0, 4]]:
                    cx.state(th, a, t)
                    v = torch.as_tensor(np.concatenate([a * th, t]))
                    case = dict(angle=th, axis=a, shift=t)
                    want = jac(expm, v)[:3]
                    got = cx.call(jac, lambda x: mat(ex(x[None]))[0, :3], v, _key="exp", _case=case)
                    if got is not None:
                        cx.close(got, want, f"{name}-exp", "derivative of the exponential", tol=1e-8, **case)
                    got = cx.call(jac, lambda x: lg(ex(x[None]))[0], v, _key="log", _case=case)
                    if got is not None:
                        cx.close(got, np.eye(6), f"{name}-log", "derivative of the logarithm after the exponential", tol=1e-6, **case)
        cx.sample(**case, derivative=want)


for name_ in REP:
    deriv(name_)


@ck.group("layouts", timeout=200)
def layouts(cx):
    """every batch shape and memory layout gives the values of single vectors"""
    rng = np.random.default_rng(5)
    shapes = [(), (1,), (3,), (0,), (1, 1), (2, 3), (3, 1), (2, 0), (2, 1, 3), (2, 2, 2)]
    for shape in shapes:
        for dt in (F64, F32):
            for small in (False, True):
                v = torch.as_tensor(rng.standard_normal(shape + (6,)) * 0.8).to(dt)
                if small and v.numel():
                    v.view(-1, 6)[::2, :3] *= 1e-5
                layouts = {"contiguous": v}
                if v.dim() > 1:
                    layouts["transposed"] = v.transpose(0, -2).contiguous().transpose(0, -2)
                    layouts["permuted"] = v.permute(*range(v.dim())[::-1]).contiguous().permute(*range(v.dim())[::-1])
                layouts["strided"] = torch.stack([v, v + 1], -1)[..., 0]
                for ln, x in layouts.items():
                    cx.state(shape, dt, small, ln)
                    keep = x.clone()
                    for name, (ex, lg, mat) in REP.items():
                        case = dict(shape=shape, layout=ln, dtype=str(dt), representation=name)
                        e = cx.call(ex, x, _key="layout-exp", _case=case)
                        if e is None:
                            continue
                        m = mat(e)
                        cx.expect(tuple(m.shape) == shape + (4, 4), "shape", f"shape {tuple(m.shape)}", **case)
                        if tuple(m.shape) == shape + (4, 4) and m.numel():
                            cx.close(m.double(), expm(x), "layout-exp", "value depends on the layout", tol=3e-6 if dt == F32 else 1e-8, **case)
                        arg = tuple(z.clone() for z in e) if isinstance(e, tuple) else e.clone()
                        if m.dim() > 3:
                            # also logarithms of arguments in another memory order
                            arg = tuple(z.transpose(0, 1).contiguous().transpose(0, 1) for z in arg) if isinstance(arg, tuple) else arg.transpose(0, 1).contiguous().transpose(0, 1)
                        l = cx.call(lg, arg, _key="layout-log", _case=case)
                        if l is None:
                            continue
                        cx.expect(tuple(l.shape) == shape + (6,), "log-shape", f"shape {tuple(l.shape)}", **case)
                        if l.numel() and tuple(l.shape) == shape + (6,):
                            cx.close(l.double(), x.double(), "layout-log", "logarithm depends on the layout", tol=1e-4 if dt == F32 else 1e-7, **case)
                    cx.expect(torch.equal(keep, x), "input", "input changed", **case)
    cx.sample(shape=shape, twist=v.reshape(-1, 6)[0])


if __name__ == "__main__":
    ck.main()
