"""C36  Gradients of simulated patterns are the slopes, and finite everywhere."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import rot
import ebsdtorch.s2_and_so3.quaternions as Q
import ebsdtorch.s2_and_so3.sphere as SP
import ebsdtorch.lie_algebra.se3 as S
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.project_hrebsd import hrebsd_coords, project_hrebsd
from ebsdtorch.preprocessing.resampling import GaussianBlur2d, BlurAndDownsample
from ebsdtorch.harmonics.sht import RSHT, CSHT

torch.set_num_threads(1)
F32, F64 = torch.float32, torch.float64
R = 4 if THOROUGH else 2
DIRS = torch.as_tensor(np.array([v for v in itertools.product(range(-R, R + 1), repeat=3) if any(v)], float))
DIRS = DIRS / DIRS.norm(dim=-1, keepdim=True)
NEAR = []
for e in (1e-2, 1e-3, 1e-5, 1e-8, 1e-12, 0.0):
    for a in np.linspace(0, 2 * np.pi, 17)[:-1]:
        for z in (1.0, -1.0):
            NEAR.append([e * math.cos(a), e * math.sin(a), z * math.sqrt(1 - e * e)])
            NEAR.append([math.cos(a) * math.sqrt(1 - e * e), math.sin(a) * math.sqrt(1 - e * e), e * z])
NEAR = torch.tensor(NEAR, dtype=F64)
TURN = torch.linalg.qr(torch.tensor([[0.9, 0.3, -0.2], [-0.1, 0.8, 0.5], [0.4, -0.3, 0.7]], dtype=F64))[0]
ALL = torch.unique(torch.cat([DIRS, DIRS @ TURN, DIRS.flip(-1) @ TURN.T, NEAR]), dim=0)
QL = torch.as_tensor(rot.lattice_quats(3 if THOROUGH else 2, canonical=False))
ck = Check("C36", bounds=f"{len(ALL)} directions (poles, equator, diagonals and their neighbourhoods to 1e-12), {len(QL)} lattice rotations, all 64 masks of optimisable components, lattices of motions, deformations, pixels and scan positions; "
           "every component of every argument; single precision for finiteness")


def jac(f, args, i):
    """out components x rows x argument components of a function of independent rows"""
    a = [x.clone() for x in args]
    a[i].requires_grad_(True)
    out = f(*a)
    n = len(a[i])
    out = out.reshape(n, -1)
    return torch.stack([torch.autograd.grad(out[:, o].sum(), a[i], retain_graph=True)[0].reshape(n, -1) for o in range(out.shape[1])])


def diffs(f, args, i, h):
    """difference quotients (out components x rows x argument components) and where they are slopes: the same from both
    sides, for another step and, for each row and output, along two oblique lines"""
    with torch.no_grad():
        n = len(args[i])
        y = f(*args).reshape(n, -1)
        comps = args[i][0].numel()
        eye = torch.eye(comps, dtype=F64)
        obl = torch.stack([torch.cos(torch.arange(comps, dtype=F64) * 2.3 + 0.4), torch.cos(torch.arange(comps, dtype=F64) * 1.1 + 2.0)])

        def quotient(w, s):
            a = [x.clone() for x in args]
            a[i] = a[i] + s * w.reshape(args[i].shape[1:])
            return (f(*a).reshape(n, -1) - y) / s

        u = torch.stack([quotient(w, h) for w in eye], -1)
        d = torch.stack([quotient(w, -h) for w in eye], -1)
        mid = (u + d) / 2
        size = 1 + torch.maximum(u.abs(), d.abs()).amax(-1)
        spread = (u - d).abs().amax(-1)
        spread = torch.maximum(spread, torch.stack([(quotient(w, h / 8) - mid[..., k]).abs() for k, w in enumerate(eye)]).amax(0))
        for w in obl:
            for s in (h, -h, h / 8):
                spread = torch.maximum(spread, (quotient(w, s) - (mid * w).sum(-1)).abs())
        return mid.transpose(0, 1), size.T[..., None], spread.T[..., None]


def slopes(cx, name, f, args, wrt=None, h=1e-6, tol=1e-5, kink=2e-4, smooth_share=0.3, **case):
    """the gradient is finite everywhere, and the slope wherever there is one (the same from both sides)"""
    args = [torch.as_tensor(a).double() for a in args]
    n = len(args[0])
    cx.states(name + repr(sorted(case.items())), torch.cat([a.reshape(n, -1) for a in args], -1), decimals=13)
    for i in range(len(args)) if wrt is None else wrt:
        g = cx.call(jac, f, args, i, _key=f"{name}/gradient", _case=dict(argument=i, **case))
        if g is None:
            continue
        fin = torch.isfinite(g).all(0).all(-1)
        cx.expect_all(fin, f"{name}/finite", f"gradient by argument {i} is not finite", describe=lambda k: dict(arguments=[a[k] for a in args], gradient=g[:, k]), argument=i, **case)
        mid, size, spread = diffs(f, args, i, h)
        smooth = spread <= kink * size
        ok = ~smooth | ((g - mid).abs() <= tol * size) | ~torch.isfinite(g)
        cx.expect_all(ok.all(0).all(-1), f"{name}/slope", f"gradient by argument {i} is not the slope", describe=lambda k: dict(arguments=[a[k] for a in args], gradient=g[:, k], slope=mid[:, k]), argument=i, **case)
        share = smooth.double().mean().item()
        cx.outcome(name, i, round(share, 1))
        cx.expect(share >= smooth_share, f"{name}/smooth", f"only {share:.2f} of the slopes exist", argument=i, **case)
        # single precision: finite
        g32 = cx.call(jac, f, [a.float() for a in args], i, _key=f"{name}/single", _case=dict(argument=i, **case))
        if g32 is not None:
            fin = torch.isfinite(g32).all(0).all(-1)
            cx.expect_all(fin, f"{name}/finite32", f"gradient by argument {i} is not finite in single precision", describe=lambda k: dict(arguments=[a[k] for a in args], gradient=g32[:, k]), argument=i, **case)


def pairs(a, b):
    i, j = np.meshgrid(np.arange(len(a)), np.arange(len(b)), indexing="ij")
    return a[i.ravel()], b[j.ravel()]


@ck.group("quaternions", timeout=600)
def quaternions(cx):
    few = QL[:: 2 if THOROUGH else 3]
    for n in ("qu_conj", "qu_norm", "qu_std", "qu_norm_std"):
        slopes(cx, n, getattr(Q, n), [QL])
    for n in ("qu_prod_raw", "qu_prod", "qu_prod_pos_real", "qu_prod_axis"):
        slopes(cx, n, getattr(Q, n), pairs(few, few))
    slopes(cx, "qu_apply", Q.qu_apply, pairs(QL, DIRS[::3]))
    slopes(cx, "qu_triple_prod_pos_real", Q.qu_triple_prod_pos_real, [few, few.flip(0), few.roll(3, 0)])
    cx.sample(quaternion=few[3])


@ck.group("projection", timeout=600)
def projection(cx):
    slopes(cx, "rosca_lambert", SP.rosca_lambert, [ALL])
    slopes(cx, "rosca_lambert_side_by_side", SP.rosca_lambert_side_by_side, [ALL])
    g = torch.linspace(-1, 1, 41 if THOROUGH else 21, dtype=F64)
    sq = torch.cartesian_prod(g[1:-1], g[1:-1])
    slopes(cx, "inv_rosca_lambert", SP.inv_rosca_lambert, [sq])
    cx.sample(direction=ALL[5])


@ck.group("rounding", timeout=600)
def rounding(cx):
    """single precision: rotations that bring a direction to a pole, up to rounding errors, have slopes of ordinary size"""
    d = ALL[:: 2 if THOROUGH else 5]
    n = len(d)
    for s in (1.0, -1.0):
        to = torch.tensor([0.0, 0.0, s], dtype=F64).expand(n, 3)
        half = torch.where(((d * to).sum(-1) > -0.999)[:, None], d + to, torch.tensor([1.0, 0, 0], dtype=F64))
        half = half / half.norm(dim=-1, keepdim=True)
        q = torch.cat([(half * d).sum(-1)[:, None], torch.linalg.cross(d, half, dim=-1)], -1)
        for e in (0.0, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3):
            for k in range(8):
                a = 0.3 + 0.8 * k
                t = torch.tensor([[1.0, e * math.cos(a), e * math.sin(a), 0.0]], dtype=F64).expand(n, 4)
                z = torch.tensor([[math.cos(a), 0.0, 0.0, math.sin(a)]], dtype=F64).expand(n, 4)
                for order, w in enumerate((Q.qu_prod_raw(z, Q.qu_prod_raw(t, q)), Q.qu_prod_raw(t, Q.qu_prod_raw(z, q)))):
                    case = dict(pole=s, distance=e, turn=k, order=order)
                    cx.states(("rounding", s, e, k, order), w, decimals=13)
                    back = Q.qu_apply(w, d)
                    there = (back * to).sum(-1) > 1 - 1e-5
                    cx.expect(there.double().mean() > 0.95, "harness", "not at the pole", **case)
                    for name in ("rosca_lambert", "rosca_lambert_side_by_side"):
                        f = getattr(SP, name)
                        for i in (0, 1):
                            g = cx.call(jac, lambda p, v: f(Q.qu_apply(p, v)), [w.float(), d.float()], i, _key=f"{name}/rounding", _case=case)
                            if g is not None:
                                big = g.abs().amax(0).amax(-1)
                                cx.expect_all((big < 50) | ~there, f"{name}/rounding", "the gradient at a pole is not that of the neighbourhood", describe=lambda j: dict(rotation=w[j], direction=d[j], gradient=g[:, j]), argument=i, **case)


@ck.group("motions", timeout=600)
def motions(cx):
    ax = DIRS[::5]
    for th in (0.0, 1e-12, 1e-6, 9.9e-4, 1.01e-3, 0.02, 0.0499, 0.0501, 0.3, 1.5, 2.9):
        for t in ((0, 0, 0), (0.3, -2.0, 1.1)):
            v = torch.cat([ax * th, torch.tensor(t, dtype=F64).expand(len(ax), 3)], -1)
            # (the two formulas meet at 1e-3, 0.01 and 0.05: stay on one side)
            case = dict(angle=th, shift=t)
            slopes(cx, "se3_exp_map_om", S.se3_exp_map_om, [v], **case)
            slopes(cx, "se3_exp_map_quat", lambda x: torch.cat(S.se3_exp_map_quat(x), -1), [v], tol=1e-4, **case)
            slopes(cx, "exp-log-quat", lambda x: S.se3_log_map_quat(*S.se3_exp_map_quat(x)), [v], tol=1e-4, **case)
            slopes(cx, "exp-log-split", lambda x: S.se3_log_map_split(*S.se3_exp_map_split(x)), [v], tol=1e-4, **case)
    cx.sample(twist=v[0])


def smooth_master(laue=1, H=24, seed=2):
    u = np.random.default_rng(seed)
    k, ph = u.standard_normal((6, 3)) * 2.5, u.uniform(0, 6, 6)
    g = (torch.arange(H, dtype=F64) + 0.5) / H * 2 - 1
    yy, xx = torch.meshgrid(g, g, indexing="ij")
    d = SP.inv_rosca_lambert(torch.stack((xx, yy), -1))
    f = lambda p: torch.cos(p @ torch.as_tensor(k).T + torch.as_tensor(ph)).sum(-1)
    return torch.cat([f(d), f(d * torch.tensor([1.0, 1, -1], dtype=F64))], -1)


for mode_ in ("bilinear", "bicubic"):
    @ck.group(f"interpolation-{mode_}", timeout=900)
    def interpolation(cx, mode=mode_):
        for img_name, img in (("smooth", smooth_master()), ("noise", torch.as_tensor(np.random.default_rng(4).uniform(0, 9, (6, 12))))):
            for align in (False, True):
                for norm in (True, False):
                    for vb in (1, 2):
                        def f(d):
                            return MasterPattern(img.to(d.dtype), laue_group=11).interpolate(d, mode=mode, align_corners=align, normalize_coords=norm, virtual_binning=vb)
                        slopes(cx, "interpolate", f, [ALL], smooth_share=0.2, image=img_name, align=align, normalize=norm, virtual_binning=vb)
        cx.sample(direction=ALL[11], mode=mode)


@ck.group("intensities", timeout=600)
def intensities(cx):
    """patterns are linear in the intensities: the gradient gives the weights"""
    for H in (2, 3, 6):
        img = torch.as_tensor(np.random.default_rng(H).uniform(1, 9, (H, 2 * H)))
        for mode in ("bilinear", "bicubic", "nearest"):
            for align in (False, True):
                for k, d in enumerate(ALL[:: 1 if THOROUGH else 3]):
                    cx.state(H, mode, align, k)
                    x = img.clone().requires_grad_(True)
                    case = dict(size=H, mode=mode, align_corners=align, direction=d)
                    y = cx.call(lambda: MasterPattern(x, laue_group=11).interpolate(d[None], mode=mode, align_corners=align)[0], _key="intensities", _case=case)
                    if y is None:
                        continue
                    w = torch.autograd.grad(y, x)[0]
                    cx.close((w * img).sum(), y.detach(), "weights", "the pattern is not the weighted sum of the intensities", tol=1e-9, **case)
                    cx.close(w.sum(), 1.0, "sum", "the weights do not add to one", tol=1e-9, **case)
                    if mode != "bicubic":
                        cx.expect((w >= -1e-12).all(), "positive", "negative weight", **case)
    cx.sample(weights=w)


PIX = torch.cartesian_prod(torch.tensor([0.0, 2.5, 5.0], dtype=F64), torch.tensor([0.0, 3.0, 7.0], dtype=F64))
SCAN = torch.tensor([[0.0, 0.0], [0.5, -0.25], [-1.0, 2.0]], dtype=F64)
TWISTS = [[0.0] * 6, [1e-9, 0, 0, 0, 0, 0], [0.02, -0.03, 0.01, 0.2, -0.1, 0.3], [0.3, 0.2, -0.4, -0.5, 0.4, 0.2], [0, 0, 0, 0.3, 0.2, -0.1]]


@ck.group("geometry", timeout=900)
def geometry(cx):
    for mask in itertools.product((False, True), repeat=6):
        for tw in TWISTS:
            for pc, tilts in (((0.5, 0.5, 0.6), (0.0, 70.0, 10.0)), ((0.3, 0.8, 1.1), (3.0, 55.0, 0.0))):
                case = dict(mask=mask, vector=tw, pc=pc, tilts=tilts)
                cx.state(mask, tw, pc)
                geo = EBSDGeometry((6, 8), tilts, pc, se3_vector=torch.tensor(tw, dtype=F64), opt_rots=mask[:3], opt_shifts=mask[3:]).double()

                def out(g):
                    a = g.project2sample(PIX)
                    b = g.project2sample(PIX[:, None], SCAN[None])
                    c = g.get_coords_sample_frame((3, 4), dtype=F64) if False else a
                    rays = torch.tensor([[0.1, 0.2, 0.97], [-0.3, 0.1, 0.9]], dtype=F64) @ g.pc_SE3_matrix[0, :3, :3].T
                    e = g.backproject2detector(-rays)
                    return torch.cat([a.reshape(-1), b.reshape(-1), c.reshape(-1), e.reshape(-1)])

                y = cx.call(out, geo, _key="geometry", _case=case)
                if y is None:
                    continue
                if not any(mask):
                    cx.expect(not y.requires_grad, "nothing", "gradients although nothing is optimised", **case)
                    continue
                m = torch.tensor(mask)
                w = torch.cos(torch.arange(y.numel(), dtype=F64) * 1.7)
                g = cx.call(torch.autograd.grad, (y * w).sum(), geo.se3_vector, _key="gradient", _case=case)
                if g is None:
                    continue
                g = g[0].reshape(-1)
                cx.expect(torch.isfinite(g).all(), "finite", "gradient is not finite", gradient=g, **case)
                cx.expect((g[~m] == 0).all(), "masked", "components that are not optimised have a gradient", gradient=g, **case)
                want = []
                h = 1e-6
                base = geo.se3_vector.detach().clone()
                for c in range(6):
                    vals = []
                    for s in (h, -h):
                        with torch.no_grad():
                            geo.se3_vector.copy_(base)
                            geo.se3_vector.view(-1)[c] += s
                            vals.append((out(geo).detach() * w).sum())
                    want.append((vals[0] - vals[1]) / (2 * h))
                want = torch.stack(want)
                cx.expect(((g - want).abs() <= 1e-5 * (1 + want.abs() + g.abs().max())).all(), "slope", "gradient of the geometry is not the slope", gradient=g, slope=want, **case)
    cx.sample(gradient=g, **case)


@ck.group("coordinates", timeout=600)
def coordinates(cx):
    """slopes by pixels, rays and scan positions"""
    for tw in TWISTS:
        for pc, tilts in (((0.5, 0.5, 0.6), (0.0, 70.0, 10.0)), ((0.3, 0.8, 1.1), (3.0, 55.0, 0.0))):
            geo = EBSDGeometry((6, 8), tilts, pc, se3_vector=torch.tensor(tw), opt_rots=(True,) * 3, opt_shifts=(True,) * 3).double()
            p, s = pairs(PIX, SCAN)
            slopes(cx, "project2sample", lambda a, b: geo.project2sample(a.double(), b.double()), [p, s], vector=tw, pc=pc)
            with torch.no_grad():
                rays = geo.project2sample(PIX)
            r, s = pairs(rays, SCAN)
            slopes(cx, "backproject2detector", lambda a, b: geo.backproject2detector(a.double(), b.double()), [r, s], tol=1e-4, vector=tw, pc=pc)
    cx.sample(pixel=p[2], vector=tw)


@ck.group("hrebsd", timeout=900)
def hrebsd(cx):
    """directions and intensities of deformed crystals, by motion, orientation and deformation"""
    from ebsdtorch.ebsd.geometry import bruker_geometry_to_SE3
    img = smooth_master(H=40)
    q = QL[:: 2 if THOROUGH else 7]
    for pc, tilt in (((0.5, 0.5, 0.6), 70.0), ((0.3, 0.7, 1.0), 20.0)):
        r, t = bruker_geometry_to_SE3(torch.tensor([pc], dtype=F64), torch.tensor([tilt], dtype=F64), torch.tensor([0.0], dtype=F64), (4, 6))
        v0 = S.se3_log_map_split(r, t)[0]
        for bend in (0.0, 1e-9, 0.05):
            for mask in ([1.0] * 6, [1.0, 0, 1, 0, 1, 0]):
                m = torch.tensor(mask, dtype=F64)
                n = len(q)
                v = v0.expand(n, 6) + bend * torch.tensor([1.0, -1, 0.5, 0.3, 0.2, -0.4], dtype=F64)
                fi = torch.eye(3, dtype=F64).expand(n, 3, 3) + bend * torch.tensor([[0.2, -0.5, 0.3], [0.1, 0.4, -0.2], [0.6, 0.1, -0.3]], dtype=F64)

                def coords(v, q, fi):
                    return hrebsd_coords(m.to(v.dtype), v, q, fi, (4, 6), 1, torch.device("cpu"), v.dtype)

                def picture(v, q, fi):
                    return project_hrebsd(MasterPattern(img.to(v.dtype), laue_group=1), coords(v, q, fi), mode="bicubic")

                case = dict(pc=pc, bend=bend, mask=mask)
                slopes(cx, "coordinates", coords, [v, q, fi], tol=1e-4, **case)

                def formula(v, q, fi):
                    w = m * v
                    g = torch.linalg.matrix_exp(torch.stack([torch.stack([z * 0, -z, y, a], -1) for z, y, a in ((w[:, 2], w[:, 1], w[:, 3]),)] + [torch.stack([w[:, 2], w[:, 2] * 0, -w[:, 0], w[:, 4]], -1), torch.stack([-w[:, 1], w[:, 0], w[:, 0] * 0, w[:, 5]], -1), torch.zeros_like(w[:, :4])], -2))
                    p = torch.stack(torch.meshgrid(torch.arange(4, dtype=F64), torch.arange(6, dtype=F64), indexing="ij"), -1).reshape(-1, 2)
                    p = torch.cat([p, torch.zeros(24, 1, dtype=F64), torch.ones(24, 1, dtype=F64)], -1)
                    d = torch.einsum("bij,pj->bpi", g, p)[..., :3]
                    d = d / d.norm(dim=-1, keepdim=True)
                    u, c = q[:, None, :1], q[:, None, 1:].expand(-1, 24, -1)
                    x = torch.linalg.cross(c, d, dim=-1)
                    d = (u * u - (c * c).sum(-1, keepdim=True)) * d + 2 * u * x + 2 * c * (c * d).sum(-1, keepdim=True)
                    d = torch.einsum("bij,bpj->bpi", fi, d)
                    return d / d.norm(dim=-1, keepdim=True)

                for i, what in enumerate(("motion", "orientation", "deformation")):
                    g = cx.call(jac, coords, [v, q, fi], i, _key=f"coordinates/{what}", _case=case)
                    if g is not None:
                        w = jac(formula, [v, q, fi], i)
                        cx.close(g, w, f"coordinates/{what}", f"gradient by the {what} against that of the formula", tol=1e-6 * (1 + float(w.abs().max())), **case)
                slopes(cx, "intensities", picture, [v, q, fi], tol=1e-3, kink=1e-3, smooth_share=0.2, **case)
    cx.sample(vector=v[0], quaternion=q[0])


@ck.group("linear", timeout=600)
def linear(cx):
    """blur, binning and harmonic transforms are linear: the gradient is the adjoint, on every basis image"""
    def adjoint(name, f, x_shape, **case):
        n = math.prod(x_shape)
        basis = torch.eye(n, dtype=F64).reshape((n,) + x_shape)
        for k in range(n):
            cx.state(name, repr(case), k)
        with torch.no_grad():
            cols = f(basis).reshape(n, -1)
        x = torch.as_tensor(np.random.default_rng(0).standard_normal((1,) + x_shape)).requires_grad_(True)
        y = cx.call(f, x, _key=name, _case=case)
        if y is None:
            return
        y = y.reshape(-1)
        for o in range(y.numel()):
            g = torch.autograd.grad(y[o], x, retain_graph=True)[0].reshape(-1)
            cx.close(g, cols[:, o], name, "gradient of a linear map is not its adjoint", tol=1e-9, output=o, **case)

    for sigma in (0.5, 1.0):
        for refl in (True, False):
            adjoint("blur", GaussianBlur2d(sigma, reflect_padding=refl).double(), (1, 7, 8), sigma=sigma, reflect=refl)
    adjoint("downsample", BlurAndDownsample(2.0).double(), (1, 8, 8))
    for L in (2, 3, 4) if not THOROUGH else (2, 3, 4, 5, 6):
        cpu = torch.device("cpu")
        for T in (RSHT, CSHT):
            t = T(L, cpu, "double")
            adjoint(T.__name__, lambda x: torch.view_as_real(t.fsht(x if T is RSHT else x + 0j)), (2 * L, 2 * L), L=L)

            def inverse(c):
                z = torch.complex(c[..., 0], c[..., 1])
                y = t.isht(z)
                return torch.view_as_real(y + 0j)
            shape = tuple(t.fsht(torch.zeros(1, 2 * L, 2 * L, dtype=F64) + (0 if T is RSHT else 0j)).shape[1:])
            adjoint(T.__name__ + "-inverse", inverse, shape + (2,), L=L)
    cx.sample(L=L)


if __name__ == "__main__":
    ck.main()
