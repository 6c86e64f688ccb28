"""C20  Detector geometry: rigid, invertible, and the same in every part of the package."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.ebsd import geometry as G
from ebsdtorch.ebsd import fitting as F
from ebsdtorch.ebsd.project_hrebsd import hrebsd_coords
from ebsdtorch.lie_algebra.se3 import se3_exp_map_split, se3_log_map_split

torch.set_num_threads(1)
F32, F64 = torch.float32, torch.float64
PCS = [(0.5, 0.5, 0.5), (0.3, 0.8, 0.6), (0.0, 1.0, 0.4), (0.71, -0.1, 1.2)] + ([(0.5, 0.5, 2.0), (1.3, 0.2, 0.3)] if THOROUGH else [])
XT, YT, DT = (0.0, 5.0, -8.0), (0.0, 70.0, 60.0, -20.0), (0.0, 10.0, -3.0)
SHAPES = [(4, 4), (6, 4), (5, 7), (12, 8), (1, 3)] + ([(16, 16), (9, 6)] if THOROUGH else [])
ck = Check("C20", bounds=f"{len(PCS)} projection centres x {len(XT) * len(YT) * len(DT)} tilt triples x {len(SHAPES)} detector shapes x all binnings x 2 dtypes; all 64 optimisation masks, all sequences of two mask changes; "
           "all broadcasts of pixels and scan points; conversions to and from Bruker parameters on a lattice of centres and signed tilts")


def rx(axis, deg):
    c, s = np.cos(np.deg2rad(deg)), np.sin(np.deg2rad(deg))
    return np.array({"y": [[c, 0, s], [0, 1, 0], [-s, 0, c]], "z": [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[axis])


# the untilted detector: rows go down (-z), columns along y, normal along x
R0 = np.array([[0, 0, 1.0], [0, 1, 0], [-1, 0, 0]])


def model(pc, tilts, shape):
    """rotation and translation of the detector in the sample frame"""
    r = rx("y", tilts[2] - tilts[1]) @ rx("z", tilts[0]) @ R0
    center = np.array([pc[1] * shape[0] - 0.5, pc[0] * shape[1] - 0.5, -pc[2] * shape[0]])
    return r, -r @ center


def grid(shape, b=(1, 1)):
    i = (np.arange(shape[0] // b[0]) + 0.5) * b[0] - 0.5
    j = (np.arange(shape[1] // b[1]) + 0.5) * b[1] - 0.5
    return np.stack(np.meshgrid(i, j, indexing="ij"), -1).reshape(-1, 2)


def three(p):
    return np.concatenate([p, np.zeros(p.shape[:-1] + (1,))], -1)


def divisors(n):
    return [k for k in range(1, n + 1) if n % k == 0]


def rigid(k):
    shape = SHAPES[k]
    @ck.group(f"pixels-{shape[0]}x{shape[1]}", timeout=300)
    def g(cx):
        """pixel positions, back projection and rays for every geometry and binning"""
        n = shape[0]
        for pc in PCS:
            for tilts in itertools.product(XT, YT, DT):
                case = dict(shape=shape, center=pc, tilts=tilts)
                geo = cx.call(G.EBSDGeometry, shape, tilts, pc, _key="construct", _case=case)
                r, t = model(pc, tilts, shape)
                tol = 2e-5 * max(shape)
                m = cx.call(geo.get_detector2sample, _key="transformation", _case=case)
                cx.expect(tuple(m[0].shape) == (3, 3) and tuple(m[1].shape) == (3,), "shapes", "shape of the transformation", **case)
                cx.close(m[0].double(), r, "rotation", "orientation of the detector", tol=1e-6, **case)
                cx.close(m[1].double(), t, "translation", "position of the detector", tol=tol, **case)
                for b in itertools.product(divisors(shape[0]), divisors(shape[1])):
                    for dt in (F32, F64):
                        cx.state(shape, pc, tilts, b, dt)
                        p = grid(shape, b)
                        want = three(p) @ r.T + t
                        x = cx.call(geo.get_coords_sample_frame, b, dt, _key="coordinates", _case=case)
                        if x is None:
                            continue
                        cx.expect(x.dtype == dt, "dtype", f"type {x.dtype}", **case)
                        cx.close(x.double().reshape(-1, 3), want, "coordinates", f"pixel positions with binning {b}", tol=tol, **case)
                        y = cx.call(geo.backproject2detector, x, _key="back", _case=case)
                        if y is not None:
                            cx.expect(tuple(y.shape) == tuple(x.shape[:-1]) + (2,), "back-shape", f"shape {tuple(y.shape)}", **case)
                            cx.close(y.double().reshape(-1, 2), p, "back", "back projection of the pixels", tol=tol * 5, **case)
                # positive multiples of a ray meet the detector in the same point
                x = torch.as_tensor(three(grid(shape)) @ r.T + t).float()
                for lam in (1e-2, 0.3, 40.0):
                    cx.close(geo.backproject2detector(x * lam).double(), grid(shape), "scale", "back projection depends on the length of the ray", tol=tol * 5, **case)
        cx.sample(**case, pixel=p[0], position=x[0])


for k_ in range(len(SHAPES)):
    rigid(k_)


@ck.group("broadcast", timeout=200)
def broadcast(cx):
    """pixels and scan points of any shape, fractional and outside of the detector"""
    rng = np.random.default_rng(3)
    pairs = [((), None), ((5,), None), ((2, 3), None), ((), ()), ((), (4,)), ((5,), (1,)), ((5,), (5,)), ((5, 1), (1, 4)), ((3, 2, 1, 1), (1, 1, 2, 4)), ((1, 1), (3, 2)), ((4,), (2, 4))]
    for pc in PCS:
        for tilts in ((0.0, 70.0, 0.0), (5.0, 60.0, 10.0)):
            for dbl in (False, True):
                geo = G.EBSDGeometry((10, 14), tilts, pc)
                geo = geo.double() if dbl else geo
                r, t = model(pc, tilts, (10, 14))
                for ps, ss in pairs:
                    for pdt in (F32, F64, torch.int64):
                        case = dict(center=pc, tilts=tilts, pixels=ps, scan=ss, geometry_double=dbl, dtype=str(pdt))
                        cx.state(*case.values())
                        p = rng.uniform(-20, 30, ps + (2,))
                        p = torch.as_tensor(p).to(pdt)
                        s = None if ss is None else torch.as_tensor(rng.uniform(-3, 3, ss + (2,))).to(F64 if pdt == F64 else F32)
                        x = cx.call(geo.project2sample, p, s, _key="project", _case=case)
                        if x is None:
                            continue
                        want = three(p.double().numpy()) @ r.T + t
                        if s is not None:
                            want = want - three(s.double().numpy())
                        cx.expect(x.shape == want.shape, "shape", f"shape {tuple(x.shape)} instead of {want.shape}", **case)
                        if x.shape != want.shape:
                            continue
                        cx.close(x.double(), want, "project", "position in the sample frame", tol=1e-3, **case)
                        y = cx.call(geo.backproject2detector, x, s, _key="back", _case=case)
                        if y is not None:
                            cx.close(y.double(), np.broadcast_to(p.double().numpy(), y.shape), "back", "back projection is not the inverse", tol=5e-3, **case)
                            y3 = geo.backproject2detector(x * 7.5, s)
                            cx.close(y3.double(), y.double(), "back-scale", "back projection depends on the length of the ray", tol=5e-3, **case)
    for shape in ((4, 6), (9, 9)):
        geo = G.EBSDGeometry(shape)
        for b in itertools.product(range(1, 11), repeat=2):
            cx.state(shape, b)
            try:
                x = geo.get_coords_sample_frame(b)
                ok = shape[0] % b[0] == 0 and shape[1] % b[1] == 0 and x.shape[-1] == 3 and x.numel() == 3 * (shape[0] // b[0]) * (shape[1] // b[1])
            except ValueError:
                ok = bool(shape[0] % b[0] or shape[1] % b[1])
            cx.expect(ok, "binning", f"binning {b} of a detector of shape {shape}")
    cx.sample(**case)


MASKS = list(itertools.product((False, True), repeat=6))


@ck.group("masks", timeout=300)
def masks(cx):
    """all optimisation masks: which components of the tuned motion act and receive gradients"""
    vec = torch.tensor([0.03, -0.05, 0.02, 0.7, -1.1, 0.4])
    for pc, tilts, shape in ((PCS[0], (0.0, 70.0, 0.0), (6, 6)), (PCS[1], (5.0, 60.0, 10.0), (6, 8))):
        r, t = model(pc, tilts, shape)
        for m in MASKS:
            for how in ("construct", "set", "set-parts"):
                case = dict(mask=m, how=how, center=pc)
                cx.state(*case.values())
                if how == "construct":
                    geo = G.EBSDGeometry(shape, tilts, pc, se3_vector=vec.clone(), opt_rots=m[:3], opt_shifts=m[3:])
                else:
                    geo = G.EBSDGeometry(shape, tilts, pc, se3_vector=vec.clone(), opt_rots=(True, False, True))
                    if how == "set":
                        cx.call(geo.set_optimizable_se3_params, m[:3], m[3:], _key="set", _case=case)
                    else:
                        cx.call(geo.set_optimizable_se3_params, opt_shifts=m[3:], _key="set", _case=case)
                        cx.call(geo.set_optimizable_se3_params, opt_rots=m[:3], _key="set", _case=case)
                # reference: the tuned motion acts on the detector before the projection
                tw = torch.as_tensor(np.array(m, float)) * vec.double()
                hat = torch.zeros(4, 4, dtype=F64)
                w = tw[:3]
                hat[0, 1], hat[0, 2], hat[1, 0], hat[1, 2], hat[2, 0], hat[2, 1] = -w[2], w[1], w[2], -w[0], -w[1], w[0]
                hat[:3, 3] = tw[3:]
                e = torch.matrix_exp(hat).numpy()
                p = grid(shape)
                want = (three(p) @ e[:3, :3].T + e[:3, 3]) @ r.T + t
                x = cx.call(geo.get_coords_sample_frame, (1, 1), _key="coordinates", _case=case)
                if x is None:
                    continue
                cx.close(x.detach().double(), want, "coordinates", "position of the pixels with the tuned motion", tol=1e-4, **case)
                cx.close(geo.backproject2detector(x.detach()).detach().double(), p, "back", "back projection with the tuned motion", tol=1e-3, **case)
                cx.expect(x.requires_grad == any(m), "grad-flag", "gradients wanted where nothing is optimised, or the reverse", **case)
                if any(m) and x.requires_grad:
                    wgt = torch.as_tensor(np.random.default_rng(1).standard_normal(want.shape)).float()
                    (gr,) = torch.autograd.grad((x * wgt).sum(), geo.se3_vector)
                    gr = gr.reshape(6).double().numpy()
                    num = np.zeros(6)
                    base = np.array(tw)
                    for c in range(6):
                        if m[c]:
                            for sgn in (1, -1):
                                h = base.copy()
                                h[c] += sgn * 1e-5
                                hh = torch.zeros(4, 4, dtype=F64)
                                hh[0, 1], hh[0, 2], hh[1, 0], hh[1, 2], hh[2, 0], hh[2, 1] = -h[2], h[1], h[2], -h[0], -h[1], h[0]
                                hh[:3, 3] = torch.as_tensor(h[3:])
                                ee = torch.matrix_exp(hh).numpy()
                                num[c] += sgn * (((three(p) @ ee[:3, :3].T + ee[:3, 3]) @ r.T + t) * wgt.double().numpy()).sum() / 2e-5
                    cx.close(gr, num, "gradient", "gradient of the tuned motion", tol=2e-3 * max(1, np.abs(num).max()), **case)
    # all sequences of two changes, each of one half, both or nothing
    halves = [None, (False, False, False), (True, False, False), (False, True, True)]
    for start in ((False,) * 6, (True,) * 6, (True, False, False, False, True, False)):
        for ch in itertools.product(itertools.product(halves, halves), repeat=2):
            cx.state(start, ch)
            geo = G.EBSDGeometry((4, 4), se3_vector=vec.clone(), opt_rots=start[:3], opt_shifts=start[3:])
            want = list(start)
            for a, b in ch:
                geo.set_optimizable_se3_params(a, b)
                if a is not None:
                    want[:3] = a
                if b is not None:
                    want[3:] = b
            ref = G.EBSDGeometry((4, 4), se3_vector=vec.clone(), opt_rots=tuple(want[:3]), opt_shifts=tuple(want[3:]))
            x, y = geo.get_coords_sample_frame((2, 2)), ref.get_coords_sample_frame((2, 2))
            cx.expect(torch.equal(x, y) and x.requires_grad == any(want), "history", "the last masks set are not the ones that act", start=start, changes=ch)
    cx.sample(mask=m, gradient=gr if any(m) else None)


@ck.group("translation", timeout=200)
def translation(cx):
    """tuning the shifts alone is the same as moving the projection centre"""
    for shape in ((6, 6), (6, 10)):
        for pc in PCS:
            for tilts in ((0.0, 70.0, 0.0), (5.0, 60.0, -4.0)):
                for s in itertools.product((-0.6, 0.0, 1.5), repeat=3):
                    cx.state(shape, pc, tilts, s)
                    a = G.EBSDGeometry(shape, tilts, pc, se3_vector=torch.tensor((0.0, 0.0, 0.0) + s), opt_shifts=(True, True, True))
                    b = G.EBSDGeometry(shape, tilts, (pc[0] - s[1] / shape[1], pc[1] - s[0] / shape[0], pc[2] + s[2] / shape[0]))
                    cx.close(a.get_coords_sample_frame((1, 1)).detach().double(), b.get_coords_sample_frame((1, 1)).double(), "shift", "shift is not a change of the projection centre", tol=2e-4, center=pc, tilts=tilts, shift=s)
    cx.sample(center=pc, shift=s)


@ck.group("bruker", timeout=200)
def bruker(cx):
    """Bruker parameters to a rigid motion and back, in both places that do it"""
    tl = [-170.0, -91.0, -70.0, -45.0, -1.0, -1e-3, 0.0, 0.5, 20.0, 60.0, 90.0, 135.0]
    sl = [-179.0, -120.0, -80.0, -10.0, -0.1, 0.0, 0.2, 5.0, 45.0, 89.0, 100.0, 150.0]
    for shape in ((60, 60), (8, 20), (1, 1)):
        for dt in (F64, F32):
            for pc in PCS:
                a, b = np.meshgrid(tl, sl, indexing="ij")
                a, b = a.ravel(), b.ravel()
                n = len(a)
                cx.states(f"{shape}{dt}", np.stack([a, b, np.full(n, pc[0]), np.full(n, pc[1]), np.full(n, pc[2])], 1))
                pcs = torch.tensor(pc, dtype=dt).expand(n, 3).clone()
                ta, tb = torch.as_tensor(a).to(dt), torch.as_tensor(b).to(dt)
                tol = (1e-9 if dt == F64 else 3e-5) * max(shape)
                for name, to, fr in (("geometry", G.bruker_geometry_to_SE3, G.bruker_geometry_from_SE3), ("fitting", F.bruker_geometries_to_SE3, F.bruker_geometry_from_SE3)):
                    case = dict(where=name, shape=shape, center=pc, dtype=str(dt))
                    out = cx.call(to, pcs, ta, tb, shape, _key=name, _case=case)
                    if out is None:
                        continue
                    r, t = out
                    want = [model(pc, (bb, -aa, 0.0), shape) for aa, bb in zip(a, b)]
                    cx.close(r.double(), np.stack([w[0] for w in want]), f"{name}-rotation", "rotation", tol=1e-9 if dt == F64 else 1e-6, **case)
                    cx.close(t.double(), np.stack([w[1] for w in want]), f"{name}-translation", "translation", tol=tol, **case)
                    kr, kt = r.clone(), t.clone()
                    back = cx.call(fr, r, t, shape, _key=name + "-back", _case=case)
                    cx.expect(torch.equal(kr, r) and torch.equal(kt, t), f"{name}-input", "input changed", **case)
                    if back is None:
                        continue
                    cx.close(back[0].double(), pcs.double(), f"{name}-center", "projection centre is not recovered", tol=1e-9 if dt == F64 else 2e-4, **case)
                    cx.close(back[1].double(), a, f"{name}-primary", "primary tilt is not recovered", tol=1e-7 if dt == F64 else 2e-2, **case)
                    cx.close(back[2].double(), b, f"{name}-secondary", "secondary tilt is not recovered", tol=1e-7 if dt == F64 else 2e-2, **case)
    cx.sample(shape=shape, primary=a[3], secondary=b[3], center=pc)


@ck.group("consistent", timeout=200)
def consistent(cx):
    """pattern centre fitting and HR-EBSD projection see the detector where the geometry has it"""
    q = np.random.default_rng(8).standard_normal((3, 4))
    q /= np.linalg.norm(q, axis=1, keepdims=True)
    qm = []
    for w, x, y, z in q:
        qm.append([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])
    qm = np.array(qm)
    f = np.eye(3) + 0.05 * np.random.default_rng(9).standard_normal((3, 3, 3))
    cpu = torch.device("cpu")
    for shape in SHAPES:
        for pc in PCS:
            for tilts in ((0.0, 70.0, 0.0), (5.0, 60.0, 10.0), (-8.0, 0.0, -3.0)):
                r, t = model(pc, tilts, shape)
                rt, tt = torch.as_tensor(r).float(), torch.as_tensor(t).float()
                for b in [d for d in divisors(shape[0]) if shape[1] % d == 0]:
                    case = dict(shape=shape, center=pc, tilts=tilts, binning=b)
                    cx.state(*case.values())
                    p = grid(shape, (b, b))
                    d = three(p) @ r.T + t
                    d /= np.linalg.norm(d, axis=1, keepdims=True)
                    px = cx.call(F.get_3D_pixel_coords, shape, cpu, b, _key="pixels", _case=case)
                    cx.close(px.double(), three(p), "pixels", "pixel coordinates", tol=1e-5, **case)
                    cx.close(F.apply_geometry(px, rt, tt).double(), d, "apply", "directions of the pixels", tol=2e-5, **case)
                    p2 = torch.as_tensor(three(p))
                    cx.close(F.apply_geometry(p2, torch.as_tensor(r), torch.as_tensor(t)), d, "apply-double", "directions of the pixels", tol=1e-11, **case)
                    dd = F.generate_dictionary_coords(p2, torch.as_tensor(q), torch.as_tensor(r), torch.as_tensor(t))
                    cx.close(dd.double(), np.einsum("qij,pj->qpi", qm, d), "dictionary-double", "rotated directions of the pixels", tol=1e-11, **case)
                    dd = F.generate_dictionary_coords(px, torch.as_tensor(q).float(), rt, tt)
                    cx.close(dd.double(), np.einsum("qij,pj->qpi", qm, d), "dictionary", "rotated directions of the pixels", tol=3e-5, **case)
                    for mask in (torch.ones(6), torch.tensor([1.0, 1, 1, 0, 0, 0])):
                        if mask[3] == 0:
                            tw = torch.zeros(3, dtype=F64)
                            rr, ts = r, np.zeros(3)
                            u = three(p) @ rr.T
                            if (np.linalg.norm(u, axis=1) < 1e-6).any():
                                continue
                            u /= np.linalg.norm(u, axis=1, keepdims=True)
                        else:
                            u = d
                        for size in (1.0, 0.01, 0.0):
                            fs = np.eye(3) + size * (f - np.eye(3))
                            w = np.einsum("qij,qjk,pk->qpi", fs, qm, u)
                            w /= np.linalg.norm(w, axis=-1, keepdims=True)
                            for dt, tol in ((F32, 2e-4), (F64, 1e-10)):
                                se3 = se3_log_map_split(torch.as_tensor(r)[None], torch.as_tensor(t)[None]).to(dt).repeat(3, 1)
                                hc = cx.call(hrebsd_coords, mask.to(dt), se3, torch.as_tensor(q).to(dt), torch.as_tensor(fs).to(dt), shape, b, cpu, dt, _key="hrebsd", _case=case)
                                if hc is not None:
                                    cx.close(hc.double(), w, "hrebsd", "directions of a deformed crystal", tol=tol, deformation=size, type=str(dt), **case)
    # coordinates that continue the pixel grid beyond the detector
    for shape in ((12, 12), (8, 20)):
        for b in (1, 2, 4):
            for lo in (0.0, 0.3, 0.45):
                for hi in (0.55, 0.8, 1.0):
                    case = dict(shape=shape, binning=b, lowest=lo, highest=hi)
                    cx.state(*case.values())
                    out = cx.call(F.get_3D_pixel_coords_with_periphery, shape, cpu, lo, hi, 0.25, 0.9, b, _key="periphery", _case=case)
                    if out is None:
                        continue
                    px, pad, bs = out
                    x = px.reshape(bs[0], bs[1], 3).double().numpy()
                    wpre, wpost, hpre, hpost = pad
                    cx.expect(bs[0] == shape[0] // b + hpre + hpost and bs[1] == shape[1] // b + wpre + wpost, "periphery-shape", "shape", **case)
                    inner = x[hpre: bs[0] - hpost, wpre: bs[1] - wpost]
                    cx.close(inner.reshape(-1, 3), three(grid(shape, (b, b))), "periphery-inner", "the detector is not in the middle", tol=1e-4, **case)
                    cx.close(np.diff(x[..., 0], axis=0), np.full((bs[0] - 1, bs[1]), float(b)), "periphery-rows", "spacing", tol=1e-4, **case)
                    cx.close(np.diff(x[..., 1], axis=1), np.full((bs[0], bs[1] - 1), float(b)), "periphery-columns", "spacing", tol=1e-4, **case)
    for shape, b in (((5, 6), 2), ((6, 5), 5), ((4, 4), 3)):
        try:
            hrebsd_coords(torch.ones(6), torch.zeros(1, 6), torch.tensor([[1.0, 0, 0, 0]]), torch.eye(3)[None], shape, b, cpu)
            ok = False
        except Exception:
            ok = True
        cx.expect(ok, "refused", f"binning {b} of {shape} accepted")
    cx.sample(**case, direction=d[0])


if __name__ == "__main__":
    ck.main()
