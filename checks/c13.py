"""C13  A master pattern gives the intensity of a direction, whatever was done with it before."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.preprocessing.clahe import clahe_grayscale
from ebsdtorch.utils.symmetry_classes import space_group_to_laue, point_group_to_laue

torch.set_num_threads(1)
F32, F64 = torch.float32, torch.float64
DEPTH = 5 if THOROUGH else 4
ck = Check("C13", bounds=f"all operation sequences up to length {DEPTH} over binning by 2 and 3, three normalisations, CLAHE, type changes and interpolation with every binning; all lattice directions (7^3) "
           "for all hemisphere shapes 4..9 (square and oblong), both corner conventions, modes, types and layouts; all 230 space groups and 32 point groups")

V = np.array([v for v in itertools.product(range(-3, 4), repeat=3) if any(v)], float)
DIRS = V / np.linalg.norm(V, axis=1, keepdims=True)
# also directions that are next to the equator and the poles
near = []
for a in np.arange(0, 2 * np.pi, np.pi / 16) + 0.01:
    for z in (1e-3, -1e-3, 0.02, -0.02, 0.08, -0.08):
        near.append([np.cos(a) * np.sqrt(1 - z * z), np.sin(a) * np.sqrt(1 - z * z), z])
DIRS = np.concatenate([DIRS, np.array(near), [[1e-5, 2e-5, 1], [1e-5, -2e-5, -1]]])
DIRS /= np.linalg.norm(DIRS, axis=1, keepdims=True)
# directions do not have to be unit vectors
LENGTHS = torch.as_tensor(np.array([3.7, 0.3, 1.0, 1e-5, 5e4, 0.9])[np.arange(len(DIRS)) % 6])[:, None]


def square(v):
    """equal area map of a hemisphere to [-1, 1]^2 (x, y)"""
    x, y, z = v.T
    r = np.sqrt(np.clip(1 - np.abs(z), 0, None))
    swap = np.abs(y) > np.abs(x)
    big, sml = np.where(swap, y, x), np.where(swap, x, y)
    s = np.where(big < 0, -1.0, 1.0)
    a = s * r
    b = s * r * (4 / np.pi) * np.arctan2(sml * s, np.abs(big))
    return np.stack([np.where(swap, b, a), np.where(swap, a, b)], -1)


def pixel(u, n, align):
    return (u + 1) / 2 * (n - 1) if align else ((u + 1) * n - 1) / 2


def lookup(img, v, align=False, mode="bilinear"):
    """own hemisphere image at its own pixels, edges extended; ok marks the decided entries"""
    h, w = img.shape
    q = square(v)
    x = np.clip(pixel(q[:, 0], w, align), 0, w - 1)
    y = np.clip(pixel(q[:, 1], h, align), 0, h - 1)
    if mode == "nearest":
        ok = (np.abs(x - np.floor(x) - 0.5) > 2e-3) & (np.abs(y - np.floor(y) - 0.5) > 2e-3)
        return img[np.round(y).astype(int), np.round(x).astype(int)], ok
    x0, y0 = np.minimum(np.floor(x).astype(int), w - 1), np.minimum(np.floor(y).astype(int), h - 1)
    x1, y1 = np.minimum(x0 + 1, w - 1), np.minimum(y0 + 1, h - 1)
    fx, fy = x - x0, y - y0
    val = img[y0, x0] * (1 - fx) * (1 - fy) + img[y0, x1] * fx * (1 - fy) + img[y1, x0] * (1 - fx) * fy + img[y1, x1] * fx * fy
    return val, np.ones(len(v), bool)


def reference(pat, v, align=False, mode="bilinear"):
    """(value, alternative, decided): on the equator either hemisphere will do"""
    w = pat.shape[1] // 2
    n, ok1 = lookup(pat[:, :w], v, align, mode)
    s, ok2 = lookup(pat[:, w:], v, align, mode)
    up, eq = v[:, 2] > 0, np.abs(v[:, 2]) < 1e-6
    a = np.where(up, n, s)
    return a, np.where(eq, np.where(up, s, n), a), ok1 & ok2


def pooled(pat, f):
    w = pat.shape[1] // 2
    out = []
    for im in (pat[:, :w], pat[:, w:]):
        h, ww = im.shape[0] // f, im.shape[1] // f
        out.append(im[: h * f, : ww * f].reshape(h, f, ww, f).mean((1, 3)))
    return np.concatenate(out, 1)


def image(h, w, s):
    g = np.random.default_rng(s)
    return g.random((h, 2 * w))


def judge(cx, got, pat, key, case, align=False, mode="bilinear", tol=2e-5, v=DIRS):
    if got is None:
        return
    a, b, ok = reference(pat, v, align, mode)
    g = got.double().reshape(-1).numpy()
    e = np.minimum(np.abs(g - a), np.abs(g - b))
    scale = max(1.0, np.abs(pat).max())
    # 1 - |z| of single precision directions is only known to 6e-8 next to the poles
    lim = (1e-9 if got.dtype == F64 and key in ("value", "scaled", "unit", "binned") and "operations" not in case else tol) + (0 if got.dtype == F64 else 1.0) * 1e-3 * (np.abs(v[:, 2]) > 0.99999) * pat.shape[0]
    cx.expect_all((e < lim * scale)[ok], key, "intensity of a direction", rows=v[ok], **case)


def hist(a, b):
    @ck.group(f"histories-{a}{b}", timeout=600)
    def g(cx):
        """all operation sequences; the pattern after each operation is followed by the model"""
        sizes = [(6, 6), (12, 6)]
        sub = DIRS[::7]
        for (h, w) in sizes[: 2 if THOROUGH else 1]:
            start = torch.as_tensor(image(h, w, 5)).float()
            for seq in itertools.product(OPS, repeat=DEPTH - 2):
                ops = (a, b) + seq
                if ops[-1] not in ("i1", "i2", "i3"):
                    continue
                cx.state(h, w, ops)
                keep = start.clone()
                mp = MasterPattern(start, laue_group=11)
                model = start.double().numpy()
                case = dict(operations=ops, shape=(h, w))
                dt = F32
                for op in ops:
                    if op[0] == "b":
                        cx.call(mp.bin, int(op[1]), _key="bin", _case=case)
                    elif op[0] == "i":
                        f = int(op[1])
                        got = cx.call(mp.interpolate, torch.as_tensor(sub).to(dt), virtual_binning=f, _key="interpolate", _case=case)
                        judge(cx, got, pooled(model, f) if f > 1 else model, "interpolate", case, v=sub, tol=3e-5)
                    elif op[0] == "n":
                        kind = {"m": "minmax", "z": "zeromean", "s": "standard"}[op[1]]
                        cx.call(mp.normalize, kind, _key="normalize", _case=case)
                        new = mp.master_pattern.double().numpy()
                        model = check_norm(cx, kind, model, new, case)
                    elif op == "cl":
                        if model.min() < 0 or model.max() > 1:
                            continue
                        cx.call(mp.apply_clahe, 4.0, 16, (2, 3), _key="clahe", _case=case)
                        want = clahe_grayscale(torch.as_tensor(model).to(dt)[None, None], 4.0, 16, (2, 3))[0, 0]
                        cx.close(mp.master_pattern.double(), want.double(), "clahe", "CLAHE of the master pattern", tol=1e-3, **case)
                        model = mp.master_pattern.double().numpy().copy()
                    elif op == "dd":
                        dt = F64 if dt == F32 else F32
                        mp = mp.to(dt)
                cx.expect(torch.equal(keep, start), "aliasing", "the tensor of the caller was changed", **case)
                if not torch.equal(keep, start):
                    start = keep
        cx.sample(**case)


def check_norm(cx, kind, old, new, case):
    if kind == "minmax":
        want = (old - old.min()) / (old.max() - old.min())
        tol = 2e-3 / max(old.max() - old.min(), 1e-3)
    elif kind == "zeromean":
        want, tol = old - old.mean(), 1e-5
    else:
        want, tol = (old - old.mean()) / old.std(), 0.02
    cx.close(new, want, "normalize", f"normalisation {kind}", tol=tol, rtol=1e-3, **case)
    if kind == "standard":
        cx.expect(abs(new.std(ddof=1) - 1) < 0.02 and abs(new.mean()) < 1e-4, "standard", "mean 0 and deviation 1", **case)
    return new.copy()


OPS = ("b2", "b3", "nm", "nz", "ns", "cl", "dd", "i1", "i2", "i3")
if THOROUGH:
    for a in OPS:
        for b in OPS:
            hist(a, b)
else:
    for a in ("b2", "b3", "nm", "ns", "cl", "dd", "i2", "i3"):
        for b in ("b2", "nm", "nz", "cl", "dd", "i2", "i3"):
            hist(a, b)


@ck.group("directions", timeout=600)
def directions(cx):
    """every hemisphere shape, convention, mode and type"""
    for h in range(4, 10):
        for w in ((h,) if not THOROUGH else range(4, 10)) + ((4,) if h > 5 and not THOROUGH else ()) if not THOROUGH else range(4, 10):
            pat = image(h, w, h * 10 + w)
            for dt in (F32, F64):
                p = torch.as_tensor(pat).to(dt)
                mps = {"side": MasterPattern(p, laue_group=11), "tuple": MasterPattern((p[:, :w], p[:, w:]), laue_group=11)}
                for nm, mp in mps.items():
                    for align in (False, True):
                        for mode in ("bilinear", "nearest"):
                            case = dict(shape=(h, w), dtype=str(dt), align=align, mode=mode, given=nm)
                            cx.state(*case.values())
                            v = torch.as_tensor(DIRS).to(dt)
                            got = cx.call(mp.interpolate, v, mode=mode, align_corners=align, _key="interpolate", _case=case)
                            judge(cx, got, p.double().numpy(), "value", case, align, mode)
                            scaled = cx.call(mp.interpolate, v * LENGTHS.to(dt), mode=mode, align_corners=align, _key="interpolate", _case=case)
                            judge(cx, scaled, p.double().numpy(), "scaled", case, align, mode)
                            raw = cx.call(mp.interpolate, v, mode=mode, align_corners=align, normalize_coords=False, _key="interpolate", _case=case)
                            judge(cx, raw, p.double().numpy(), "unit", case, align, mode)
                    for f in (2, 3, 4):
                        if h % f == 0 and w % f == 0:
                            cx.state(h, w, dt, nm, f)
                            m2 = MasterPattern(p, laue_group=11)
                            got = cx.call(m2.interpolate, v, virtual_binning=f, _key="binned")
                            judge(cx, got, pooled(p.double().numpy(), f), "binned", dict(shape=(h, w), binning=f))
    cx.sample(shape=(h, w), direction=DIRS[5], value=got.reshape(-1)[5] if got is not None else None)


@ck.group("constant", timeout=300)
def constant(cx):
    """nothing of the other hemisphere leaks in, for every shape and binning factor"""
    for h in range(4, 12):
        for w in range(4, 12):
            p = torch.cat([torch.full((h, w), 1.0), torch.full((h, w), -2.0)], 1)
            for f in (1, 2, 3, 4):
                for align in (False, True) if f == 1 else (False,):
                    cx.state(h, w, f, align)
                    mp = MasterPattern(p, laue_group=2)
                    got = cx.call(mp.interpolate, torch.as_tensor(DIRS).float(), virtual_binning=f, align_corners=align, _key="constant")
                    if got is None:
                        continue
                    up, eq = DIRS[:, 2] > 0, np.abs(DIRS[:, 2]) < 1e-6
                    g = got.double().numpy()
                    ok = np.where(eq, np.minimum(np.abs(g - 1), np.abs(g + 2)), np.abs(g - np.where(up, 1.0, -2.0))) < 1e-3
                    cx.expect_all(ok, "leak", "intensity of a constant hemisphere", rows=DIRS, shape=(h, w), binning=f, align=align)
    cx.sample(shape=(h, w), values=got[:5])


@ck.group("layouts", timeout=300)
def layouts(cx):
    """any number, shape and memory layout of directions"""
    p = torch.as_tensor(image(7, 7, 3)).float()
    mp = MasterPattern(p, laue_group=11)
    ref = mp.interpolate(torch.as_tensor(DIRS).float())
    judge(cx, ref, p.double().numpy(), "flat", {})
    for n in range(1, len(DIRS) if THOROUGH else 200):
        cx.state("n", n)
        got = cx.call(mp.interpolate, torch.as_tensor(DIRS[:n]).float(), _key="count", _case=n)
        cx.close(got, ref[:n], "count", "depends on the number of directions", tol=1e-5, n=n)
    d = torch.as_tensor(DIRS[:360]).float()
    shapes = [s for k in (1, 2, 3, 4) for s in itertools.product((1, 2, 3, 5, 6, 10, 12, 360, 72), repeat=k) if np.prod(s) == 360]
    for s in shapes:
        t = d.reshape(*s, 3)
        r = ref[:360].reshape(s)
        for perm in itertools.permutations(range(len(s))):
            cx.state("shape", s, perm)
            keep = t.clone()
            got = cx.call(mp.interpolate, t.permute(*perm, len(s)), _key="permuted", _case=dict(shape=s, perm=perm))
            cx.expect(got is not None and got.shape == r.permute(*perm).shape and torch.allclose(got, r.permute(*perm), atol=1e-5), "permuted", "permuted directions give other values", shape=s, perm=perm)
            # components stored first
            q = t.movedim(-1, 0).contiguous().movedim(0, -1).permute(*perm, len(s))
            got = cx.call(mp.interpolate, q, normalize_coords=False, _key="planar", _case=dict(shape=s, perm=perm))
            cx.expect(got is not None and got.shape == r.permute(*perm).shape and torch.allclose(got, r.permute(*perm), atol=1e-5), "planar", "planar directions give other values", shape=s, perm=perm)
            cx.expect(torch.equal(keep, t), "aliasing", "the directions were changed", shape=s)
    cx.sample(shapes=len(shapes))


SG = [(2, 1), (15, 2), (74, 3), (88, 4), (142, 5), (148, 6), (167, 7), (176, 8), (194, 9), (206, 10), (230, 11)]
PG = {1: "1 1-", 2: "2 m 2/m", 3: "222 mm2 mmm", 4: "4 4- 4/m", 5: "422 4mm 4-2m 4/mmm", 6: "3 3-", 7: "32 3m 3-m", 8: "6 6- 6/m", 9: "622 6mm 6-m2 6/mmm", 10: "23 m3-", 11: "432 4-3m m3-m"}


@ck.group("symmetry", timeout=200)
def symmetry(cx):
    p = torch.rand(4, 8)
    for sg in range(1, 231):
        cx.state("sg", sg)
        want = next(l for last, l in SG if sg <= last)
        cx.expect(MasterPattern(p, space_group=sg).laue_group == want == space_group_to_laue(sg), "space-group", f"Laue group of space group {sg}", sg=sg)
    for l, names in PG.items():
        for n in names.split():
            cx.state("pg", n)
            cx.expect(MasterPattern(p, point_group=n).laue_group == l == point_group_to_laue(n), "point-group", f"Laue group of {n}", pg=n)
    for l in range(1, 12):
        cx.expect(MasterPattern(p, laue_group=l).laue_group == l, "laue", "Laue group", laue=l)
    bad = [dict(), dict(laue_group=1, space_group=1), dict(laue_group=1, point_group="1"), dict(point_group="1", space_group=1), dict(laue_group=1, point_group="1", space_group=1),
           dict(space_group=0), dict(space_group=231), dict(space_group=-5), dict(point_group="5"), dict(point_group="")]
    for kw in bad:
        cx.state("bad", sorted(kw.items()))
        try:
            MasterPattern(p, **kw)
            ok = False
        except Exception:
            ok = True
        cx.expect(ok, "refused", f"{kw} accepted", arguments=kw)
    for shape in ((3,), (2, 3, 4)):
        try:
            MasterPattern(torch.rand(*shape), laue_group=1)
            ok = False
        except ValueError:
            ok = True
        cx.expect(ok, "dims", f"pattern of shape {shape} accepted")
    for nt in ("minmax ", "", "max"):
        m = MasterPattern(p.clone(), laue_group=1)
        try:
            m.normalize(nt)
            ok = False
        except ValueError:
            ok = torch.equal(m.master_pattern, p)
        cx.expect(ok, "norm", f"normalisation {nt!r} accepted")
    cx.sample(space_group=230, laue=11)


@ck.group("scales", timeout=100)
def scales(cx):
    """mean 0 and deviation 1 whatever the unit of the intensities"""
    for h, w in ((4, 4), (5, 8), (9, 6)):
        for s in range(4):
            p = np.random.default_rng(s).standard_normal((2, h, w)) * 0.5 + s
            for unit in (1e-6, 1e-4, 1e-2, 1.0, 1e2, 1e4, 1e6):
                for off in (0.0, 1.0, -30.0):
                    x = torch.as_tensor((p + off) * unit).float()
                    mp = MasterPattern((x[0].clone(), x[1].clone()), laue_group=11)
                    cx.state(h, w, s, unit, off)
                    cx.call(mp.normalize, "standard", _key="scales")
                    q = x.double().numpy()
                    whole = np.concatenate([q[0], q[1]], 1)
                    want = (whole - whole.mean()) / whole.std()
                    # the deviation may be of the sample or of the whole: they differ by less than 2%
                    judge2 = want.max() - want.min()
                    m = mp.master_pattern.double().numpy().ravel()
                    cx.expect(np.isfinite(m).all() and abs(m.mean()) < 2e-4 and abs(m.std() - 1) < 0.02 and m.max() - m.min() < judge2 * 1.02, "scales", "mean 0 and deviation 1 in any unit", shape=(h, w), s=s, unit=unit, offset=off, mean=float(m.mean()), std=float(m.std()))
    cx.sample(unit=unit, std=float(m.std()))


@ck.group("nothing", timeout=60)
def nothing(cx):
    """no directions give no values, before and after other lookups"""
    pat = image(6, 6, 1)
    m = MasterPattern(torch.as_tensor(pat), laue_group=1)
    for k, shape in enumerate(((0, 3), (2, 0, 3), (0, 5, 3), (1, 3), (0, 3), (3, 0, 2, 3))):
        for mode, b in (("bilinear", 1), ("nearest", 1), ("bilinear", 2)):
            cx.state("nothing", k, mode, b)
            o = cx.call(m.interpolate, torch.ones(shape, dtype=torch.float64), mode=mode, virtual_binning=b, _key="nothing", _case=dict(shape=list(shape)))
            cx.expect(tuple(o.shape) == shape[:-1], "nothing-shape", "shape of no values", shape=list(shape), got=list(o.shape))


if __name__ == "__main__":
    ck.main()
