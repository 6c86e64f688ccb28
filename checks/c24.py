"""C24  Preprocessing: NLPAR, CLAHE, blur and masks do to every pattern what they are defined to do."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.preprocessing.nlpar import nlpar
from ebsdtorch.preprocessing.clahe import clahe_grayscale
from ebsdtorch.preprocessing.resampling import GaussianBlur2d, BlurAndDownsample
from ebsdtorch.preprocessing.radial_mask import get_radial_mask

torch.set_num_threads(1)
F32, F64 = torch.float32, torch.float64
LABELSHAPE = (3, 3) if THOROUGH else (2, 3)
ck = Check("C24", bounds=f"NLPAR: all scans up to {'5x5' if THOROUGH else '4x4'}, all assignments of two grains to a {LABELSHAPE[0]}x{LABELSHAPE[1]} scan, all partitions of 5 positions into identical patterns, radius 1 to 3, coefficients inside and outside of the reachable range; "
           "CLAHE: all image shapes 4..9 x tile grids x bins x clip limits x batch shapes; blur: all shapes and widths; masks: all shapes 1..12")


def grains(h, w, labels, noise, mean, seed, p=(9, 8)):
    u = np.random.default_rng(seed)
    base = u.standard_normal((4,) + p)
    return base[np.asarray(labels).reshape(h, w)] + noise * u.standard_normal((h, w) + p) + mean


MARK = 1e-5


def mark(x):
    """the first pixels of every pattern tell which pattern it is: they show the weights"""
    h, w, a, b = x.shape
    n = h * w
    y = x.reshape(n, -1).copy()
    assert y.shape[1] >= n
    y[:, :n] = MARK * np.eye(n)
    return y.reshape(x.shape)


def weights_of(cx, x, case, **kw):
    n = x.shape[0] * x.shape[1]
    out = cx.call(nlpar, torch.as_tensor(x), _key="nlpar", _case=case, **kw)
    if out is None:
        return None, None
    cx.expect(out.shape == x.shape and out.dtype == F64, "shape", "shape or type of the result", **case)
    return out.numpy(), out.reshape(n, -1)[:, :n].numpy() / MARK


def reference(x, k, coeff, bias=0.0):
    """weights by the definition: noise from the nearest of the 8 neighbours, one width for the scan"""
    h, w = x.shape[:2]
    n = x.shape[2] * x.shape[3]
    d = x.reshape(h * w, -1)
    d2 = ((d[:, None] - d[None]) ** 2).sum(-1)
    ij = np.stack(np.meshgrid(range(h), range(w), indexing="ij"), -1).reshape(-1, 2)
    che = np.abs(ij[:, None] - ij[None]).max(-1)
    s2 = np.where(che == 1, d2, np.inf).min(1) / (2 * n) if h * w > 1 else np.zeros(1)
    s = s2[:, None] + s2[None]
    num = d2 - n * s
    z = np.where(s > 0, num / np.where(s > 0, np.sqrt(2 * n) * s, 1), np.where(num > 0, np.inf, 0.0))
    z = np.maximum(z, 0)

    def share(t):
        e = np.where(che <= 1, np.exp(-z / t), 0)
        return float((np.diag(e) / e.sum(1)).mean())

    lo, hi = 1e-9, 1e9
    for _ in range(200):
        m = math.sqrt(lo * hi)
        lo, hi = (m, hi) if share(m) > coeff else (lo, m)
    reach = share(1e-9), share(1e9)
    e = np.where(che <= k, np.exp(-z / lo + bias * np.eye(h * w)), 0)
    return e / e.sum(1, keepdims=True), reach, z, che, share


def judge(cx, x, k, coeff, case, bias=0.0):
    kw = dict(k_rad=k, coeff=coeff, **({"center_logit_bias": bias} if bias else {}))
    keep = x.copy()
    out, wt = weights_of(cx, x, case, **kw)
    cx.expect(np.array_equal(keep, x), "input", "the input was changed", **case)
    if out is None:
        return
    h, w = x.shape[:2]
    ref, (top, bottom), z, che, share = reference(x, k, coeff, bias)
    if not cx.expect(np.isfinite(out).all(), "finite", "result is not finite", **case):
        return
    cx.close(wt.sum(1), np.ones(h * w), "sum", "weights do not add up to one", tol=1e-5, **case)
    cx.expect(wt.min() > -1e-6, "sign", "negative weight", **case)
    cx.expect(np.abs(np.where(che > k, wt, 0)).max() < 1e-6, "window", "a pattern outside of the window takes part", **case)
    cx.close(out.reshape(h * w, -1), wt @ x.reshape(h * w, -1), "average", "result is not the weighted average", tol=1e-4 * max(1, np.abs(x).max()), **case)
    # a distance next to zero can be on either side of the clamp, and far from the reachable range the width is arbitrary
    if bottom + 1e-3 < coeff < top - 1e-3:
        cx.close(wt, ref, "weights", "weights are not those of the definition", tol=2e-3, **case)
        if not bias and k == 1:
            cx.close(np.diag(wt).mean(), coeff, "coefficient", "mean weight of the original pattern", tol=1e-3, **case)
    elif coeff <= bottom - 1e-3 and not bias:
        flat = (che <= k) & np.isfinite(z)
        flat = flat / flat.sum(1, keepdims=True)
        if np.isfinite(z).all() and z.max() < 1e4:
            cx.close(wt, flat, "flat", "weights are not equal for an unreachably small coefficient", tol=5e-3, **case)
    elif coeff >= top + 1e-3 and not bias:
        # equal up to rounding or not: only clearly different patterns are decided
        cx.expect(float(np.where((z > 1e-2) & (che <= k), wt, 0).max()) < 5e-3, "hard", "different patterns are averaged for an unreachably large coefficient", **case)


SIZES = [(1, 1), (1, 2), (1, 5), (2, 1), (2, 2), (3, 2), (3, 3), (3, 4), (4, 4)] + ([(5, 5), (2, 7), (6, 3)] if THOROUGH else [])


def weights(mean):
    @ck.group(f"nlpar-weights-{mean:g}", timeout=400)
    def g(cx):
        """scan shapes, radii, coefficients, noise"""
        for (h, w), k, noise, coeff in itertools.product(SIZES, (1, 2, 3), (0.05, 0.3, 1.5), (0.05, 0.2, 0.375, 0.6, 0.75, 0.97)):
            for seed in range(3 if THOROUGH else 1):
                case = dict(scan=(h, w), radius=k, noise=noise, coeff=coeff, mean=mean, seed=seed)
                cx.state(*case.values())
                lab = (np.arange(h)[:, None] + 2 * np.arange(w)[None]) // 3 % 3
                x = mark(grains(h, w, lab, noise, mean, seed + 10))
                judge(cx, x, k, coeff, case)
                if seed == 0 and coeff == 0.375:
                    judge(cx, x, k, coeff, dict(case, bias=1.5), bias=1.5)
        cx.sample(**case)


for m_ in (0.0, 5.0, 300.0):
    weights(m_)


@ck.group("nlpar-grains", timeout=400)
def nlpar_grains(cx):
    """all assignments of two grains: patterns of another grain hardly count"""
    h, w = LABELSHAPE
    for lab in itertools.product((0, 1), repeat=h * w):
        for k in (1, 2):
            case = dict(labels=lab, radius=k)
            cx.state(*case.values())
            x = mark(grains(h, w, lab, 0.1, 1.0, 3))
            judge(cx, x, k, 0.375, case)
    cx.sample(**case)


@ck.group("nlpar-identical", timeout=400)
def nlpar_identical(cx):
    """all partitions of the positions into identical patterns (dead or saturated patterns)"""
    u = np.random.default_rng(4)
    base = u.standard_normal((6, 5, 4))
    def partitions(n):
        def rec(i, cur, mx):
            if i == n:
                yield tuple(cur)
                return
            for c in range(mx + 2):
                yield from rec(i + 1, cur + [c], max(mx, c))
        yield from rec(0, [], -1)
    for (h, w), k, coeff in itertools.product(((1, 5), (5, 1)) + (((2, 3),) if THOROUGH else ()), (1, 2), (0.2, 0.375, 0.8)):
        for lab in partitions(h * w):
            for zero in (False, True):
                case = dict(scan=(h, w), labels=lab, radius=k, coeff=coeff, first_is_black=zero)
                cx.state(*case.values())
                b = base.copy()
                if zero:
                    b[0] = 0
                x = b[np.array(lab).reshape(h, w)]
                y = cx.call(nlpar, torch.as_tensor(x), k_rad=k, coeff=coeff, _key="identical", _case=case)
                if y is None:
                    continue
                y = y.numpy()
                if not cx.expect(np.isfinite(y).all(), "identical-finite", "result is not finite", **case):
                    continue
                lo, hi = x.min((0, 1)), x.max((0, 1))
                cx.expect((y >= lo - 1e-5).all() and (y <= hi + 1e-5).all(), "identical-range", "result leaves the range of the patterns", **case)
                if len(set(lab)) == 1:
                    cx.close(y, x, "identical-same", "a scan of equal patterns is changed", tol=1e-5, **case)
    cx.sample(**case)


@ck.group("nlpar-symmetry", timeout=400)
def nlpar_symmetry(cx):
    """mirrored and transposed scans, permuted pixels, gain, offset, types and layouts"""
    for (h, w), k, noise, mean in itertools.product(((3, 4), (1, 6), (4, 4)), (1, 2, 3), (0.2, 1.0), (0.0, 2.0)):
        lab = (np.arange(h)[:, None] + 2 * np.arange(w)[None]) // 3 % 2
        x = torch.as_tensor(grains(h, w, lab, noise, mean, 7))
        def f(z, **kw):
            return cx.call(nlpar, z, k_rad=k, coeff=0.4, _key="symmetry", _case=dict(scan=(h, w), radius=k), **kw)
        y = f(x)
        perm = torch.as_tensor(np.random.default_rng(1).permutation(9 * 8))
        trans = {
            "rows": (lambda z: z.flip(0)), "columns": (lambda z: z.flip(1)), "turn": (lambda z: z.flip(0, 1)), "transpose": (lambda z: z.transpose(0, 1)),
            "pixels": (lambda z: z.reshape(z.shape[0], z.shape[1], -1)[..., perm].reshape(z.shape)), "pattern-transpose": (lambda z: z.transpose(2, 3)), "gain": (lambda z: z * 100), "small": (lambda z: z * 0.01), "tiny": (lambda z: z * 1e-6), "huge": (lambda z: z * 1e6), "negative": (lambda z: -z), "offset": (lambda z: z + 3.0),
        }
        for nm, t in trans.items():
            cx.state(h, w, k, noise, mean, nm)
            case = dict(scan=(h, w), radius=k, noise=noise, mean=mean, change=nm)
            r = f(t(x))
            if r is not None and y is not None:
                s = {"gain": 100, "small": 0.01, "tiny": 1e-6, "huge": 1e6}.get(nm, 1)
                cx.close(r / s, t(y) / s, "equivariant", f"result does not follow the change of the scan: {nm}", tol=3e-3, **case)
        r = f(x.float())
        cx.expect(r.dtype == F32, "type", "type of the result")
        cx.close(r.double(), y, "float", "single precision result", tol=3e-3, scan=(h, w), radius=k)
    cx.sample(scan=(h, w), radius=k)


# ---------------------------------------------------------------- CLAHE
def clahe_ref(img, clip, bins, grid):
    """per tile: histogram, clipping with redistribution, distribution function; trilinear lookup"""
    h, w = img.shape
    gh, gw = grid
    ph, pw = (-h) % gh, (-w) % gw
    pad = np.pad(img, ((0, ph), (0, pw)), mode="reflect")
    th, tw = pad.shape[0] // gh, pad.shape[1] // gw
    n = th * tw
    cdf = np.zeros((gh, gw, bins))
    for a in range(gh):
        for b in range(gw):
            t = pad[a * th : (a + 1) * th, b * tw : (b + 1) * tw].ravel()
            hist = np.zeros(bins)
            for v in t:
                hist[int(v * (bins - 1))] += 1
            if clip > 0:
                lim = max(clip * n // bins, 1)
                cut = np.minimum(hist, lim)
                excess = int(round(n - cut.sum()))
                cut += excess // bins
                cut[: excess % bins] += 1
                hist = cut
            cdf[a, b] = np.clip(np.cumsum(hist) / n, 0, 1)

    def axis(pos, size):
        pos = np.clip(pos, 0, size - 1)
        i0 = np.minimum(np.floor(pos).astype(int), size - 1)
        i1 = np.minimum(i0 + 1, size - 1)
        return i0, i1, pos - i0

    yy = np.linspace(0, 1, h) * gh - 0.5 if h > 1 else np.array([-0.5])
    xx = np.linspace(0, 1, w) * gw - 0.5 if w > 1 else np.array([-0.5])
    a0, a1, fa = axis(yy[:, None] + 0 * img, gh)
    b0, b1, fb = axis(xx[None] + 0 * img, gw)
    c0, c1, fc = axis(img * bins - 0.5, bins)
    out = 0
    for a, wa in ((a0, 1 - fa), (a1, fa)):
        for b, wb in ((b0, 1 - fb), (b1, fb)):
            for c, wc in ((c0, 1 - fc), (c1, fc)):
                out = out + wa * wb * wc * cdf[a, b, c]
    return out, n


def image(shape, bins, kind, seed):
    """values away from the borders between bins, so that rounding decides nothing"""
    u = np.random.default_rng(seed)
    k = {"even": lambda: u.integers(0, bins - 1, shape), "dark": lambda: (u.random(shape) ** 4 * (bins - 1)).astype(int), "two": lambda: u.integers(0, 2, shape) * (bins - 2), "ramp": lambda: np.arange(np.prod(shape)).reshape(shape) * (bins - 1) // int(np.prod(shape))}[kind]()
    return (k + u.uniform(0.1, 0.9, shape)) / (bins - 1)


GRIDS = [(1, 1), (2, 2), (1, 3), (3, 1), (2, 3), (4, 4)]


def clahe(h):
    @ck.group(f"clahe-{h}", timeout=300)
    def g(cx):
        """all widths, tile grids, numbers of bins and clip limits"""
        for w, grid, bins, clip, kind in itertools.product(range(4, 10), GRIDS, (8, 16, 64), (0.0, 1.0, 2.5, 40.0), ("even", "dark", "two", "ramp")):
            if (-h) % grid[0] >= h or (-w) % grid[1] >= w or math.ceil(h / grid[0]) * grid[0] - h >= h:
                continue
            if not THOROUGH and (w * 7 + bins + int(clip * 2) + len(kind) + grid[0]) % 3:
                continue
            case = dict(shape=(h, w), grid=grid, bins=bins, clip=clip, image=kind)
            cx.state(*case.values())
            im = image((h, w), bins, kind, 5)
            want, n = clahe_ref(im, clip, bins, grid)
            for dt in (F32, F64):
                x = torch.as_tensor(im).to(dt)[None, None]
                keep = x.clone()
                y = cx.call(clahe_grayscale, x, clip_limit=clip, n_bins=bins, grid_shape=grid, _key="clahe", _case=case)
                if y is None:
                    continue
                cx.expect(torch.equal(keep, x), "input", "input changed", **case)
                cx.expect(y.shape == x.shape and y.dtype == dt, "shape", "shape or type", **case)
                cx.expect(bool((y >= -1e-6).all() and (y <= 1 + 1e-6).all()), "range", "result leaves [0, 1]", **case)
                # counts are whole numbers up to rounding: one count may move
                cx.close(y[0, 0].double(), want, "value", "contrast is not the clipped equalisation", tol=1.01 / n + 1e-4 if clip > 0 else 1e-4, **case)
                cx.expect(float((y[0, 0].double() - torch.as_tensor(want)).abs().mean()) < 0.3 / n + 1e-4, "mean-value", "contrast is not the clipped equalisation", **case)
        cx.sample(**case)


for h_ in range(4, 10):
    clahe(h_)


@ck.group("clahe-batches", timeout=300)
def clahe_batches(cx):
    """images of a batch do not influence each other, layouts do not matter, more light gives more light"""
    for shape, grid, bins, clip in itertools.product(((6, 8), (9, 7)), GRIDS, (16, 64), (0.0, 2.0, 40.0)):
        if (-shape[0]) % grid[0] >= shape[0]:
            continue
        ims = torch.as_tensor(np.stack([image(shape, bins, k, s) for s in (1, 2) for k in ("even", "dark", "two")])).float()
        def f(x):
            return cx.call(clahe_grayscale, x, clip_limit=clip, n_bins=bins, grid_shape=grid, _key="batch", _case=dict(shape=tuple(x.shape), grid=grid, bins=bins, clip=clip))
        single = [f(i[None, None]) for i in ims]
        if any(s is None for s in single):
            continue
        single = torch.stack([s[0, 0] for s in single])
        for order in itertools.permutations(range(4), 3):
            cx.state(shape, grid, bins, clip, order)
            o = list(order)
            y = f(ims[o][:, None])
            cx.close(y[:, 0], single[o], "batch", "an image depends on the rest of the batch", tol=1e-6, shape=shape, grid=grid, bins=bins, clip=clip, order=order)
        case = dict(shape=shape, grid=grid, bins=bins, clip=clip)
        y = f(ims.reshape(2, 3, *shape))
        cx.close(y.reshape(6, *shape), single, "channels", "channels are mixed", tol=1e-6, **case)
        big = torch.zeros(6, 1, 2 * shape[0], 2 * shape[1])
        big[..., ::2, ::2] = ims[:, None]
        cx.close(f(big[..., ::2, ::2])[:, 0], single, "strided", "depends on the layout", tol=1e-6, **case)
        t = ims.transpose(1, 2).contiguous()
        cx.close(f(t.transpose(1, 2)[:, None])[:, 0], single, "transposed", "depends on the layout", tol=1e-6, **case)
        tg = clahe_grayscale(t[:, None], clip_limit=clip, n_bins=bins, grid_shape=(grid[1], grid[0]))
        cx.close(tg[:, 0].transpose(1, 2), single, "transpose", "rows and columns are treated differently", tol=1e-5, **case)
        # pixels of one tile grid 1x1: monotone
        if grid == (1, 1):
            for im, y in zip(ims, single):
                o = torch.argsort(im.flatten())
                cx.expect(bool((y.flatten()[o].diff() > -1e-5).all()), "monotone", "a brighter pixel becomes darker", **case)
        for v in (0.0, 0.31, 0.999, 1.0):
            c = f(torch.full((1, 1) + shape, v))
            cx.expect(float(c.max() - c.min()) < 1e-5, "constant", "a constant image does not stay constant", value=v, **case)
    cx.sample(**case)


# ---------------------------------------------------------------- resampling and masks
@ck.group("blur", timeout=300)
def blur(cx):
    """Gaussian blur: every shape and width; downsampling"""
    wide = itertools.product((1.5, 2.5, 3.5, 4.0, 5.5, 6.5, 8.0), (60, 61), (57, 64), (True, False))
    for sigma, h, w, reflect in itertools.chain(itertools.product((0.3, 0.5, 2 / 3, 0.7, 1.0, 4 / 3), range(9, 15), range(9, 15), (True, False)), wide):
        case = dict(sigma=sigma, shape=(h, w), reflect=reflect)
        cx.state(*case.values())
        g = cx.call(GaussianBlur2d, sigma, reflect_padding=reflect, _key="blur", _case=case)
        x = torch.as_tensor(np.random.default_rng(h * 20 + w).random((2, 1, h, w))).float()
        y = cx.call(g, x, _key="blur", _case=case)
        if y is None:
            continue
        if not cx.expect(y.shape == x.shape, "shape", f"shape {tuple(y.shape)}", **case):
            continue
        r = (g.kernel.shape[-1] - 1) // 2
        cx.expect(r >= 3 * sigma - 1 and r <= 3 * sigma + 1, "width", f"radius {r} of the kernel", **case)
        t = np.arange(-r, r + 1)
        k = np.exp(-(t**2) / (2 * sigma**2))
        k /= k.sum()
        p = np.pad(x[:, 0].double().numpy(), ((0, 0), (r, r), (r, r)), mode="reflect" if reflect else "constant")
        p = np.stack([p[:, i : i + h] * k[i] for i in range(2 * r + 1)]).sum(0)
        p = np.stack([p[:, :, i : i + w] * k[i] for i in range(2 * r + 1)]).sum(0)
        cx.close(y[:, 0].double(), p, "blur", "not the Gaussian average", tol=1e-5, **case)
    for f, n, m in itertools.chain(itertools.product((2.0, 3.0, 4.0, 1.5), range(8, 20), (8, 13)), itertools.product((5.0, 6.0, 8.0, 12.0, 16.0, 2.5), (40, 61), (48, 53))):
        case = dict(factor=f, shape=(n, m))
        cx.state(*case.values())
        d = BlurAndDownsample(f)
        x = torch.as_tensor(np.random.default_rng(n).random((1, 1, n, m))).float()
        y = cx.call(d, x, _key="down", _case=case)
        if y is None:
            continue
        cx.expect(tuple(y.shape[-2:]) == (int(n / f), int(m / f)), "down-shape", f"shape {tuple(y.shape)}", **case)
        for ax in ((-1,), (-2,), (-1, -2)):
            cx.close(d(x.flip(*ax)).flip(*ax), y, "mirror", "downsampling is not symmetric", tol=1e-4, **case)
        cx.close(d(x.transpose(-1, -2)).transpose(-1, -2), y, "transpose", "rows and columns are treated differently", tol=1e-4, **case)
        cx.close(d(torch.full_like(x, 0.7)), torch.full_like(y, 0.7), "constant", "brightness changes", tol=1e-5, **case)
        # the middle of a linear ramp stays the middle
        ramp = (torch.arange(n) - (n - 1) / 2)[None, None, :, None].expand(1, 1, n, m).float()
        cx.close(float(d(ramp).mean()), 0.0, "centre", "the image is shifted", tol=1e-3, **case)
    cx.sample(**case)


@ck.group("mask", timeout=200)
def mask(cx):
    """radial masks"""
    for h, w in itertools.product(range(1, 13), repeat=2):
        i, j = np.mgrid[:h, :w].astype(float)
        for radius in (None, 0.4, 1.1, 2.3, 5.7, 30.0):
            for c in ((0.5, 0.5), (0.0, 1.0), (0.31, 0.77)):
                case = dict(shape=(h, w), radius=radius, center=c)
                cx.state(*case.values())
                m = cx.call(get_radial_mask, (h, w), radius, c, _key="mask", _case=case)
                r = min(h, w) / 2 if radius is None else radius
                d = (i - c[0] * (h - 1)) ** 2 + (j - c[1] * (w - 1)) ** 2
                ok = np.abs(d - r * r) > 1e-3
                cx.expect(m.dtype == torch.bool and tuple(m.shape) == (h, w), "mask-shape", "shape or type", **case)
                cx.expect(np.array_equal(m.numpy()[ok], (d < r * r)[ok]), "mask", "mask is not the disc", **case)
    cx.sample(**case, mask=m.numpy().astype(int))


if __name__ == "__main__":
    ck.main()
