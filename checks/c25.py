"""C25  Mutual information is the mutual information of the joint histogram."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.utils import mutual_information as MI

torch.set_num_threads(1)
F32, F64 = torch.float32, torch.float64
ck = Check("C25", bounds="all pairs of images with few pixels over 2 and 3 levels; all numbers of bins 2..9, 16, 17; all pairs of batch sizes up to 3; all normalizations and units; all pairs of masks of small images; all image shapes up to 7 x 7; every cyclic shift")
MODES = ("none", "Kvalseth Sum", "Kvalseth Min", "Kvalseth Max", "Yao", "Strehl-Ghosh", "Logarithmic")


def ent(p):
    p = p[p > 0]
    return -(p * np.log(p)).sum()


def info(h, mode="none", bits=False):
    """mutual information of a joint histogram, None where a normalization is not defined"""
    p = h / h.sum()
    a, b, j = ent(p.sum(1)), ent(p.sum(0)), ent(p)
    if bits:
        a, b, j = a / np.log(2), b / np.log(2), j / np.log(2)
    m = a + b - j
    if mode == "none":
        return m
    if min(a, b) < 1e-9:
        return None
    if mode == "Logarithmic":
        if abs(a - b) < 1e-3 and abs(a - b) > 0:
            # the formula cancels: in between lies the mean
            return m / ((a + b) / 2)
        return m / (a if a == b else (a - b) / (np.log(a) - np.log(b)))
    return {"Kvalseth Sum": lambda: 2 * m / (a + b), "Kvalseth Min": lambda: m / min(a, b), "Kvalseth Max": lambda: m / max(a, b), "Yao": lambda: m / j, "Strehl-Ghosh": lambda: m / np.sqrt(a * b)}[mode]()


def level(x, n):
    return np.minimum((np.asarray(x, float) * n).astype(int), n - 1)


def joint(a, b, na, nb, w=None):
    h = np.zeros((na, nb))
    np.add.at(h, (a.ravel(), b.ravel()), 1.0 if w is None else np.asarray(w, float).ravel())
    return h


def centers(levels, n):
    """values in the middle of their bins"""
    return (np.asarray(levels) + 0.5) / n


@ck.group("pairs", timeout=600)
def pairs(cx):
    """all pairs of images of few pixels"""
    for n, px in ((2, 4), (3, 3), (2, 5)) + (((3, 4), (4, 3)) if THOROUGH else ()):
        im = np.array(list(itertools.product(range(n), repeat=px)))
        # the histograms of (a, b) for all a in one call per b, values span the whole range
        pad = np.concatenate([im, np.tile([0, n - 1], (len(im), 1))], 1)
        for b in pad:
            case = dict(bins=n, b=b)
            cx.state("pairs", n, px, tuple(b))
            for norm in (True, False):
                x = pad / (n - 1) if norm else centers(pad, n)
                y = b / (n - 1) if norm else centers(b, n)
                bb = np.tile(y, (len(pad), 1))
                got = cx.call(MI.mutual_information, torch.as_tensor(x).float(), torch.as_tensor(bb).float(), n, norm, _key="mi", _case=case)
                if got is None:
                    continue
                # evenly spaced values over the range fall in n bins
                want = np.array([info(joint(a, b, n, n)) for a in pad])
                cx.expect_all(np.abs(got.double().numpy() - want) < 2e-5, f"value-{norm}", "mutual information of two images", rows=pad)
            cx.trans(2 * len(pad))


@ck.group("bins", timeout=300)
def bins(cx):
    """numbers of bins, batch broadcasting, dtypes, constant images and symmetry of the metric"""
    for n, b1, b2, dt in itertools.product((2, 3, 4, 5, 8, 9, 16, 17, 64, 100), (1, 2, 3), (1, 2, 3), (F32, F64)):
        cx.state("bins", n, b1, b2, str(dt))
        case = dict(bins=n, batch=[b1, b2], dtype=str(dt))
        g = np.random.default_rng(n * 9 + b1 * 3 + b2)
        la, lb = g.integers(0, n, (b1, 40)), g.integers(0, n, (b2, 40))
        lb[:, :20] = la[:1, :20]
        a, b = torch.as_tensor(centers(la, n)).to(dt), torch.as_tensor(centers(lb, n)).to(dt)
        if b1 != b2 and 1 not in (b1, b2):
            try:
                MI.mutual_information(a, b, n, False)
                cx.expect(False, "refuse", "batches that do not fit are accepted", **case)
            except Exception:
                pass
            continue
        keep = a.clone(), b.clone()
        for norm in (False, True):
            got = cx.call(MI.mutual_information, a, b, n, norm, _key="bins", _case=case)
            if got is None:
                continue
            if norm:
                lo = lambda v: np.minimum(((v - v.min()) / (v.max() - v.min()) * n * 0.999999).astype(int), n - 1)
                ra, rb = np.stack([lo(v) for v in a.double().numpy()]), np.stack([lo(v) for v in b.double().numpy()])
            else:
                ra, rb = la, lb
            want = np.array([info(joint(ra[min(i, b1 - 1)], rb[min(i, b2 - 1)], n, n)) for i in range(max(b1, b2))])
            cx.expect(tuple(got.shape) == want.shape, f"shape-{norm}", f"shape {tuple(got.shape)}", **case)
            # values next to a border of a bin may fall on either side
            if got.shape == want.shape and (not norm):
                cx.close(got.double().numpy(), want, f"value-{norm}", "mutual information", tol=3e-5 * np.log(n + 1) + 2e-5, **case)
            back = cx.call(MI.mutual_information, b, a, n, norm, _key="bins", _case=case)
            cx.close(got.numpy(), back.numpy(), f"symmetric-{norm}", "order of the images matters", tol=1e-4, **case)
            auto = cx.call(MI.mutual_information, a, a, n, norm, _key="bins", _case=case).double().numpy()
            if not norm:
                cx.close(auto, np.array([ent(joint(x, x, n, n).sum(1) / 40) for x in la]), "self", "information of an image about itself is not its entropy", tol=1e-4, **case)
        cx.expect(torch.equal(a, keep[0]) and torch.equal(b, keep[1]), "inputs", "images changed", **case)
        cx.trans(6)
    # gain and offset do not matter with normalization, constant images tell nothing
    for n, const, gain, off in itertools.product((2, 4, 16), (None, 0.0, 0.5, 1.0, -3.0, 250.0), (1.0, 64.0), (0.0, -8.0)):
        cx.state("constant", n, const, gain, off)
        case = dict(bins=n, constant=const, gain=gain, offset=off)
        g = np.random.default_rng(n)
        l = g.integers(0, n, (2, 30))
        l[:, 0], l[:, 1] = 0, n - 1
        a = torch.as_tensor(l / (n - 1)).float()
        b = a.clone() if const is None else torch.full((2, 30), const)
        got = cx.call(MI.mutual_information, a * gain + off, b, n, True, _key="constant", _case=case)
        if got is None:
            continue
        want = [info(joint(x, x if const is None else x * 0, n, n)) for x in l]
        cx.close(got.double().numpy(), np.array(want), "gain" if const is None else "constant", "mutual information", tol=1e-4, **case)


@ck.group("binned", timeout=600)
def binned(cx):
    """histogram version: all units, normalizations, numbers of bins, exclusion of the lowest bin, batches"""
    for na, nb, mode, bits, skip in itertools.product((2, 3, 4, 8, 16), (2, 3, 5, 16), MODES, (False, True), (False, True)):
        cx.state("binned", na, nb, mode, bits, skip)
        case = dict(bins=[na, nb], mode=mode, bits=bits, exclude=skip)
        g = np.random.default_rng(na * 17 + nb)
        for b1, b2 in ((1, 1), (3, 3), (1, 3), (3, 1)):
            la, lb = g.integers(0, na, (b1, 6, 8)), g.integers(0, nb, (b2, 6, 8))
            lb[:, :3] = la[:1, :3] * nb // na
            a, b = torch.as_tensor(centers(la, na)).float(), torch.as_tensor(centers(lb, nb)).float()
            # the borders of the range
            a[la == 0], b[lb == 0] = 0.0, 0.0
            a[la == na - 1], b[lb == nb - 1] = 1.0, 1.0
            keep = a.clone(), b.clone()
            got = cx.call(MI.batch_binned_nmi, a, b, na, nb, "bits" if bits else "nats", mode, skip, _key="binned", _case=dict(case, batch=[b1, b2]))
            cx.trans()
            if got is None or not cx.expect(got.shape == (max(b1, b2),), "shape", f"{tuple(got.shape)}", **case):
                continue
            for i in range(max(b1, b2)):
                h = joint(la[min(i, b1 - 1)], lb[min(i, b2 - 1)], na, nb)
                w = info(h[1:, 1:] if skip else h, mode, bits)
                if w is not None:
                    cx.expect(abs(float(got[i]) - w) < 2e-4 * max(1, abs(w)), f"value-{mode}", f"{float(got[i]):.6f} instead of {w:.6f}", batch=[b1, b2], **case)
            cx.expect(torch.equal(a, keep[0]) and torch.equal(b, keep[1]), "inputs", "images changed", **case)
            if b1 == b2 == 1:
                one = cx.call(MI.binned_nmi, a, b, na, nb, "bits" if bits else "nats", mode, skip, _key="binned", _case=case)
                if one is not None and not np.isnan(float(got[0])):
                    cx.expect(abs(float(one) - float(got[0])) < 1e-6, "single", "single and batched versions differ", **case)
    try:
        MI.binned_nmi(torch.rand(1, 9), torch.rand(1, 9), 3, 3, "nats", "Unknown")
        cx.expect(False, "mode", "an unknown normalization is accepted")
    except Exception:
        pass


def shifted(ld, ls, nd, ns, wd=None, ws=None, mode="none"):
    """information of the overlap for every cyclic shift, no shift in the center"""
    H, W = ld.shape
    wd = np.ones((H, W)) if wd is None else wd
    ws = np.ones((H, W)) if ws is None else ws
    out = np.full((H, W), np.nan)
    for y, x in itertools.product(range(H), range(W)):
        w = np.roll(wd, (-y, -x), (0, 1)) * ws
        if w.sum():
            v = info(joint(np.roll(ld, (-y, -x), (0, 1)), ls, nd, ns, w), mode)
            out[(y + H // 2) % H, (x + W // 2) % W] = np.nan if v is None else max(v, 0)
    return out


def against(cx, got, want, key, case, tol=2e-4):
    if got is None or not cx.expect(tuple(got.shape) == want.shape, f"{key}-shape", f"map {tuple(got.shape)} instead of {want.shape}", **case):
        return
    ok = ~np.isnan(want)
    e = np.abs(got.double().numpy() - want)[ok]
    cx.expect((e < tol).all(), f"{key}-value", f"mutual information of a shift is off by {np.nanmax(e) if len(e) else 0:.3g}", **case)
    cx.trans(int(ok.sum()))


@ck.group("shifts", timeout=900)
def shifts(cx):
    """cross mutual information: all image shapes, bins, batches, normalizations at every shift"""
    shapes = [(h, w) for h in range(2, 8) for w in range(2, 8)]
    for (h, w), (nd, ns), cm in itertools.product(shapes, ((2, 2), (4, 4), (3, 5), (8, 8)) if not THOROUGH else ((2, 2), (4, 4), (3, 5), (8, 8), (9, 4), (9, 9), (16, 16)), (False, True)):
        cx.state("shift", h, w, nd, ns, cm)
        case = dict(shape=[h, w], bins=[nd, ns], constant=cm)
        g = np.random.default_rng(h * 8 + w)
        ld, ls = g.integers(0, nd, (1, h, w)), g.integers(0, ns, (2, h, w))
        d, s = torch.as_tensor(centers(ld, nd)).float(), torch.as_tensor(centers(ls, ns)).float()
        keep = d.clone(), s.clone()
        got = cx.call(MI.cmif, d, s, bins_dst=nd, bins_src=ns, constant_marginal=cm, _key="shift", _case=case)
        against(cx, got, np.array([[shifted(a, b, nd, ns) for b in ls] for a in ld]), "shift", case)
        cx.expect(torch.equal(d, keep[0]) and torch.equal(s, keep[1]), "inputs", "images changed", **case)
    for nd, ns, bd, bs, mode, cm in itertools.product((3, 9, 16, 17), (4, 8, 9, 16), (1, 2), (1, 3), MODES, (False, True)):
        if mode != "none" and not THOROUGH and (bd, bs) != (2, 3):
            continue
        cx.state("many", nd, ns, bd, bs, mode, cm)
        case = dict(bins=[nd, ns], batch=[bd, bs], mode=mode, constant=cm)
        g = np.random.default_rng(nd * 31 + ns)
        ld, ls = g.integers(0, nd, (bd, 6, 5)), g.integers(0, ns, (bs, 6, 5))
        d, s = torch.as_tensor(centers(ld, nd)).float(), torch.as_tensor(centers(ls, ns)).float()
        d[ld == nd - 1], s[ls == 0] = 1.0, 0.0
        got = cx.call(MI.cmif, d, s, bins_dst=nd, bins_src=ns, constant_marginal=cm, norm_mode=mode, _key="many", _case=case)
        against(cx, got, np.array([[shifted(a, b, nd, ns, mode=mode) for b in ls] for a in ld]), f"many-{mode}", case, tol=1e-3)
    for chunk in (1, 2, 3, 8, 16, 20):
        cx.state("chunk", chunk)
        g = np.random.default_rng(chunk)
        ld, ls = g.integers(0, 12, (1, 5, 6)), g.integers(0, 10, (1, 5, 6))
        got = cx.call(MI.cmif, torch.as_tensor(centers(ld, 12)).float(), torch.as_tensor(centers(ls, 10)).float(), bins_dst=12, bins_src=10, chunk_size=chunk, _key="chunk", _case=dict(chunk=chunk))
        against(cx, got, shifted(ld[0], ls[0], 12, 10)[None, None], "chunk", dict(chunk=chunk))


@ck.group("images", timeout=900)
def images(cx):
    """all pairs of small images: every joint histogram with few pixels"""
    for n, (h, w) in ((2, (2, 3)), (3, (2, 2))) + (((2, (3, 3)), (4, (2, 2))) if THOROUGH else ()):
        im = np.array(list(itertools.product(range(n), repeat=h * w))).reshape(-1, h, w)
        step = 1 if len(im) <= 100 else 5
        for b in im[::step]:
            cx.state("image", n, h, w, b.tobytes())
            got = cx.call(MI.cmif, torch.as_tensor(centers(im, n)).float(), torch.as_tensor(centers(b[None], n)).float(), bins_dst=n, bins_src=n, _key="image", _case=dict(bins=n, source=b))
            against(cx, got, np.array([[shifted(a, b, n, n)] for a in im]), "image", dict(bins=n, source=b))


@ck.group("masks", timeout=900)
def masks(cx):
    """only pixels inside of both masks count: all pairs of masks of 2 x 3 pixels, masked values are arbitrary"""
    h, w = 2, 3
    g = np.random.default_rng(5)
    ld, ls = g.integers(0, 3, (1, h, w)), g.integers(0, 3, (1, h, w))
    every = [np.array(m).reshape(h, w) for m in itertools.product((0, 1), repeat=h * w) if any(m)]
    for i, (md, ms) in enumerate(itertools.product(every, every)):
        if not THOROUGH and i % 3 and not md.all() and not ms.all():
            continue
        cx.state("mask", md.tobytes(), ms.tobytes())
        case = dict(dst=md, src=ms)
        kw = {}
        if not md.all() or i % 2:
            kw["dst_ind"] = torch.as_tensor(md).float()[None, None]
        if not ms.all() or i % 2:
            kw["src_ind"] = torch.as_tensor(ms).float()[None, None]
        got = cx.call(MI.cmif, torch.as_tensor(centers(ld, 3)).float(), torch.as_tensor(centers(ls, 3)).float(), bins_dst=3, bins_src=3, _key="mask", _case=case, **kw)
        against(cx, got, shifted(ld[0], ls[0], 3, 3, md, ms)[None, None], "mask", case)
    # padding: the use of pattern center fitting
    for (h, w), pad, n in itertools.product(((2, 3), (3, 3), (4, 3)), ((1, 1, 1, 1), (0, 2, 1, 0), (2, 1, 0, 3)), (2, 4, 9)):
        cx.state("pad", h, w, pad, n)
        case = dict(shape=[h, w], padding=list(pad), bins=n)
        g = np.random.default_rng(h * w + n)
        H, W = h + pad[2] + pad[3], w + pad[0] + pad[1]
        ld, ls = g.integers(0, n, (2, H, W)), g.integers(0, n, (3, h, w))
        big = np.pad(ls, ((0, 0), (pad[2], pad[3]), (pad[0], pad[1])))
        ind = np.pad(np.ones((h, w)), ((pad[2], pad[3]), (pad[0], pad[1])))
        src = np.pad(centers(ls, n), ((0, 0), (pad[2], pad[3]), (pad[0], pad[1])))
        got = cx.call(MI.cmif, torch.as_tensor(centers(ld, n)).float()[:, None], torch.as_tensor(src).float()[None], src_ind=torch.as_tensor(ind).float().repeat(3, 1, 1)[:, None], bins_dst=n, bins_src=n, _key="pad", _case=case)
        against(cx, got, np.array([[shifted(a, b, n, n, None, ind) for b in big] for a in ld]), "pad", case)


@ck.group("registration", timeout=300)
def registration(cx):
    """every cyclic shift of an image, also with inverted contrast, is found at its place"""
    for (h, w), n in itertools.product(((5, 6), (6, 5), (7, 7)), (3, 4, 9)):
        g = np.random.default_rng(h + n)
        l = g.integers(0, n, (h, w))
        for y, x, inv in itertools.product(range(h), range(w), (False, True)):
            cx.state("reg", h, w, n, y, x, inv)
            src = np.roll(l, (-y, -x), (0, 1))
            src = n - 1 - src if inv else src
            got = cx.call(MI.cmif, torch.as_tensor(centers(l[None], n)).float(), torch.as_tensor(centers(src[None], n)).float(), bins_dst=n, bins_src=n, _key="reg", _case={})
            if got is None or tuple(got.shape) != (1, 1, h, w):
                cx.expect(False, "shape", "shape of the map", shape=[h, w])
                continue
            top = np.unravel_index(int(got[0, 0].argmax()), (h, w))
            cx.expect(top == ((y + h // 2) % h, (x + w // 2) % w), "place", f"shift found at {top}", shape=[h, w], shift=[y, x], inverted=inv, bins=n)
            cx.trans()


if __name__ == "__main__":
    ck.main()
