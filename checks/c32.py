"""C32  Pattern center fitting returns the best pattern center and orientations of its search space."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.ebsd import fitting as FT
from ebsdtorch.ebsd.master_pattern import MasterPattern
from checks.c10 import quiet, master, matrix, dictionary
from checks.c13 import reference, pooled
from checks.c20 import model as rigid, grid, three
from checks.c25 import info, joint

torch.set_num_threads(1)
ck = Check("C32", bounds="every pattern center of the search grid as the true one (all shifts of the detector x all distances) with several orientations; even and odd shapes, symmetric and one-sided ranges, tilts, binnings, all dictionary batch sizes on a lattice, scans of 1 to 3 patterns, all 11 Laue groups, both metrics")
RES = 40.0
_mp, _tab = {}, {}


def phase(laue):
    if laue not in _mp:
        p = master(laue + 1, 48, laue, 2.0)
        p = (p - p.min()) / (p.max() - p.min())
        _mp[laue] = p, MasterPattern(torch.as_tensor(p).float(), laue_group=laue)
    return _mp[laue]


def simulate(pat, ori, shape, pc, tilt, b):
    r, t = rigid(pc, (tilt[1], tilt[0], 0.0), shape)
    d = three(grid(shape, (b, b))) @ r.T + t
    d /= np.linalg.norm(d, axis=1, keepdims=True)
    v = np.einsum("qij,pj->qpi", matrix(ori), d)
    return reference(pooled(pat, b) if b > 1 else pat, v.reshape(-1, 3))[0].reshape(len(ori), -1)


class Space:
    """the whole search space, simulated without the code under test"""

    def __init__(self, laue=11, shape=(12, 12), xr=(0.19, 0.81), yr=(0.19, 0.81), zs=(0.45, 0.65, 3), tilt=(70.0, 0.0), b=1, res=RES):
        self.laue, self.shape, self.xr, self.yr, self.z, self.tilt, self.b, self.res = laue, shape, xr, yr, zs, tilt, b, res
        H, W = shape[0] // b, shape[1] // b
        e = 1e-6
        for v in ((0.5 - xr[0]) * W, (xr[1] - 0.5) * W, (0.5 - yr[0]) * H, (yr[1] - 0.5) * H):
            assert v == 0 or abs(v - round(v)) > 0.01  # whether the limits themselves belong to the range is not specified
        self.lx = np.arange(-int(np.floor((xr[1] - 0.5) * W + e)), int(np.floor((0.5 - xr[0]) * W + e)) + 1)
        self.ly = np.arange(-int(np.floor((yr[1] - 0.5) * H + e)), int(np.floor((0.5 - yr[0]) * H + e)) + 1)
        self.px, self.py, self.pz = 0.5 - self.lx / W, 0.5 - self.ly / H, np.linspace(*zs)
        self.pat, self.mp = phase(laue)
        self.ori = dictionary(laue, res)
        self.table = np.stack([[[simulate(self.pat, self.ori, shape, (x, y, z), tilt, b) for x in self.px] for y in self.py] for z in self.pz])

    def scores(self, p, metric):
        """(z, y, x, orientation)"""
        p = (p - p.min()) / (p.max() - p.min())
        if metric == "dot":
            return self.table @ (p - p.mean())
        lp = (p * 4 * 0.99999).astype(int)
        lt = (self.table * 4 * 0.99999).astype(int)
        t = lt.reshape(-1, lt.shape[-1])
        h = np.stack([[((t == i) & (lp == j)).sum(1) for j in range(4)] for i in range(4)]).astype(float) / t.shape[1]
        f = lambda q: -np.where(q > 0, q * np.log(np.where(q > 0, q, 1)), 0)
        return (f(h.sum(1)).sum(0) + f(h.sum(0)).sum(0) - f(h).sum((0, 1))).reshape(lt.shape[:-1])


def space(**kw):
    k = repr(sorted(kw.items()))
    if k not in _tab:
        _tab[k] = Space(**kw)
    return _tab[k]


def fit(cx, s, pats, key, case, metric="dot", batch=64, judge_truth=None):
    """pats: full size patterns (B, H, W)"""
    t = torch.as_tensor(pats).float()[:, None]
    keep = t.clone()
    with quiet():
        out = cx.call(FT.spatial_fft_pc_fitter, s.mp, t, _key=key, _case=case, pc_x_min=s.xr[0], pc_x_max=s.xr[1], pc_y_min=s.yr[0], pc_y_max=s.yr[1], pc_z_min=s.z[0], pc_z_max=s.z[1], pc_z_steps=s.z[2],
                      primary_tilt_deg=s.tilt[0], secondary_tilt_deg=s.tilt[1], dictionary_resolution_deg=s.res, dictionary_indexing_batch_size=batch, virtual_binning=s.b, metric=metric)
    cx.trans()
    cx.expect(torch.equal(t, keep), f"{key}-inputs", "patterns changed", **case)
    if out is None:
        return
    pc, q = out[0].double().numpy().ravel(), out[1].double().numpy()
    if not cx.expect(pc.shape == (3,) and q.shape == (len(pats), 4), f"{key}-shape", f"{pc.shape} and {q.shape}", **case):
        return
    i = [np.abs(g - v).argmin() for g, v in zip((s.px, s.py, s.pz), pc)]
    near = max(abs(s.px[i[0]] - pc[0]), abs(s.py[i[1]] - pc[1]), abs(s.pz[i[2]] - pc[2]))
    if not cx.expect(near < 1e-4, f"{key}-grid", f"pattern center {pc} is not in the search space", **case):
        return
    B, b = len(pats), s.b
    small = pats.reshape(B, s.shape[0] // b, b, s.shape[1] // b, b).mean((2, 4)).reshape(B, -1)
    sc = np.stack([s.scores(p, metric) for p in small])
    tol = 2e-3 * np.abs(sc).max() if metric == "dot" else 0.06
    avg = sc.max(-1).mean(0)
    got = avg[i[2], i[1], i[0]]
    cx.expect(got >= avg.max() - tol, f"{key}-best", f"pattern center {np.round(pc, 4)} scores {got:.4f}, the best {avg.max():.4f}", **case)
    for j in range(B):
        hit = np.abs(s.ori @ q[j]) > 1 - 1e-5
        if not cx.expect(hit.any(), f"{key}-member", "orientation is not in the dictionary", **case):
            continue
        v = sc[j, i[2], i[1], i[0]]
        cx.expect(v[hit].max() >= v.max() - tol, f"{key}-orientation", f"orientation of pattern {j} scores {v[hit].max():.4f}, the best {v.max():.4f}", **case)
    return pc, q, avg


def truth(name, metric, **kw):
    @ck.group(f"truth-{name}-{metric}", timeout=900)
    def g(cx):
        """every pattern center of the search space as the true one"""
        s = space(**kw)
        found = total = 0
        picks = np.linspace(0, len(s.ori) - 1, 5).round().astype(int)
        k = 0
        for (iz, z), (iy, y), (ix, x) in itertools.product(enumerate(s.pz), enumerate(s.py), enumerate(s.px)):
            for o in picks if THOROUGH else picks[[k % 5, (k + 2) % 5]]:
                cx.state(name, metric, iz, iy, ix, int(o))
                if metric == "mi" and not THOROUGH and k % 3:
                    continue
                # gain and offset of the detector are not known
                p = simulate(s.pat, s.ori[[o]], s.shape, (x, y, z), s.tilt, 1) * 40 + 7
                case = dict(space=name, metric=metric, center=[float(x), float(y), float(z)], orientation=int(o))
                r = fit(cx, s, p.reshape(1, *s.shape), metric, case, metric)
                if r is None:
                    continue
                total += 1
                ok = np.abs(r[0] - [x, y, z]).max() < 1e-3
                found += ok
                # where the true one is clearly the best, it is the answer
                w = r[2].copy()
                best = w[iz, iy, ix]
                w[iz, iy, ix] = -np.inf
                if s.b == 1 and best > w.max() * (1.02 if metric == "dot" else 1) + (0 if metric == "dot" else 0.15):
                    cx.expect(ok, f"{metric}-truth", f"pattern center {np.round(r[0], 4)}", **case)
            k += 1
        cx.expect(found > 0.5 * total, f"{metric}-found", f"only {found} of {total} true pattern centers are found", space=name)


truth("square", "dot")
truth("odd", "dot", shape=(11, 13), xr=(0.25, 0.8), yr=(0.3, 0.75))
truth("onesided", "dot", shape=(12, 10), xr=(0.5, 0.95), yr=(0.05, 0.5), zs=(0.5, 0.6, 2))
truth("offset", "dot", shape=(10, 15), xr=(0.43, 0.77), yr=(0.25, 0.95), zs=(0.4, 0.7, 2), tilt=(60.0, 4.0))
truth("binned", "dot", shape=(24, 20), b=2, xr=(0.28, 0.82), yr=(0.3, 0.8), zs=(0.5, 0.6, 2))
truth("small", "mi", shape=(12, 13), xr=(0.3, 0.7), yr=(0.24, 0.6), zs=(0.45, 0.65, 2))
truth("odd", "mi", shape=(13, 12), xr=(0.5, 0.8), yr=(0.4, 0.8), zs=(0.45, 0.65, 2), tilt=(65.0, -3.0))


@ck.group("laue", timeout=900)
def laue(cx):
    for l in range(1, 12):
        s = space(laue=l, xr=(0.3, 0.7), yr=(0.3, 0.7), zs=(0.5, 0.6, 2), res=60.0 if l < 3 else 45.0)
        for k, o in enumerate(np.linspace(0, len(s.ori) - 1, 4 if not THOROUGH else 12).round().astype(int)):
            cx.state("laue", l, int(o))
            x, y, z = s.px[k % len(s.px)], s.py[(2 * k) % len(s.py)], s.pz[k % 2]
            p = simulate(s.pat, s.ori[[o]], s.shape, (x, y, z), s.tilt, 1)
            fit(cx, s, p.reshape(1, *s.shape), "laue", dict(laue=l, orientation=int(o)))


@ck.group("batches", timeout=900)
def batches(cx):
    """the size of the dictionary batches does not matter"""
    s = space()
    n = len(s.ori)
    pats = np.concatenate([simulate(s.pat, s.ori[[o]], s.shape, (s.px[1], s.py[4], s.pz[1]), s.tilt, 1) for o in (1, n // 2, n - 1)]).reshape(3, *s.shape)
    for b, metric in itertools.product(sorted({1, 2, 3, 5, 7, n // 2, n // 2 + 1, n - 1, n, n + 1, 1000}), ("dot", "mi")):
        if metric == "mi" and b < 5:
            continue
        for m in (1, 2, 3):
            for sel in itertools.combinations(range(3), m):
                cx.state("batch", b, metric, sel)
                fit(cx, s, pats[list(sel)], f"batch-{metric}", dict(batch=b, patterns=list(sel), metric=metric), metric, b)


@ck.group("scans", timeout=900)
def scans(cx):
    """several patterns with a common pattern center: all pairs of orientations, repeated patterns, other gains"""
    s = space(shape=(10, 12), zs=(0.5, 0.6, 2))
    picks = np.linspace(0, len(s.ori) - 1, 6).round().astype(int)
    for n, (a, b) in enumerate(itertools.product(picks, picks)):
        x, y, z = s.px[n % len(s.px)], s.py[(3 * n) % len(s.py)], s.pz[n % 2]
        cx.state("pair", int(a), int(b))
        p = simulate(s.pat, s.ori[[a, b]], s.shape, (x, y, z), s.tilt, 1) * np.array([[1.0], [100.0]]) + np.array([[5.0], [-3.0]])
        fit(cx, s, p.reshape(2, *s.shape), "pair", dict(orientations=[int(a), int(b)]))
    # the caller's tensors: not contiguous, other histories on the same master pattern
    p = simulate(s.pat, s.ori[picks[:3]], s.shape, (s.px[2], s.py[5], s.pz[0]), s.tilt, 1).reshape(3, *s.shape)
    first = fit(cx, s, p, "history", dict(run=0))
    for h in itertools.product(("fit", "other", "binned"), repeat=2):
        cx.state("history", h)
        for op in h:
            if op == "other":
                fit(cx, space(shape=(12, 12)), simulate(s.pat, s.ori[[2]], (12, 12), (0.5, 0.5, 0.55), s.tilt, 1).reshape(1, 12, 12), "history", dict(history=list(h)))
            elif op == "binned":
                s.mp.interpolate(torch.rand(5, 3), virtual_binning=2)
            else:
                fit(cx, s, p[:1], "history", dict(history=list(h)))
        again = fit(cx, s, p, "history", dict(history=list(h)))
        if first is not None and again is not None:
            cx.expect(np.allclose(first[0], again[0], atol=1e-6) and (np.abs((first[1] * again[1]).sum(1)) > 1 - 1e-5).all(), "history-same", "the result depends on earlier fits", history=list(h))


@ck.group("unlike", timeout=900)
def unlike(cx):
    """patterns which resemble no orientation of a coarse dictionary: contrast reversed, several at once"""
    for l, res in ((11, 60.0), (11, 50.0), (10, 70.0)):
        s = space(laue=l, shape=(12, 11), xr=(0.3, 0.7), yr=(0.3, 0.7), zs=(0.5, 0.6, 2), res=res)
        picks = range(len(s.ori)) if len(s.ori) < 9 or THOROUGH else np.linspace(0, len(s.ori) - 1, 8).round().astype(int)
        for a in picks:
            for sign in itertools.product((1, -1), repeat=2):
                cx.state("unlike", l, res, int(a), sign)
                p = simulate(s.pat, s.ori[[a, (a + 1) % len(s.ori)]], s.shape, (s.px[1], s.py[2], s.pz[0]), s.tilt, 1) * np.array(sign)[:, None] * 30
                for sel in ([0], [0, 1]):
                    fit(cx, s, p[sel].reshape(-1, *s.shape), "unlike", dict(laue=l, res=res, orientation=int(a), signs=list(sign), patterns=sel))
    # no orientation of the dictionary correlates with the pattern
    for l, res in ((11, 50.0), (11, 90.0), (10, 70.0), (5, 70.0)):
        for xr, yr in (((0.47, 0.53), (0.47, 0.53)), ((0.38, 0.62), (0.47, 0.53)), ((0.38, 0.62), (0.38, 0.62))):
            s = space(laue=l, shape=(12, 11), xr=xr, yr=yr, zs=(0.5, 0.6, 2), res=res)
            t = s.table.reshape(-1, len(s.ori), 12 * 11)
            for a in range(len(s.ori)):
                # all orientations reversed, one of them more than the others
                one = -(t[0].sum(0) + 2 * t[0, a])
                two = -(t.sum((0, 1)) - t[0, a])
                cx.state("reversed", l, res, xr, yr, a)
                p = np.stack([one, two, t[0, a]])
                for sel in ([0], [1], [0, 1], [0, 1, 2], [2, 0]):
                    for batch in (64, 3):
                        fit(cx, s, p[sel].reshape(-1, *s.shape), "reversed", dict(laue=l, res=res, ranges=[xr, yr], orientation=a, patterns=sel, batch=batch), batch=batch)


@ck.group("refused", timeout=100)
def refused(cx):
    """patterns of unusable shape, binnings that do not divide and unknown metrics are refused"""
    s = space(shape=(10, 12), zs=(0.5, 0.6, 2))
    for shape, kw in (((10, 12), {}), ((2, 10, 12), {}), ((1, 2, 10, 12), {}), ((1, 1, 10, 12), dict(virtual_binning=3)), ((1, 1, 10, 12), dict(virtual_binning=4)), ((1, 1, 9, 12), dict(virtual_binning=2)), ((1, 1, 10, 12), dict(metric="unknown"))):
        cx.state("refused", shape, repr(kw))
        t = torch.rand(shape)
        keep = t.clone()
        try:
            with quiet():
                FT.spatial_fft_pc_fitter(s.mp, t, dictionary_resolution_deg=RES, pc_z_steps=1, **kw)
            cx.expect(False, "refused", "accepted", shape=list(shape), **{k: v for k, v in kw.items()})
        except Exception:
            pass
        cx.expect(torch.equal(t, keep), "inputs", "patterns changed", shape=list(shape))
        cx.trans()


if __name__ == "__main__":
    ck.main()
