"""C23  Refinement moves every orientation to the best match around it, and never away from a better one."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.ebsd import refining as RF
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.s2_and_so3.orientations import cu2qu
from mc import rot, sym
from checks.c10 import quiet, master, matrix, binned, dictionary, make, PC, TILT, run as index
from checks.c13 import reference, pooled
from checks.c20 import model as rigid, grid, three

torch.set_num_threads(1)
F16, BF16, F32, F64 = torch.float16, torch.bfloat16, torch.float32, torch.float64
ck = Check("C23", bounds="all local grids up to radius 6; all starts on a lattice of axes and angles around dictionary orientations of all Laue groups; all batch sizes; all assignments of three phases to four patterns; all combinations of grid, radius, binning, number format; all sequences of two (thorough: three) refinements and indexing runs")
SHAPE = (10, 12)
FREQ = 2.0
_geo, _dirs, _mp = {}, {}, {}


def geometry(**kw):
    key = repr(sorted(kw.items()))
    if key not in _geo:
        _geo[key] = EBSDGeometry(SHAPE, TILT, PC, **kw)
    return _geo[key]


def directions(b):
    if b not in _dirs:
        r, t = rigid(PC, TILT, SHAPE)
        d = three(grid(SHAPE, (b, b))) @ r.T + t
        _dirs[b] = d / np.linalg.norm(d, axis=1, keepdims=True)
    return _dirs[b]


def simulate(pat, q, b=1):
    """patterns of orientations (n, 4), pixel centers of the outermost pixels on the border of the map"""
    q = np.asarray(q, float).reshape(-1, 4)
    v = np.einsum("qij,pj->qpi", matrix(q), directions(b))
    p = pooled(pat, b) if b > 1 else pat
    return reference(p, v.reshape(-1, 3), True)[0].reshape(len(q), -1)


def unit(x):
    x = x - x.mean(-1, keepdims=True)
    return x / np.linalg.norm(x, axis=-1, keepdims=True)


def score(pat, q, pats, b=1):
    """match of each pattern with its own orientation"""
    return (unit(simulate(pat, q, b)) * unit(binned(pats, b) if b > 1 else pats.reshape(len(pats), -1))).sum(1)


def smooth(mp, q, pats, b=1):
    """the same with the interpolation of the gradient refinement"""
    v = np.einsum("qij,pj->qpi", matrix(np.asarray(q, float)), directions(b))
    s = mp.interpolate(torch.as_tensor(v).float(), mode="bicubic", align_corners=True, virtual_binning=b).double().numpy()
    return (unit(s) * unit(binned(pats, b) if b > 1 else pats.reshape(len(pats), -1))).sum(1)


def phase(laue, seed=None, n=90):
    key = (laue, seed, n)
    if key not in _mp:
        pat = master(laue if seed is None else seed, n, laue, FREQ)
        _mp[key] = pat, MasterPattern(torch.as_tensor(pat).float(), laue_group=laue)
    return _mp[key]


def scan(pats, q, phases=None):
    e = make(pats)
    e.set_orientations(torch.as_tensor(np.asarray(q)).float())
    e.phases = torch.as_tensor(phases if phases is not None else np.zeros(len(pats)), dtype=torch.uint8)
    return e


def turned(q, axis, deg):
    a = np.asarray(axis, float)
    a = a / np.linalg.norm(a)
    d = np.concatenate([[np.cos(np.radians(deg) / 2)], np.sin(np.radians(deg) / 2) * a])
    r = rot.qmul(d, q)
    return r * np.where(r[..., :1] < 0, -1, 1)


def away(laue, a, b):
    """smallest angle between a and equivalents of b, degrees"""
    d = np.abs((rot.qmul(sym.GROUP[laue][:, None], np.asarray(b, float)[None]) * np.asarray(a, float)[None]).sum(-1)).max(0)
    return np.degrees(2 * np.arccos(np.clip(d, 0, 1)))


def inside(laue, q):
    """in the fundamental zone: no equivalent has a smaller angle"""
    w = np.abs(rot.qmul(sym.GROUP[laue][:, None], np.asarray(q, float)[None])[..., 0]).max(0)
    return np.abs(q[:, 0]) >= w - 1e-5


def entries(laue, n):
    ori = dictionary(laue, 35.0)
    return ori[np.linspace(0, len(ori) - 1, n).round().astype(int)]


AXES = [a for a in itertools.product((-1, 0, 1), repeat=3) if a != (0, 0, 0)]
AXES = [a for a in AXES if a > tuple(-x for x in a)]  # 13, up to sign


def common(cx, e, q0, pats, ph, laue, key, case):
    """what every refinement has to leave alone"""
    got = e.get_orientations()
    cx.expect(tuple(got.shape) == (len(pats), 4), f"{key}-shape", f"orientations {tuple(got.shape)}", **case)
    cx.expect(not got.requires_grad, f"{key}-graph", "orientations require gradients", **case)
    g = got.detach().double().numpy()
    cx.close((g * g).sum(-1), np.ones(len(g)), f"{key}-unit", "norm of the orientations", tol=1e-4, **case)
    cx.expect(np.array_equal(e.patterns.numpy(), pats.astype("f4").reshape(e.patterns.shape)), f"{key}-patterns", "patterns changed", **case)
    cx.expect(np.array_equal(e.phases.numpy(), np.asarray(ph, "u1")), f"{key}-phases", "phases changed", **case)
    cx.trans(len(pats))
    return g


def grid_run(cx, mps, e, key, case, geo=None, **kw):
    args = dict(grid_semi_edge_in_degrees=3.0, batch_size=64, n_iter=1, match_dtype=F32)
    args.update(kw)
    with quiet():
        return cx.call(RF.orientation_grid_refinement, mps, geo or geometry(), e, _key=key, _case=case, **args)


def grad_run(cx, mps, e, key, case, geo=None, **kw):
    args = dict(batch_size=64, n_iter=30, learning_rate=0.002, match_dtype=F32)
    args.update(kw)
    with quiet():
        return cx.call(RF.orientation_grad_refinement, mps, geo or geometry(), e, _key=key, _case=case, **args)


@ck.group("grids", timeout=200)
def grids(cx):
    """every local grid is the cubic lattice around no rotation, without the points off the axes or planes"""
    for k, a, ax in itertools.product(range(1, 7 if THOROUGH else 6), (0.01, 0.1, 0.5, 1.0, 1.7, 3.0, 7.3, 20.0), (1, 2, 3)):
        cx.state("grid", k, a, ax)
        case = dict(radius=k, semi_edge=a, dimension=ax)
        g = cx.call(RF.get_local_orientation_grid, a, k, ax, _key="grid", _case=case)
        if g is None:
            continue
        edge = a * np.pi ** (2 / 3) / 360
        x = g.double().numpy() / edge * k
        cx.expect(np.abs(x - x.round()).max(initial=0) < 1e-4, "lattice", "points off the lattice", **case)
        want = {p for p in itertools.product(range(-k, k + 1), repeat=3) if sum(c != 0 for c in p) <= ax}
        have = [tuple(r) for r in (x.round() + 0.0).astype(int)]
        cx.expect(set(have) == want and len(have) == len(want), "points", f"{len(have)} points instead of {len(want)}", **case)
        cx.trans(len(want))
    for bad in (0, 4):
        try:
            RF.get_local_orientation_grid(1.0, 1, bad)
            cx.expect(False, "refuse", "grid of impossible dimension", dimension=bad)
        except Exception:
            pass


def best_of_grid(pat, q, pats, b, a, k, ax):
    """exhaustive: best match over the grid around each orientation"""
    g = cu2qu(RF.get_local_orientation_grid(a, k, ax).double()).numpy()
    out = []
    for j in range(len(q)):
        c = rot.qmul(g, q[j])
        s = unit(simulate(pat, c, b)) @ unit(binned(pats[j : j + 1], b) if b > 1 else pats[j : j + 1].reshape(1, -1))[0]
        out.append(s.max())
    return np.array(out)


@ck.group("one-step", timeout=900)
def one_step(cx):
    """a single step takes the best point of the grid"""
    for laue, ax, k, b, dt in itertools.product((1, 2, 6, 11) if not THOROUGH else range(1, 12), (1, 2, 3), (1, 2, 3), (1, 2), (F32,)):
        if k == 3 and ax == 3 and not THOROUGH:
            continue
        pat, mp = phase(laue)
        true = entries(laue, 5)
        q0 = np.stack([turned(t, AXES[(i * 3 + k) % 13], 2.5) for i, t in enumerate(true)])
        q0[4] = true[4]
        # gain and offset of the detector are not known
        pats = (simulate(pat, true) * np.array([1, 30, 0.02, 5, 1])[:, None] + np.array([0, -900, 2, 100, 0])[:, None]).reshape(-1, *SHAPE)
        cx.state("step", laue, ax, k, b)
        case = dict(laue=laue, dimension=ax, radius=k, binning=b)
        e = scan(pats, q0)
        d = grid_run(cx, mp, e, "step", case, axial_grid_dimension=ax, kernel_radius_in_steps=k, virtual_binning=b)
        if d is None:
            continue
        got = common(cx, e, q0, pats, np.zeros(5), laue, "step", case)
        s, want, old = score(pat, got, pats, b), best_of_grid(pat, q0, pats, b, 3.0, k, ax), score(pat, q0, pats, b)
        cx.close(s, want, "best", "result is not the best of the grid", tol=3e-3, **case)
        cx.expect((s >= old - 3e-3).all(), "worse", "result is worse than the start", before=old, after=s, **case)
        cx.expect(inside(laue, got).all(), "zone", "result outside of the fundamental zone", **case)
        cx.expect((away(laue, got, q0) < 2.2 * 3.0 * np.sqrt(ax)).all(), "far", "result outside of the grid", **case)


@ck.group("lattice-grid", timeout=900)
def lattice_grid(cx):
    """noise-free patterns: from every start around the true orientation back to it"""
    for laue in range(1, 12):
        pat, mp = phase(laue)
        true = entries(laue, 3 if not THOROUGH else 8)
        angles = (0.0, 0.5, 3.0) if not THOROUGH else (0.0, 0.2, 0.5, 1.0, 2.0, 3.0)
        rows = [(t, a, s * w) for t in range(len(true)) for a in range(13) for s in (1, -1) for w in angles if not (w == 0 and (a or s < 0))]
        q0 = np.stack([turned(true[t], AXES[a], w) for t, a, w in rows])
        goal = np.stack([true[t] for t, a, w in rows])
        pats = simulate(pat, goal).reshape(-1, *SHAPE)
        for t, a, w in rows:
            cx.state("start", laue, t, a, w)
        for ax in (1, 3):
            case = dict(laue=laue, dimension=ax)
            e = scan(pats, q0)
            d = grid_run(cx, mp, e, "lattice", case, axial_grid_dimension=ax, n_iter=9)
            if d is None:
                continue
            got = common(cx, e, q0, pats, np.zeros(len(q0)), laue, "lattice", case)
            s, old = score(pat, got, pats), score(pat, q0, pats)
            cx.expect_all(s >= old - 2e-3, "worse", "match got worse", rows=q0)
            cx.expect((s > 0.995).mean() > 0.97, "recover", f"{(s <= 0.995).sum()} of {len(s)} patterns are not matched", **case)
            err = away(laue, got, goal)
            cx.expect(np.median(err) < 0.5, "accuracy", f"median error {np.median(err):.2f} degrees", **case)
            # reported matches
            t = d[0].double().numpy()
            if cx.expect(t.shape == (len(q0), 9), "dots-shape", f"matches {t.shape}", **case):
                cx.expect((np.diff(t, axis=1) >= -2e-3 * np.abs(t).max()).all(), "monotone", "the match decreases", **case)
            cx.expect(inside(laue, got).all(), "zone", "result outside of the fundamental zone", **case)


@ck.group("lattice-gradient", timeout=900)
def lattice_gradient(cx):
    for laue in range(1, 12):
        pat, mp = phase(laue)
        true = entries(laue, 3 if not THOROUGH else 8)
        angles = (0.0, 0.5, 3.0) if not THOROUGH else (0.0, 0.2, 0.5, 1.0, 2.0, 3.0)
        rows = [(t, a, s * w) for t in range(len(true)) for a in range(13) for s in (1, -1) for w in angles if not (w == 0 and (a or s < 0))]
        q0 = np.stack([turned(true[t], AXES[a], w) for t, a, w in rows])
        goal = np.stack([true[t] for t, a, w in rows])
        pats = simulate(pat, goal).reshape(-1, *SHAPE)
        for t, a, w in rows:
            cx.state("start", laue, t, a, w)
        for lr, n in ((0.002, 40), (0.0005, 30)):
            case = dict(laue=laue, rate=lr)
            e = scan(pats * 3 + 7, q0)
            grad_run(cx, mp, e, "lattice", case, learning_rate=lr, n_iter=n)
            got = common(cx, e, q0, pats * 3 + 7, np.zeros(len(q0)), laue, "lattice", case)
            s, old = smooth(mp, got, pats), smooth(mp, q0, pats)
            cx.expect_all(s >= old - 2e-3, "worse", "match got worse", rows=q0)
            low = old < 0.99
            cx.expect(not low.any() or (s[low] > old[low] + 1e-3).mean() > 0.5, "improve", f"only {(s[low] > old[low] + 1e-3).sum()} of {low.sum()} poor matches improved", **case)
            if lr > 1e-3:
                cx.expect(np.median(away(laue, got, goal)) < 0.7, "accuracy", f"median error {np.median(away(laue, got, goal)):.2f} degrees", **case)
            moved = (np.abs((got * q0).sum(1)) < 1 - 1e-7) & (away(laue, got, q0) > 0.01)
            cx.expect(inside(laue, got)[moved].all(), "zone", "result outside of the fundamental zone", **case)


@ck.group("poles", timeout=900)
def poles(cx):
    """a pixel that points to a pole of the crystal at the start"""
    for laue in (11, 2) if not THOROUGH else range(1, 12):
        pat, mp = phase(laue)
        q0, goal = [], []
        dirs = directions(1)
        for p in range(0, len(dirs), 1 if THOROUGH else 3):
            for k, z in enumerate((1.0, -1.0)):
                d, to = dirs[p], np.array([0, 0, z])
                q = np.concatenate([[1 + d @ to], np.cross(d, to)])
                if np.linalg.norm(q) < 1e-3:
                    q = np.array([0.0, 1, 0, 0])
                c = 0.3 + 0.1 * p
                q = rot.qmul(np.array([np.cos(c), 0, 0, np.sin(c)]), q / np.linalg.norm(q))
                q = min((q, q * [1, -1, -1, -1]), key=lambda x: -abs((matrix(x[None])[0] @ d) @ to))
                q = q * (1 if q[0] >= 0 else -1)
                v = matrix(q[None])[0] @ d
                cx.expect(abs(v @ to - 1) < 1e-9 or abs(v @ to + 1) < 1e-9, "harness", "start is not at a pole", pixel=p)
                q0.append(q)
                goal.append(turned(q, AXES[(p + k) % 13], 3.5))
                cx.state("pole", laue, p, z)
        q0, goal = np.stack(q0), np.stack(goal)
        pats = simulate(pat, goal).reshape(-1, *SHAPE)
        case = dict(laue=laue)
        e = scan(pats, q0)
        grad_run(cx, mp, e, "poles", case, n_iter=40)
        got = common(cx, e, q0, pats, np.zeros(len(q0)), laue, "poles", case)
        s, old = smooth(mp, got, pats), smooth(mp, q0, pats)
        low = old < 0.99
        cx.expect(low.mean() > 0.5, "harness", f"only {low.sum()} of {len(low)} starts are away from the solution", **case)
        cx.expect_all((s > old + 1e-3)[low], "improve", "the pattern is not refined", rows=q0[low], **case)


@ck.group("batches", timeout=900)
def batches(cx):
    """the way the scan is cut up does not matter"""
    laue = 11
    pat, mp = phase(laue)
    for n in (1, 2, 5, 7):
        true = entries(laue, n)
        q0 = np.stack([turned(t, AXES[(5 * i) % 13], 2.0) for i, t in enumerate(true)])
        pats = simulate(pat, true).reshape(-1, *SHAPE)
        for b in range(1, n + 2):
            for name, f, sc in (("grid", lambda e, **k: grid_run(cx, mp, e, "batch", case, n_iter=4, **k), lambda q: score(pat, q, pats)), ("gradient", lambda e, **k: grad_run(cx, mp, e, "batch", case, **k), lambda q: smooth(mp, q, pats))):
                case = dict(patterns=n, batch=b, method=name)
                cx.state("batch", n, b, name)
                ref, e = scan(pats, q0), scan(pats, q0)
                dr = f(ref, batch_size=n)
                de = f(e, batch_size=b)
                got = common(cx, e, q0, pats, np.zeros(n), laue, name, case)
                cx.close(sc(got), sc(ref.get_orientations().double().numpy()), f"{name}-match", "match depends on the batch size", tol=3e-3, **case)
                cx.expect((sc(got) > sc(q0) + 1e-3).all(), f"{name}-improve", "a pattern is not refined", **case)
                if name == "grid" and dr and de:
                    # the reported matches are those of the patterns, in their order
                    t = de[0].double().numpy()
                    if cx.expect(t.shape == (n, 4), "reported-shape", f"matches {t.shape}", **case):
                        cx.close(t[:, -1], sc(got), "reported", "reported matches are not those of the results", tol=1e-2, **case)
                        cx.close(t, dr[0].double(), "reported-batch", "reported matches depend on the batch size", tol=3e-3, **case)


@ck.group("company", timeout=900)
def company(cx):
    """all assignments of three distances from the best orientation to three patterns in a batch: each is refined as if alone"""
    for laue in (11, 2) if not THOROUGH else range(1, 12):
        pat, mp = phase(laue)
        true = entries(laue, 3)
        for name, f, sc in (("grid", lambda e, **k: grid_run(cx, mp, e, "company", case, grid_semi_edge_in_degrees=2.0, n_iter=7, **k), lambda q, p: score(pat, q, p)), ("gradient", lambda e, **k: grad_run(cx, mp, e, "company", case, n_iter=10, **k), lambda q, p: smooth(mp, q, p)), ("coarse-gradient", lambda e, **k: grad_run(cx, mp, e, "company", case, n_iter=10, learning_rate=0.02, **k), lambda q, p: smooth(mp, q, p))):
            alone = {}
            for far in itertools.product((0.0, 3.0, 8.0), repeat=3):
                for b in (1, 2, 3):
                    case = dict(laue=laue, method=name, distances=list(far), batch=b)
                    cx.state("company", laue, name, far, b)
                    q0 = np.stack([turned(t, AXES[(5 * i + 3) % 13], w) for i, (t, w) in enumerate(zip(true, far))])
                    pats = simulate(pat, true).reshape(-1, *SHAPE)
                    e = scan(pats, q0)
                    f(e, batch_size=b)
                    got = common(cx, e, q0, pats, np.zeros(3), laue, "company", case)
                    s, s0 = sc(got, pats), sc(q0, pats)
                    cx.expect((s >= s0 - 3e-3).all(), f"company-{name}-worse", f"matches get worse: {s0} to {s}", **case)
                    for i, w in enumerate(far):
                        k = alone.setdefault((i, w), s[i])
                        cx.expect(abs(k - s[i]) < 3e-3, f"company-{name}", f"the match of pattern {i} depends on the other patterns: {k:.5f} and {s[i]:.5f}", **case)


@ck.group("phases", timeout=900)
def phases(cx):
    """all assignments of three phases to four patterns: every pattern with the master pattern of its phase"""
    ph3 = [phase(11, 3), phase(2, 4), phase(7, 5)]
    laues = (11, 2, 7)
    true = [entries(l, 4) for l in laues]
    start = [np.stack([turned(t, AXES[(4 * i + l) % 13], 2.0) for i, t in enumerate(ts)]) for l, ts in enumerate(true)]
    sims = [simulate(p[0], t).reshape(-1, *SHAPE) for p, t in zip(ph3, true)]
    alone = {}
    for name, f in (("grid", lambda e, c, **k: grid_run(cx, [p[1] for p in ph3], e, "phases", c, n_iter=3, **k)), ("gradient", lambda e, c, **k: grad_run(cx, [p[1] for p in ph3], e, "phases", c, n_iter=12, **k))):
        for asg in itertools.product(range(3), repeat=4):
            if name == "gradient" and not THOROUGH and asg[0] > asg[-1]:
                continue
            cx.state("phases", name, asg)
            case = dict(method=name, phases=list(asg))
            pats = np.stack([sims[p][j] for j, p in enumerate(asg)])
            q0 = np.stack([start[p][j] for j, p in enumerate(asg)])
            e = scan(pats, q0, asg)
            d = f(e, case, batch_size=2)
            got = common(cx, e, q0, pats, asg, None, name, case)
            if name == "grid" and d is not None:
                cx.expect(len(d) == max(asg) + 1, "dots", f"matches of {len(d)} phases", **case)
            for j, p in enumerate(asg):
                s0 = score(ph3[p][0], q0[j : j + 1], pats[j : j + 1])[0]
                s = score(ph3[p][0], got[j : j + 1], pats[j : j + 1])[0]
                cx.expect(s > s0 + 1e-3 or s0 > 0.985, f"{name}-improve", f"pattern {j} is not refined with its own phase: {s0:.5f} to {s:.5f}", **case)
                cx.expect(s >= s0 - 3e-3, f"{name}-worse", f"the match of pattern {j} gets worse: {s0:.5f} to {s:.5f}", **case)
                cx.expect(inside(laues[p], got[j : j + 1])[0], f"{name}-zone", "result outside of the zone of its phase", **case)
                # the same pattern in another scan
                k = (name, j, p)
                alone.setdefault(k, s)
                cx.expect(abs(alone[k] - s) < 5e-3, f"{name}-others", "the match depends on the other patterns", pattern=j, **case)
    # a single master pattern does not have to be in a list
    e1, e2 = (scan(sims[0], start[0]) for _ in range(2))
    grid_run(cx, ph3[0][1], e1, "single", {})
    grid_run(cx, [ph3[0][1]], e2, "single", {})
    cx.expect(torch.equal(e1.get_orientations(), e2.get_orientations()), "single", "a single master pattern and a list of one differ")


@ck.group("formats", timeout=900)
def formats(cx):
    """number formats, binning, tuned geometry, patterns stored in double precision"""
    laue = 11
    pat, mp = phase(laue)
    true = entries(laue, 6)
    q0 = np.stack([turned(t, AXES[(5 * i) % 13], 2.0) for i, t in enumerate(true)])
    for dt, b, off, opt in itertools.product((F16, BF16, F32, F64), (1, 2), (0.0, 200.0), (False, True)):
        pats = simulate(pat, true).reshape(-1, *SHAPE) * (1.0 if off == 0 else 40.0) + off
        tol = {F16: 4e-3, BF16: 2.5e-2, F32: 2e-3, F64: 2e-3}[dt]
        geo = geometry(opt_rots=(True,) * 3, opt_shifts=(True,) * 3) if opt else geometry()
        case = dict(dtype=str(dt), binning=b, offset=off, tuned=opt)
        cx.state("format", str(dt), b, off, opt)
        for name in ("grid", "gradient"):
            e = scan(pats, q0)
            if name == "grid":
                grid_run(cx, mp, e, f"{name}-{dt}", case, geo=geo, n_iter=4, match_dtype=dt, virtual_binning=b)
                sc = lambda q: score(pat, q, pats, b)
            else:
                grad_run(cx, mp, e, f"{name}-{dt}", case, geo=geo, match_dtype=dt, virtual_binning=b)
                sc = lambda q: smooth(mp, q, pats, b)
            got = common(cx, e, q0, pats, np.zeros(6), laue, name, case)
            cx.expect((sc(got) >= sc(q0) - tol).all(), f"{name}-worse", "match got worse", before=sc(q0), after=sc(got), **case)
            cx.expect(sc(got).mean() > sc(q0).mean(), f"{name}-improve", "matches do not improve", before=sc(q0), after=sc(got), **case)
            if opt:
                grads = [p.grad for p in geo.parameters() if p.grad is not None]
                cx.expect(all(float(g.abs().max()) == 0 for g in grads), f"{name}-gradients", "refinement of orientations leaves gradients in the geometry", **case)


def histories(first):
    @ck.group(f"histories-{first}", timeout=900)
    def g(cx):
        """all sequences of refinements and indexing runs: the match with the current model never decreases"""
        laue = 6
        pat, mp = phase(laue)
        true = entries(laue, 4)
        pats = simulate(pat, true).reshape(-1, *SHAPE)
        start = np.stack([turned(t, AXES[(7 * i) % 13], 3.0) for i, t in enumerate(true)])
        ops = ("coarse", "fine", "axial", "gradient", "binned", "index", "restart")
        for seq in itertools.product(ops, repeat=2 if not THOROUGH else 3):
            seq = (first,) + seq
            cx.state("seq", seq)
            case = dict(history=list(seq))
            e = scan(pats, start)
            for op in seq:
                q0 = e.get_orientations().double().numpy().copy()
                if op == "index":
                    index(cx, e, mp, geometry(), case, dictionary_resolution_degrees=40.0)
                    continue
                if op == "restart":
                    e.set_orientations(torch.as_tensor(start).float())
                    continue
                if op == "gradient":
                    grad_run(cx, mp, e, op, case, n_iter=10)
                else:
                    grid_run(cx, mp, e, op, case, **{"coarse": dict(grid_semi_edge_in_degrees=3.0, n_iter=3), "fine": dict(grid_semi_edge_in_degrees=0.5, n_iter=2, batch_size=3), "axial": dict(axial_grid_dimension=1, kernel_radius_in_steps=3, n_iter=3), "binned": dict(virtual_binning=2, n_iter=2)}[op])
                got = common(cx, e, q0, pats, np.zeros(4), laue, op, case)
                f = (lambda q: smooth(mp, q, pats)) if op == "gradient" else (lambda q: score(pat, q, pats, 2 if op == "binned" else 1))
                cx.expect((f(got) >= f(q0) - 3e-3).all(), f"{op}-worse", "match got worse", **case)


for _f in ("coarse", "fine", "axial", "gradient", "binned"):
    histories(_f)


@ck.group("refused", timeout=100)
def refused(cx):
    """scans that were not indexed are refused, patterns unchanged"""
    laue = 11
    pat, mp = phase(laue)
    pats = simulate(pat, entries(laue, 3)).reshape(-1, *SHAPE)
    for f in (RF.orientation_grid_refinement, RF.orientation_grad_refinement):
        e = make(pats)
        cx.state("refused", f.__name__)
        try:
            kw = dict(grid_semi_edge_in_degrees=1.0) if "grid" in f.__name__ else {}
            with quiet():
                f(mp, geometry(), e, batch_size=2, **kw)
            cx.expect(False, "refused", "a scan without orientations is refined", method=f.__name__)
        except Exception:
            pass
        cx.expect(np.array_equal(e.patterns.numpy(), pats.astype("f4")), "patterns", "patterns changed", method=f.__name__)
        cx.trans()


if __name__ == "__main__":
    ck.main()
