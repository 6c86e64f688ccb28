"""C10  Dictionary indexing finds the best entry of the dictionary, however the work is cut up."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contextlib, itertools
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.ebsd import indexing as IX
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.s2_and_so3.laue_fz_ori import sample_ori_fz_laue_angle
from mc import rot, sym
from checks.c13 import reference, pooled
from checks.c20 import model as rigid, grid, three

torch.set_num_threads(1)
F32, F64 = torch.float32, torch.float64
CPU = torch.device("cpu")
ck = Check("C10", bounds="every entry of the dictionaries of all 11 Laue groups as noise-free pattern, with all symmetrically equivalent orientations; all pairs of experiment and dictionary chunk sizes; all combinations of metric, mask, binning, mean subtraction, number of matches and phases; "
           "PCA with every number of components, learned on the same or another dictionary; all sequences of two (thorough: three) indexing runs on one scan")


@contextlib.contextmanager
def quiet():
    """the progress bar writes to the real standard output"""
    sys.stdout.flush()
    keep = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        yield
    finally:
        sys.stdout.flush()
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)


def master(seed, n=12, laue=None, freq=1.0):
    """a smooth master pattern, continuous over the sphere, with the symmetry of a Laue group or none"""
    u = np.random.default_rng(seed)
    k = u.standard_normal((7, 3)) * 2.0 * freq
    ph, am = u.uniform(0, 6.28, 7), u.uniform(0.5, 1, 7)
    if laue is not None:
        k = u.standard_normal((3, 3)) * (2.0 if laue < 9 else 3.0) * freq
        am = u.uniform(0.5, 1, 3)
        ops = sym.GROUPR[laue]
        k, am, ph = np.einsum("gij,kj->gki", ops, k).reshape(-1, 3), np.tile(am, len(ops)), 0.0
    c = (np.arange(n) + 0.5) / n * 2 - 1
    x, y = np.meshgrid(c, c)  # x along the columns
    r = np.maximum(np.abs(x), np.abs(y))
    out = []
    for sgn in (1, -1):
        swap = np.abs(y) > np.abs(x)
        big, sml = np.where(swap, y, x), np.where(swap, x, y)
        q = np.pi / 4 * np.divide(sml, big, out=np.zeros_like(big), where=big != 0)
        rho = big * np.sqrt(2 - big**2)
        a, b = rho * np.cos(q), rho * np.sin(q)
        v = np.stack([np.where(swap, b, a), np.where(swap, a, b), sgn * (1 - r**2)], -1)
        out.append((am * np.cos(v @ k.T + ph)).sum(-1))
    return 10 + np.concatenate(out, 1)


def matrix(q):
    w, x, y, z = q.T
    m = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
    return np.moveaxis(np.array(m), -1, 0)


PC, TILT = (0.42, 0.31, 0.55), (2.0, 70.0, 5.0)


def simulate(pat, q, shape, b=1):
    """patterns of the orientations: the reference does not use the code under test"""
    r, t = rigid(PC, TILT, shape)
    d = three(grid(shape, (b, b))) @ r.T + t
    d /= np.linalg.norm(d, axis=1, keepdims=True)
    v = np.einsum("qij,pj->qpi", matrix(q), d)
    p = pooled(pat, b) if b > 1 else pat
    return reference(p, v.reshape(-1, 3))[0].reshape(len(q), -1)


def binned(pats, b):
    n, h, w = pats.shape
    return pats.reshape(n, h // b, b, w // b, b).mean((2, 4)).reshape(n, -1)


def prepare(x, mask, mean, unit):
    x = x if mask is None else x[:, np.asarray(mask).ravel()]
    x = x - x.mean(1, keepdims=True) if mean else x
    return x / np.linalg.norm(x, axis=1, keepdims=True) if unit else x


def metrics(q, d, metric):
    if metric == "angular":
        return q @ d.T
    if metric == "euclidean":
        return ((q[:, None] - d[None]) ** 2).sum(-1)
    return np.abs(q[:, None] - d[None]).sum(-1)


_dict = {}


def dictionary(laue, res):
    if (laue, res) not in _dict:
        _dict[laue, res] = sample_ori_fz_laue_angle(laue, res, CPU, permute=False).double().numpy()
    return _dict[laue, res]


def phase(seed, laue, n=12):
    pat = master(seed, n)
    return pat, MasterPattern(torch.as_tensor(pat).float(), laue_group=laue)


GEO = {}


def geometry(shape):
    if shape not in GEO:
        GEO[shape] = EBSDGeometry(shape, TILT, PC)
    return GEO[shape]


def same(a, b):
    """rows of a: which rows of b are the same rotation"""
    return np.abs(a @ b.T) > 1 - 1e-6


def judge(cx, e, phases, res, pats, shape, metric="angular", mask=None, b=1, mean=True, k=1, proj=None, tol=2e-3, case=None):
    """raw and combined results against the exhaustive comparison"""
    case = case or {}
    up = metric == "angular"
    best = []
    if not hasattr(e, "raw_indexing_results"):
        return cx.expect(False, "raw", "no matches are kept", **case)
    cx.expect(sorted(e.raw_indexing_results) == list(range(len(phases))), "phases", f"results of the phases {sorted(e.raw_indexing_results)}", **case)
    for i, (pat, laue) in enumerate(phases):
        ori = dictionary(laue, res)
        dat = prepare(simulate(pat, ori, shape, b), mask, True, up)
        qry = prepare(binned(pats, b), mask, mean, up)
        if proj is not None:
            v = proj(pat, laue)
            dat, qry = dat @ v, qry @ v
        d = metrics(qry, dat, metric)
        scale = 1.0 if up else max(1.0, np.abs(d).max())
        got_q, got_m = e.raw_indexing_results[i]
        got_q, got_m = got_q.double().numpy(), got_m.double().numpy()
        cx.expect(got_q.shape == (len(pats), k, 4) and got_m.shape == (len(pats), k), "raw-shape", f"shape of the matches {got_q.shape}", **case)
        if got_q.shape != (len(pats), k, 4):
            return
        srt = np.sort(d, 1)
        srt = srt[:, ::-1] if up else srt
        cx.close(got_m / scale, srt[:, :k] / scale, "metric", f"metric of phase {i} is not the best of the dictionary", tol=tol, **case)
        hit = same(got_q.reshape(-1, 4), ori)
        cx.expect_all(hit.any(1), "member", "matched orientation is not in the dictionary", rows=got_q.reshape(-1, 4))
        true = np.where(hit.reshape(len(pats), k, -1), d[:, None], np.nan)
        true = np.nanmax(true, -1) if up else np.nanmin(true, -1)
        cx.close(got_m / scale, true / scale, "pairing", f"metric of phase {i} does not belong to the matched orientation", tol=tol, **case)
        for row in got_q:
            s = same(row, row)
            cx.expect(s.sum() == k, "distinct", "an entry is matched twice", **case)
        best.append((srt[:, 0], got_q[:, 0], got_m[:, 0]))
    m = np.stack([x[0] for x in best])
    pick = m.argmax(0) if up else m.argmin(0)
    order = np.sort(m, 0)
    gap = np.abs(order[-1] - order[-2]) if up and len(phases) > 1 else (np.abs(order[0] - order[1]) if len(phases) > 1 else np.full(len(pats), np.inf))
    ph = e.phases.numpy()
    for j in range(len(pats)):
        if gap[j] > 4 * tol * (1 if up else max(1, m.max())):
            cx.expect(ph[j] == pick[j], "phase", f"pattern {j} has phase {ph[j]} instead of {pick[j]}", **case)
        cx.expect(same(e.get_orientations()[j : j + 1].double().numpy(), best[ph[j]][1][j : j + 1]).all(), "orientation", f"orientation of pattern {j} is not the best match of its phase", **case)
        cx.close(float(e.best_metrics[j]), best[ph[j]][2][j], "best-metric", "metric of the best match", tol=1e-6 * max(1, abs(best[ph[j]][2][j])), **case)
    cx.trans(len(pats))


def run(cx, e, mps, geo, case, n_pca=None, **kw):
    args = dict(quantized_if_x86=False, match_dtype=F32)
    if n_pca is not None:
        args = dict(quantized_via_ao=False, match_dtype=F32, n_pca_components=n_pca)
    args.update(kw)
    f = IX.dictionary_index_orientations if n_pca is None else IX.pca_dictionary_index_orientations
    with quiet():
        ok = cx.call(f, mps, geo, e, _key="index" if n_pca is None else "pca", _case=case, **args)
    return not cx.fails or hasattr(e, "best_metrics")


def make(pats):
    return ExperimentPatterns(torch.as_tensor(pats).float())


def every(laue):
    @ck.group(f"entries-{laue}", timeout=300)
    def g(cx):
        """every entry of a dictionary is found from its own pattern"""
        shape = (8, 10)
        res = {1: 60.0, 2: 55.0, 3: 50.0}.get(laue, 40.0 if laue < 8 else 30.0) * (0.25 if THOROUGH else 0.5)
        pat, mp = phase(laue, laue)
        ori = dictionary(laue, res)
        pats = simulate(pat, ori, shape).reshape(-1, *shape)
        cx.states("dictionary", ori)
        case = dict(laue=laue, resolution=res, entries=len(ori))
        cx.expect(len(ori) >= 8, "dictionary", f"only {len(ori)} orientations", **case)
        for metric, tol in (("angular", 1e-4), ("euclidean", 1e-3), ("manhattan", 1e-2)):
            if metric == "manhattan" and len(ori) > 500 and not THOROUGH:
                continue
            # gain and offset of the detector are not known
            gain = np.random.default_rng(3).uniform(0.3, 4, (len(ori), 1, 1)) if metric == "angular" else 1.0
            e = make(pats * gain + (50.0 if metric != "x" else 0))
            run(cx, e, mp, geometry(shape), dict(case, metric=metric), distance_metric=metric, dictionary_resolution_degrees=res, dictionary_chunk_size=100, experiment_chunk_size=64)
            if not hasattr(e, "best_metrics"):
                continue
            got = e.get_orientations().double().numpy()
            d = metrics(prepare(pats.reshape(len(ori), -1), None, True, True), prepare(pats.reshape(len(ori), -1), None, True, True), "angular")
            np.fill_diagonal(d, -1)
            unique = d.max(1) < 1 - 1e-4
            cx.expect(unique.mean() > 0.95, "unique", "patterns of the dictionary look the same", **case)
            ok = (np.abs((got * ori).sum(1)) > 1 - 1e-6) | ~unique
            cx.expect_all(ok, f"found-{metric}", "orientation of a dictionary pattern is not found", rows=ori)
            m = e.best_metrics.double().numpy()
            if metric == "angular":
                cx.close(m, np.ones(len(ori)), "perfect", "a perfect match has not metric 1", tol=tol, rows=ori)
            else:
                sc = np.abs(prepare(pats.reshape(len(ori), -1), None, True, False))
                cx.close(m / (sc.sum(1) if metric == "manhattan" else (sc**2).sum(1)), np.zeros(len(ori)), f"perfect-{metric}", "a perfect match has not distance 0", tol=tol * 3, rows=ori)
        cx.sample(**case, orientation=ori[0])


for l_ in range(1, 12):
    every(l_)


def equivalent(laue):
    @ck.group(f"equivalent-{laue}", timeout=300)
    def g(cx):
        """symmetrically equivalent orientations are found as the one in the fundamental zone"""
        shape, res = (10, 12), 40.0 if laue < 10 else 30.0
        res *= 0.7 if THOROUGH else 1.0
        pat = master(50 + laue, 80, laue)
        mp = MasterPattern(torch.as_tensor(pat).float(), laue_group=laue)
        ori = dictionary(laue, res)
        ops = sym.GROUP[laue]
        q = rot.qmul(ops[:, None], ori[None]).reshape(-1, 4)
        if len(q) > 1500 and not THOROUGH:
            q = q[:: len(q) // 1500 + 1]
        cx.states("orientations", q)
        case = dict(laue=laue, resolution=res)
        pats = simulate(pat, q, shape).reshape(-1, *shape)
        e = make(pats)
        run(cx, e, mp, geometry(shape), case, dictionary_resolution_degrees=res, experiment_chunk_size=100, dictionary_chunk_size=128)
        if not hasattr(e, "best_metrics"):
            return
        got = e.get_orientations().double().numpy()
        cx.expect_all(e.best_metrics.numpy() > 0.99, "metric", "an equivalent orientation of a dictionary entry does not match", rows=q)
        c = np.max([np.abs((rot.qmul(s_, got) * q).sum(-1)) for s_ in ops], 0)
        cx.expect_all(c > np.cos(np.deg2rad(4)), "equivalent", "the match is not equivalent to the orientation", rows=q)
        hit = same(got, ori).any(1)
        cx.expect_all(hit, "zone", "the match is not in the dictionary", rows=q)
        cx.sample(**case, orientation=q[1], found=got[1])


for l_ in range(1, 12):
    equivalent(l_)


def scan(pats_of, n=6, noise=0.3, shape=(8, 12), seed=4):
    """a few noisy patterns of orientations between those of the dictionary"""
    u = np.random.default_rng(seed)
    q = u.standard_normal((n, 4))
    q /= np.linalg.norm(q, axis=1, keepdims=True)
    x = np.concatenate([simulate(pats_of[j % len(pats_of)], q[j : j + 1], shape) for j in range(n)])
    x = x + noise * u.standard_normal(x.shape)
    return (x * u.uniform(0.5, 2, (n, 1)) + u.uniform(-1, 1, (n, 1))).reshape(n, *shape)


CHUNK = (8, 12)
RES = 62.0


@ck.group("chunks", timeout=300)
def chunks(cx):
    """all chunk sizes give the exhaustive comparison"""
    pat, mp = phase(21, 7)
    pats = scan([pat], 5, shape=CHUNK)
    n = len(dictionary(7, RES))
    sizes = [1, 2, 3, 4, 5, 6, 100]
    dsz = sorted({1, 2, 3, 5, 7, n - 1, n, n + 1, 1000} | (set(range(1, n, 3)) if THOROUGH else set()))
    for ce, cd in itertools.product(sizes, dsz):
        for k in (1, 3):
            case = dict(experiment_chunk=ce, dictionary_chunk=cd, k=k, entries=n)
            cx.state(*case.values())
            e = make(pats)
            run(cx, e, mp, geometry(CHUNK), case, experiment_chunk_size=ce, dictionary_chunk_size=cd, top_k_matches=k, dictionary_resolution_degrees=RES)
            if hasattr(e, "best_metrics"):
                judge(cx, e, [(pat, 7)], RES, pats, CHUNK, k=k, case=case)
    cx.sample(**case, metrics=e.best_metrics)


def flags(metric):
    @ck.group(f"flags-{metric}", timeout=300)
    def g(cx):
        """all combinations of mask, binning, mean, matches, chunking and phases"""
        ph = [phase(21, 7), phase(33, 4), phase(45, 11)]
        pats = scan([p[0] for p in ph], 5, shape=CHUNK)
        yy, xx = np.mgrid[:8, :12]
        for b in (1, 2, 4):
            hb, wb = 8 // b, 12 // b
            y, x = np.mgrid[:hb, :wb]
            masks = {"none": None, "disc": (y - (hb - 1) / 2) ** 2 / hb**2 + (x - (wb - 1) / 2) ** 2 / wb**2 < 0.2, "half": x + 0 * y < wb // 2 + 1, "checker": (x + y) % 2 == 0}
            for (mn, mask), mean, k, nph, small in itertools.product(masks.items(), (True, False), (1, 2, 4), (1, 2, 3), (False, True)):
                if not THOROUGH and (k, nph) in ((4, 2), (2, 3), (2, 1), (4, 3)):
                    continue
                case = dict(metric=metric, binning=b, mask=mn, mean=mean, k=k, phases=nph, small_chunks=small)
                cx.state(*case.values())
                e = make(pats)
                mps = [p[1] for p in ph[:nph]]
                keep = [p.master_pattern.clone() for p in mps]
                run(cx, e, mps if nph > 1 else mps[0], geometry(CHUNK), case, virtual_binning=b, signal_mask=None if mask is None else torch.as_tensor(mask), subtract_exp_pat_mean=mean, top_k_matches=k,
                    distance_metric=metric, dictionary_resolution_degrees=RES, experiment_chunk_size={False: 100, True: 2, "one": 1}[small], dictionary_chunk_size={False: 1000, True: 7, "one": 1}[small])
                if hasattr(e, "best_metrics"):
                    judge(cx, e, [(p[0], p[1].laue_group) for p in ph[:nph]], RES, pats, CHUNK, metric=metric, mask=mask, b=b, mean=mean, k=k, case=case)
                    cx.close(e.get_patterns(torch.arange(5), 1).double(), torch.as_tensor(pats).float().double(), "patterns", "indexing changed the patterns", tol=0, **case)
                    for p, kp in zip(mps, keep):
                        cx.expect(torch.equal(p.master_pattern, kp), "master", "indexing changed a master pattern", **case)
        cx.sample(**case)


for m_ in ("angular", "euclidean", "manhattan"):
    flags(m_)


@ck.group("precision", timeout=300)
def precision(cx):
    """number formats and 8 bit arithmetic (the default) only cost the precision of the format"""
    ph = [phase(21, 7), phase(33, 4)]
    shape = CHUNK
    for res, exact, noise in ((RES, False, 0.3), (35.0, False, 1.0), (35.0, True, 0.0)):
        for nph in (1, 2):
            pats = scan([p[0] for p in ph[:nph]], 6, noise, shape)
            if exact:
                pats = np.concatenate([simulate(p[0], dictionary(p[1].laue_group, res)[::5], shape) for p in ph[:nph]]).reshape(-1, *shape)
            for (dt, quant, tol), (ce, cd), npca in itertools.product(((F32, False, 1e-4), (torch.float16, False, 3e-3), (torch.bfloat16, False, 2e-2), (F32, True, 3e-2), (torch.float16, True, 3e-2), (None, True, 3e-2)), ((2, 7), (100, 1000), (256, 16)), (None, 96)):
                case = dict(resolution=res, noise=noise, phases=nph, dtype=str(dt), quantized=quant, experiment_chunk=ce, dictionary_chunk=cd, components=npca)
                cx.state(*case.values())
                e = make(pats)
                kw = {}
                if dt is not None:
                    kw = {"match_dtype": dt, ("quantized_if_x86" if npca is None else "quantized_via_ao"): quant}
                if npca is None:
                    kw["dictionary_resolution_degrees"] = res
                else:
                    kw.update(n_pca_components=npca, dictionary_resolution_learn_deg=res, dictionary_resolution_index_deg=res)
                f = IX.dictionary_index_orientations if npca is None else IX.pca_dictionary_index_orientations
                with quiet():
                    cx.call(f, [p[1] for p in ph[:nph]], geometry(shape), e, experiment_chunk_size=ce, dictionary_chunk_size=cd, _key="index", _case=case, **kw)
                if not hasattr(e, "best_metrics"):
                    continue
                tol = tol + (5e-3 if npca else 0)
                got, gm, ids = e.get_orientations().double().numpy(), e.best_metrics.double().numpy(), e.phases.numpy()
                top, mine = [], []
                for i, p in enumerate(ph[:nph]):
                    ori = dictionary(p[1].laue_group, res)
                    d = prepare(pats.reshape(len(pats), -1), None, True, True) @ prepare(simulate(p[0], ori, shape), None, True, True).T
                    top.append(d.max(1))
                    mine.append(np.where(same(got, ori), d, -1).max(1))
                top, mine = np.array(top), np.array(mine)[ids, np.arange(len(pats))]
                cx.close(mine, top.max(0), "best", "the match is worse than the best entry of the dictionary", tol=2 * tol, **case)
                cx.close(gm, mine, "metric", "metric does not belong to the match", tol=tol, **case)
                if exact and tol < 2e-2:
                    cx.close(mine, np.ones(len(pats)), "exact", "a perfect match is missed", tol=1e-4, **case)
    cx.sample(**case, metrics=gm)


@ck.group("histories", timeout=300)
def histories(cx):
    """several runs on one scan, with one set of master patterns: the last run decides"""
    a, b = phase(21, 7), phase(33, 4)
    pats = scan([a[0], b[0]], 4, shape=CHUNK)
    ops = []
    for mps, bn, metric, kind in itertools.product(([0], [1], [0, 1], [1, 0]), (1, 2), ("angular", "euclidean"), ("full", "pca")):
        if not THOROUGH and (kind == "pca" or metric == "euclidean") and mps not in ([0], [1, 0]):
            continue
        ops.append((mps, bn, metric, kind))
    first = [i for i, (m, bn, me, kd) in enumerate(ops) if not ((kd == "pca" or me == "euclidean") and m not in ([0], [1, 0]))]
    seqs = list(itertools.product(range(len(ops)), repeat=2))
    if THOROUGH:
        seqs += list(itertools.product(first, repeat=3))
    for seq in seqs:
        cx.state(seq)
        ph = [phase(21, 7), phase(33, 4)]
        e = make(pats)
        for step in seq:
            mps, bn, metric, kind = ops[step]
            case = dict(runs=[ops[s] for s in seq])
            kw = dict(virtual_binning=bn, distance_metric=metric)
            if kind == "full":
                run(cx, e, [ph[i][1] for i in mps], geometry(CHUNK), case, dictionary_resolution_degrees=RES, **kw)
            else:
                run(cx, e, [ph[i][1] for i in mps], geometry(CHUNK), case, n_pca=(8 // bn) * (12 // bn), dictionary_resolution_learn_deg=RES, dictionary_resolution_index_deg=RES, **kw)
        if hasattr(e, "best_metrics"):
            judge(cx, e, [(ph[i][0], ph[i][1].laue_group) for i in mps], RES, pats, CHUNK, metric=metric, b=bn, tol=4e-3, case=case)
    cx.sample(**case)


@ck.group("pca", timeout=300)
def pca(cx):
    """projection on every number of components, learned on this or another dictionary"""
    ph = [phase(21, 7, 12), phase(33, 4, 12)]
    shape = (4, 6)
    pats = scan([p[0] for p in ph], 5, shape=shape)
    y, x = np.mgrid[:4, :6]
    for b, mn in ((1, "none"), (1, "half"), (2, "none")):
        mask = None if mn == "none" else x < 3 + 0 * y
        nf = (4 // b) * (6 // b) if mask is None else int(mask.sum())
        for (learn, index), metric, nph in itertools.product(((RES, RES), (40.0, RES), (RES, 40.0)), ("angular", "euclidean"), (1, 2)):
            def proj(pat, laue):
                d = prepare(simulate(pat, dictionary(laue, learn), shape, b), mask, True, False)
                w, v = np.linalg.eigh(np.cov(d.T))
                return v, w
            wall = [proj(p[0], p[1].laue_group)[1] for p in ph[:nph]]
            for n in range(1, nf + 1):
                # a cut between equal variances has no meaning
                if n < nf and any((w[-n] - w[-n - 1]) < 5e-3 * w[-1] for w in wall):
                    if n not in (nf - 1,):
                        continue
                    if any(w[0] > 1e-6 * w[-1] for w in wall):
                        continue  # only the constant direction may be left out
                for small in (False, True, "one") if nph == 1 and (n in (3, 4, nf) or THOROUGH) else (False, True):
                    case = dict(binning=b, mask=mn, learned=learn, indexed=index, metric=metric, phases=nph, components=n, small_chunks=small)
                    cx.state(*case.values())
                    e = make(pats)
                    run(cx, e, [p[1] for p in ph[:nph]], geometry(shape), case, n_pca=n, virtual_binning=b, signal_mask=None if mask is None else torch.as_tensor(mask), distance_metric=metric, top_k_matches=2,
                        dictionary_resolution_learn_deg=learn, dictionary_resolution_index_deg=index, experiment_chunk_size={False: 100, True: 2, "one": 1}[small], dictionary_chunk_size={False: 1000, True: 7, "one": 1}[small])
                    if hasattr(e, "best_metrics"):
                        judge(cx, e, [(p[0], p[1].laue_group) for p in ph[:nph]], index, pats, shape, metric=metric, mask=mask, b=b, k=2, proj=lambda p, l: proj(p, l)[0][:, -n:], tol=1e-2, case=case)
    cx.sample(**case)


if __name__ == "__main__":
    ck.main()
