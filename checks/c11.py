"""C11  Experimental patterns keep pixels, positions, orientations and phases together through every history."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.preprocessing.clahe import clahe_grayscale
from ebsdtorch.preprocessing.nlpar import nlpar

torch.set_num_threads(1)
DEPTH = 5 if THOROUGH else 3
MDEPTH = 5 if THOROUGH else 4
ck = Check("C11", bounds=f"all sequences of {DEPTH} processing steps (three normalisations, background, CLAHE, NLPAR, standard cleaning) with reads of every subset of patterns and binning factor after each step; all sequences of {MDEPTH} "
           "reads and writes of orientations, positions and deformations, whole and by index list; all metric assignments of up to 3 phases x 3 patterns in every order of arrival; all input layouts")


def scan(*shape, s=1):
    return torch.as_tensor(np.random.default_rng(s).random(shape)).float()


def subsets(n):
    for k in range(1, n + 1):
        yield from itertools.permutations(range(n), k)


IDX4 = [i for i in subsets(4) if len(i) in (1, 2, 4)]


def step(cx, e, op, model, ss, case):
    """apply op to the object and the model; returns the new model"""
    n = len(model)
    m = torch.as_tensor(model)
    if op in ("minmax", "standard") and float(m.std((1, 2)).min()) < 1e-2:
        return None  # a pattern without contrast
    if op == "minmax":
        lo, hi = m.amin((1, 2), keepdim=True), m.amax((1, 2), keepdim=True)
        want, tol = (m - lo) / (hi - lo), 2e-3 / max(float((hi - lo).min()), 2e-3)
        cx.call(e.normalize_per_pattern, "minmax", _key=op, _case=case)
    elif op == "zeromean":
        want, tol = m - m.mean((1, 2), keepdim=True), 1e-5
        cx.call(e.normalize_per_pattern, "zeromean", _key=op, _case=case)
    elif op == "standard":
        want, tol = (m - m.mean((1, 2), keepdim=True)) / m.std((1, 2), keepdim=True), 0.1
        cx.call(e.normalize_per_pattern, "standard", _key=op, _case=case)
    elif op == "background":
        want, tol = m - m.mean(0, keepdim=True), 1e-5
        cx.call(e.subtract_overall_background, _key=op, _case=case)
    elif op == "clahe":
        if m.min() < 0 or m.max() > 1:
            return None
        want = torch.stack([clahe_grayscale(x.float()[None, None], 8.0, 16, (2, 2))[0, 0] for x in m])
        tol = 2e-3
        cx.call(e.contrast_enhance_clahe, clip_limit=8.0, tile_grid_size=2, n_bins=16, _key=op, _case=case)
    elif op == "nlpar":
        want = nlpar(m.float().reshape(*ss, *m.shape[1:]), k_rad=1, coeff=0.3).reshape(m.shape)
        if not torch.isfinite(want).all():
            return None
        tol = 2e-3 * max(float(m.abs().max()), 1)
        cx.call(e.do_nlpar, k_rad=1, coeff=0.3, _key=op, _case=case)
    got = e.get_patterns(torch.arange(n), 1).double()
    cx.close(got, want.double(), op, f"patterns after {op}", tol=tol, rtol=1e-3, **case)
    if op == "standard":
        cx.close(got.std((1, 2)), np.ones(n), "deviation", "standard deviation", tol=1e-3, **case)
    cx.expect(e.n_patterns == n and tuple(e.spatial_shape) == tuple(ss) and tuple(e.pattern_shape) == tuple(m.shape[1:]), "shape", "shapes changed", **case)
    return got.numpy().copy()


STEPS = ("minmax", "zeromean", "standard", "background", "clahe", "nlpar")


def processing(first):
    @ck.group("processing-" + first, timeout=900)
    def g(cx):
        for ss in ((2, 2), (3, 1)):
            n = ss[0] * ss[1]
            for rest in itertools.product(STEPS, repeat=DEPTH - 1):
                ops = (first,) + rest
                cx.state(ss, ops)
                x = scan(*ss, 6, 4, s=7)
                e = ExperimentPatterns(x.clone())
                model = x.double().numpy().reshape(n, 6, 4)
                for k, op in enumerate(ops):
                    new = step(cx, e, op, model, ss, dict(operations=ops, step=k, scan=ss))
                    model = model if new is None else new
                for idx in subsets(n) if ops[-1] == "minmax" else ((0,), tuple(range(n))[::-1]):
                    for b in (1, 2):
                        got = cx.call(e.get_patterns, torch.tensor(idx), b, _key="get_patterns", _case=idx)
                        want = model[list(idx)].reshape(len(idx), 6 // b, b, 4 // b, b).mean((2, 4))
                        if got is not None:
                            cx.close(got.double(), want, "get_patterns", "binned subset of the patterns", tol=1e-5 * max(1, np.abs(model).max()), operations=ops, indices=idx, binning=b)
        cx.sample(operations=ops, patterns=model)


for s_ in STEPS:
    processing(s_)


@ck.group("cleaning", timeout=200)
def cleaning(cx):
    """standard cleaning is its four steps, for each pattern by itself once the background is gone"""
    for ss in ((2, 3), (5,), (4, 1)):
        for h, w in ((8, 8), (12, 8), (9, 13), (16, 10)):
            cx.state(ss, h, w)
            x = scan(*ss, h, w, s=h * w)
            a, b = ExperimentPatterns(x.clone()), ExperimentPatterns(x.clone())
            a.standard_clean()
            b.subtract_overall_background()
            b.normalize_per_pattern("minmax")
            b.contrast_enhance_clahe()
            b.normalize_per_pattern("minmax")
            n = a.n_patterns
            p = a.get_patterns(torch.arange(n), 1)
            cx.close(p, b.get_patterns(torch.arange(n), 1), "steps", "standard cleaning differs from its steps", tol=1e-6)
            cx.close(p.amin((1, 2)), np.zeros(n), "lowest", "lowest intensity", tol=1e-6)
            cx.close(p.amax((1, 2)), np.ones(n), "highest", "highest intensity", tol=2e-3)
            # an added background common to all patterns makes no difference
            c = ExperimentPatterns(x + scan(h, w, s=99))
            c.standard_clean()
            q = c.get_patterns(torch.arange(n), 1)
            cx.expect(float((p - q).abs().mean()) < 0.02, "background", "cleaning depends on the common background", shape=(h, w))
    cx.sample(pattern=p[0])


@ck.group("layouts", timeout=200)
def layouts(cx):
    base = scan(3, 4, 7, 6, s=3)
    cases = {}
    for name, t in {
        "full": base, "cropped": base[..., 1:-1, 2:], "cropped-scan": base[1:, ::2], "flipped": base.flip(0), "transposed": base.transpose(-1, -2), "scan-transposed": base.transpose(0, 1),
        "all-transposed": base.permute(3, 2, 1, 0), "list": base[0], "list-strided": base[:, 0], "list-transposed": base[0].transpose(1, 2), "single": base[0, 0], "single-transposed": base[0, 0].T, "one": base[:1, :1],
        "expanded": base[:1, :1].expand(3, 4, 7, 6), "double": base.double(),
    }.items():
        cx.state(name)
        e = cx.call(ExperimentPatterns, t.clone(memory_format=torch.preserve_format) if name != "expanded" else t, _key="layout", _case=name)
        if e is None:
            continue
        flat = t.reshape(-1, *t.shape[-2:])
        cx.expect(e.n_patterns == len(flat) and e.n_pixels == flat[0].numel(), "count", "number of patterns or pixels", layout=name)
        cx.expect(tuple(e.pattern_shape) == tuple(t.shape[-2:]) and int(np.prod(tuple(e.spatial_shape))) == len(flat), "shape", "shapes", layout=name)
        got = e.get_patterns(torch.arange(len(flat)), 1)
        cx.close(got, flat, "order", "patterns are not in scan order", tol=0, layout=name)
        cx.close(e.get_patterns(torch.tensor([len(flat) - 1]), 1), flat[-1:], "last", "last pattern", tol=0, layout=name)
        if name != "expanded":
            for nt in ("minmax", "zeromean", "standard"):
                cx.call(e.normalize_per_pattern, nt, _key="normalize", _case=name)
            cx.close(e.get_patterns(torch.arange(len(flat)), 1).double().mean((1, 2)), np.zeros(len(flat)), "normalized", "normalised patterns", tol=1e-5, layout=name)
            cx.call(e.normalize_per_pattern, "minmax", _key="normalize", _case=name)
            if t.dim() == 4:
                before = e.get_patterns(torch.arange(len(flat)), 1).clone()
                cx.call(e.do_nlpar, k_rad=1, _key="nlpar", _case=name)
                if len(flat) > 1:
                    cx.close(e.get_patterns(torch.arange(len(flat)), 1), nlpar(before.reshape(t.shape), k_rad=1).reshape(before.shape), "nlpar", "NLPAR on the scan grid", tol=1e-4, layout=name)
    for shape in ((5,), (2, 2, 2, 3, 3), ()):
        cx.state(shape)
        try:
            ExperimentPatterns(torch.zeros(shape))
            ok = False
        except ValueError:
            ok = True
        cx.expect(ok, "dims", f"patterns of shape {shape} accepted")
    for bad in ("", "max", "MINMAX"):
        try:
            ExperimentPatterns(base.clone()).normalize_per_pattern(bad)
            ok = False
        except ValueError:
            ok = True
        cx.expect(ok, "method", f"normalisation {bad!r} accepted")
    e = ExperimentPatterns(base[0].clone())
    try:
        e.do_nlpar()
        ok = False
    except ValueError:
        ok = True
    cx.expect(ok, "nlpar-list", "NLPAR of a list of patterns accepted")
    cx.sample(layouts="see code")


FIELDS = {
    "orientations": (lambda e: e.set_orientations, lambda e: e.get_orientations, (4,)),
    "coordinates": (lambda e: e.set_spatial_coords, lambda e: e.get_spatial_coords, (2,)),
}


def metadata(first):
    @ck.group("metadata-" + first, timeout=600)
    def g(cx):
        idx = [(0,), (2,), (3, 1), (0, 1, 2, 3), (2, 0, 3)]
        ops = ["oA", "oB", "cA", "cB", "fA", "fI", "fS"] + [f"o{k}" for k in range(len(idx))] + [f"c{k}" for k in range(len(idx))]
        if first not in ops:
            raise RuntimeError(first)
        val = lambda tag, shape: torch.as_tensor(np.random.default_rng(abs(hash_(tag)) % 2**31).standard_normal(shape)).float()
        for rest in itertools.product(ops if THOROUGH else [o for o in ops if o not in ("oB", "c1", "o1", "c4")], repeat=(3 if THOROUGH else 2)):
            seq = (first,) + rest
            cx.state(seq)
            e = ExperimentPatterns(torch.zeros(4, 3, 3))
            m = {"o": None, "c": None, "f": None}
            for k, op in enumerate(seq):
                kind, what = op[0], op[1]
                case = dict(operations=seq, step=k)
                if kind == "f":
                    v = val((op, k), (1 if what == "S" else 4, 3, 3))
                    if what == "I":
                        cx.call(e.set_inv_f_matrix, _key="set_f", _case=case)
                        m["f"] = torch.eye(3).expand(4, 3, 3)
                    else:
                        cx.call(e.set_inv_f_matrix, v.clone().reshape(len(v), 9) if k % 2 else v.clone(), _key="set_f", _case=case)
                        m["f"] = v.expand(4, 3, 3)
                else:
                    name = "orientations" if kind == "o" else "coordinates"
                    set_, get_, tail = FIELDS[name]
                    if what in "AB":
                        v = val((op, k), (4,) + tail)
                        cx.call(set_(e), v.clone(), _key="set", _case=case)
                        m[kind] = v.clone()
                    elif m[kind] is not None:
                        i = idx[int(what)]
                        v = val((op, k), (len(i),) + tail)
                        cx.call(set_(e), v.clone(), torch.tensor(i), _key="set-indices", _case=case)
                        m[kind][list(i)] = v
                # read everything back
                for kk, get in (("o", e.get_orientations), ("c", e.get_spatial_coords), ("f", e.get_inv_f_matrix)):
                    if m[kk] is None:
                        continue
                    got = cx.call(get, _key="get", _case=case)
                    if got is not None:
                        cx.close(got, m[kk], "read", "value read back", tol=0, **case)
                    i = idx[(k + len(seq)) % len(idx)]
                    got = cx.call(get, torch.tensor(i), _key="get", _case=case)
                    if got is not None:
                        cx.close(got, m[kk][list(i)], "read-indices", "values read back by index", tol=0, **case)
        cx.sample(operations=seq)


def hash_(t):
    import zlib
    return zlib.crc32(repr(t).encode())


for f_ in ("oA", "cA", "fA", "fI", "fS"):
    metadata(f_)


@ck.group("scales", timeout=100)
def scales(cx):
    """every pattern has mean 0 and deviation 1 after the standard normalisation, and spans 0..1 after the other, whatever its unit"""
    n = 5
    for hw in ((3, 4), (5, 5), (2, 7)):
        for s in range(4):
            base = np.random.default_rng(s).standard_normal((n, *hw)) * 0.5 + s
            for unit in (1e-6, 1e-4, 1e-2, 1.0, 1e2, 1e4, 1e6):
                # a unit of its own for every pattern, too
                for units in (np.full(n, unit), unit * 10.0 ** np.arange(-2, 3)):
                    p = torch.as_tensor(base * units[:, None, None]).float()
                    cx.state(hw, s, unit, units[0])
                    e = ExperimentPatterns(p.clone())
                    cx.call(e.normalize_per_pattern, "standard", _key="scales")
                    m = e.get_patterns(torch.arange(n), 1).double()
                    ok = (m.mean((1, 2)).abs() < 1e-3) & ((m.std((1, 2)) - 1).abs() < 0.06) & ((m - (q := p.double()).sub(q.mean((1, 2), keepdim=True)).div(q.std((1, 2), keepdim=True))).abs().amax((1, 2)) < 0.3)
                    cx.expect_all(ok, "scales", "mean 0 and deviation 1 in any unit", rows=units, shape=hw, s=s)
                    if units.min() < 0.3:
                        continue  # the span has a small constant added to it
                    e = ExperimentPatterns(p.clone())
                    cx.call(e.normalize_per_pattern, "minmax", _key="scales")
                    m = e.get_patterns(torch.arange(n), 1).double()
                    cx.expect_all((m.amin((1, 2)).abs() < 1e-3) & ((m.amax((1, 2)) - 1).abs() < 5e-3), "span", "values from 0 to 1 in any unit", rows=units, shape=hw, s=s)
    cx.sample(unit=unit)


@ck.group("refused", timeout=100)
def refused(cx):
    new = lambda: ExperimentPatterns(torch.zeros(4, 3, 3))
    t = torch.zeros
    i2 = torch.tensor([0, 1])
    bad = {
        "positions unset": lambda e: e.get_spatial_coords(), "positions unset by index": lambda e: e.get_spatial_coords(i2), "deformation unset": lambda e: e.get_inv_f_matrix(),
        "phases unset": lambda e: e.get_indices_per_phase(), "nothing to combine": lambda e: e.combine_indexing_results(True),
        "3 orientations": lambda e: e.set_orientations(t(3, 4)), "5 orientations": lambda e: e.set_orientations(t(5, 4)), "orientation vectors": lambda e: e.set_orientations(t(4, 3)), "flat orientations": lambda e: e.set_orientations(t(16)),
        "too few for indices": lambda e: e.set_orientations(t(1, 4), i2), "indices 2D": lambda e: e.set_orientations(t(2, 4), i2[:, None]), "vectors at indices": lambda e: e.set_orientations(t(2, 3), i2),
        "3 positions": lambda e: e.set_spatial_coords(t(3, 2)), "positions at indices": lambda e: e.set_spatial_coords(t(3, 2), i2),
        "3 deformations": lambda e: e.set_inv_f_matrix(t(3, 3, 3)), "2x2 deformations": lambda e: e.set_inv_f_matrix(t(4, 2, 2)), "8 components": lambda e: e.set_inv_f_matrix(t(4, 8)),
    }
    for n, f in bad.items():
        cx.state(n)
        e = new()
        try:
            f(e)
            ok = False
        except ValueError:
            ok = True
        except Exception as ex:  # noqa
            ok = False
            n += f" ({type(ex).__name__})"
        cx.expect(ok, n, f"{n} is not refused with a ValueError")
    cx.sample(cases=list(bad))


def phases(P, N, K):
    @ck.group(f"phases-{P}-{N}-{K}", timeout=600)
    def g(cx):
        """the best of every phase for every pattern, whatever the order in which they arrive"""
        ids = [(0,), (4,), (0, 1), (2, 1), (1, 0), (0, 1, 2), (2, 0, 1), (1, 3, 0), (0, 5, 2)]
        levels = (0.0, 1.0, 2.0)
        for order in [i for i in ids if len(i) == P]:
            for vals in itertools.product(levels, repeat=P * N):
                v = np.array(vals).reshape(P, N)
                for high in (True, False):
                    cx.state(order, vals, high)
                    e = ExperimentPatterns(torch.zeros(N, 2, 2))
                    q = {}
                    for p, pid in enumerate(order):
                        # matches of a phase are sorted, best first
                        met = torch.as_tensor(v[p])[:, None] + torch.arange(K) * (-3.0 if high else 3.0)
                        qu = torch.full((N, K, 4), float(pid)) + torch.arange(N)[:, None, None] * 10 + torch.arange(K)[None, :, None] * 100
                        q[pid] = (qu.float(), met.float())
                        cx.call(e.set_raw_indexing_results, qu.float().clone(), met.float().clone(), pid, _key="set-raw")
                    case = dict(phases=order, metrics=v, higher_is_better=high, matches=K)
                    for again in range(2):
                        cx.call(e.combine_indexing_results, high, _key="combine", _case=case)
                        if e.phases is None:
                            break
                        best = v.max(0) if high else v.min(0)
                        ph = e.phases.long().tolist()
                        ok = all(pid in order and v[order.index(pid), n] == best[n] for n, pid in enumerate(ph))
                        cx.expect(ok, "best", f"phases {ph}", **case)
                        if ok:
                            cx.close(e.get_orientations(), torch.stack([q[pid][0][n, 0] for n, pid in enumerate(ph)]), "orientation", "orientation of another phase, pattern or match", tol=0, **case)
                            cx.close(e.best_metrics, best, "metric", "metric of the best match", tol=0, **case)
                            per = cx.call(e.get_indices_per_phase, _key="indices", _case=case)
                            if per is not None:
                                want = [[n for n in range(N) if ph[n] == i] for i in range(max(ph) + 1)]
                                cx.expect([x.tolist() for x in per] == want, "partition", f"indices per phase {per}", **case)
                        # changing the result does not change what was indexed
                        if again == 0:
                            e.set_orientations(torch.full((1, 4), -1.0), torch.tensor([0]))
                # a phase indexed again replaces its earlier result
                e = ExperimentPatterns(torch.zeros(N, 2, 2))
                for rep in range(2):
                    for p, pid in enumerate(order):
                        e.set_raw_indexing_results(q[pid][0] + (1000 if rep == 0 else 0), q[pid][1] + (50 if rep == 0 else 0), pid)
                e.combine_indexing_results(False)
                cx.close(e.best_metrics, v.min(0), "replaced", "result of a phase that was indexed again", tol=0, phases=order, metrics=v)
        cx.sample(phases=order, metrics=v, chosen=e.phases)


for P, N, K in ((1, 1, 1), (1, 3, 2), (2, 1, 1), (2, 2, 1), (2, 2, 3), (3, 1, 2), (3, 2, 1)) + (((2, 3, 2), (3, 2, 2)) if THOROUGH else ()):
    phases(P, N, K)


if __name__ == "__main__":
    ck.main()
