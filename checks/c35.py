"""C35  Saving, copying and restoring at any point of a history continues it as if never interrupted."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import copy, io, itertools, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from checks.c10 import quiet
from ebsdtorch.utils.pca_covmat import OnlineCovMatrix
from ebsdtorch.utils.pca_online import OjaPCA, KrasulinaPCA
from ebsdtorch.utils.knn import ChunkedKNN
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.preprocessing.resampling import GaussianBlur2d, BlurAndDownsample
from ebsdtorch.harmonics.sht import RSHT, CSHT

torch.set_num_threads(1)
F32, F64 = torch.float32, torch.float64
DEPTH = 4 if THOROUGH else 3
ck = Check("C35", bounds=f"9 kinds of objects; all histories of up to {DEPTH} operations (2 for the costly ones), interrupted at every point{' and at every pair of points' if THOROUGH else ''}; "
           "restored from a saved state into a new object and into a used one, from a saved object, from a copy, and after a change of number type")


def rnd(seed, *shape, dtype=F32):
    g = torch.Generator().manual_seed(seed)
    return torch.randn(*shape, generator=g, dtype=F64).to(dtype)


# ---- the ways to interrupt -----------------------------------------------------------------------------
def through_file(x):
    f = io.BytesIO()
    torch.save(x, f)
    f.seek(0)
    return torch.load(f, weights_only=False)


def saved_state(s, o):
    n = s.make(1)
    n.load_state_dict(through_file(o.state_dict()))
    return n


def saved_state_used(s, o):
    n = s.make(1)
    for i, (_, act) in enumerate(s.actions):
        torch.manual_seed(77 + i)
        act(n, 50 + i)
        s.observe(n)
    n.load_state_dict(through_file(o.state_dict()))
    return n


def saved_object(s, o):
    return through_file(o)


def copied(s, o):
    return copy.deepcopy(o)


def widened(s, o):
    return copy.deepcopy(o).double()


def there_and_back(s, o):
    return copy.deepcopy(o).double().float()


class Subject:
    state = True  # has a state dict
    wide = False
    depth = DEPTH
    tol = 1e-5

    def ways(self):
        w = [saved_object, copied]
        if self.state:
            w += [saved_state, saved_state_used]
        if self.wide:
            w += [widened, there_and_back]
        return w


class Covariance(Subject):
    wide = True

    def __init__(self, correlation=False, dtype=F32):
        self.name = f"covariance-{'correlation' if correlation else 'plain'}-{str(dtype)[-2:]}"
        self.kw = dict(covmat_dtype=dtype, delta_dtype=dtype, correlation=correlation)
        self.dtype = dtype
        if dtype == F64:
            self.wide = False
        self.actions = [("rows", lambda o, i: o(self.x(o, i, 6))), ("one", lambda o, i: o(self.x(o, i, 1) + 3)), ("shifted", lambda o, i: o(self.x(o, i, 3) * 5 - 7))]

    def x(self, o, i, n):
        return rnd(i, n, 4, dtype=o.mean.dtype)

    def make(self, v):
        o = OnlineCovMatrix(4, **self.kw)
        return o

    def observe(self, o):
        m = o.get_covmat() if o.obs > 1 else torch.zeros(1)
        if o.obs < 4 and o.correlation:
            m = torch.zeros(1)
        return [o.obs, o.mean, m]


class Oja(Subject):
    wide = True

    def __init__(self, plus=False, k=3):
        self.plus, self.k = plus, k
        self.name = f"oja{'-plus' if plus else ''}-{k}"
        self.wide = not plus  # random columns are drawn in the number type
        self.actions = [("rows", lambda o, i: o(rnd(i, 7, 5, dtype=o.Q.dtype))), ("one", lambda o, i: o(rnd(i, 1, 5, dtype=o.Q.dtype) * 3))]

    def make(self, v):
        torch.manual_seed(5 + v)
        return OjaPCA(5, self.k, eta=0.3, use_oja_plus=self.plus)

    def observe(self, o):
        x = rnd(99, 3, 5, dtype=o.Q.dtype)
        z = o.transform(x)
        return [o.get_components(), z, o.inverse_transform(z)]


class Krasulina(Oja):
    tol = 1e-4

    def __init__(self):
        self.name = "krasulina"
        self.wide = True
        self.actions = [("rows", lambda o, i: o(rnd(i, 7, 5, dtype=o.C.dtype) * 0.3)), ("one", lambda o, i: o(rnd(i, 1, 5, dtype=o.C.dtype)))]

    def make(self, v):
        torch.manual_seed(5 + v)
        return KrasulinaPCA(5, 2, eta=0.1)

    def observe(self, o):
        x = rnd(99, 3, 5, dtype=o.C.dtype)
        z = o.transform(x)
        return [z, o.inverse_transform(z)]


class Geometry(Subject):
    wide = True
    tol = 1e-4
    depth = min(DEPTH, 3)

    def __init__(self):
        self.name = "geometry"
        self.actions = [
            ("fit rotations", lambda o, i: o.set_optimizable_se3_params(opt_rots=(True, False, True))),
            ("fit shifts", lambda o, i: o.set_optimizable_se3_params(opt_shifts=(False, True, True))),
            ("fit nothing", lambda o, i: o.set_optimizable_se3_params((False,) * 3, (False,) * 3)),
            ("step", self.step),
        ]

    def make(self, v):
        if v:
            return EBSDGeometry((6, 8), tilts_degrees=(1.0, 60.0, 3.0), proj_center=(0.3, 0.6, 0.9))
        return EBSDGeometry((6, 8), tilts_degrees=(0.5, 70.0, 8.0), proj_center=(0.45, 0.2, 0.6), se3_vector=torch.tensor([[0.02, -0.01, 0.03, 0.5, -0.2, 0.1]]), opt_rots=(False, True, False))

    def gradient(self, o):
        pix = torch.tensor([[0.0, 0.0], [3.0, 5.0], [5.0, 2.0]], dtype=o.pc_SE3_matrix.dtype)
        out = o.project2sample(pix)
        w = torch.arange(9.0, dtype=out.dtype).view(3, 3) - 3
        if not out.requires_grad:
            return out, torch.full((1, 6), -1.0)
        return out.detach(), torch.autograd.grad((out * w).sum(), o.se3_vector)[0]

    def step(self, o, i):
        out, g = self.gradient(o)
        with torch.no_grad():
            o.se3_vector -= 1e-5 * g

    def observe(self, o):
        out, g = self.gradient(o)
        r, t = o.get_detector2sample()
        c = o.get_coords_sample_frame((3, 4))
        return [out, g, r.detach(), t.detach(), c.detach()]


class Master(Subject):
    wide = True
    tol = 1e-4
    depth = min(DEPTH, 3)

    def __init__(self):
        self.name = "master-pattern"
        self.actions = [
            ("minmax", lambda o, i: o.normalize("minmax")),
            ("standard", lambda o, i: o.normalize("standard")),
            ("bin 2", lambda o, i: o.bin(2)),
            ("bin 4", lambda o, i: o.bin(4)),
            ("other intensities", lambda o, i: o.load_state_dict({"master_pattern": rnd(i + 300, 8, 16, dtype=o.master_pattern.dtype) * 40 + 100})),
        ]
        self.dirs = rnd(3, 12, 3)

    def make(self, v):
        return MasterPattern(rnd(200 + v, 8, 16) * 30 + 90, laue_group=11)

    def observe(self, o):
        d = self.dirs.to(o.master_pattern.dtype)
        return [o.interpolate(d, virtual_binning=b) for b in (2, 1, 4)]


class Patterns(Subject):
    state = False
    tol = 1e-4
    depth = 2

    def __init__(self):
        self.name = "experiment"
        self.actions = [
            ("background", lambda o, i: o.subtract_overall_background()),
            ("minmax", lambda o, i: o.normalize_per_pattern("minmax")),
            ("standard", lambda o, i: o.normalize_per_pattern("zeromean")),
            ("clahe", lambda o, i: (o.normalize_per_pattern("minmax"), o.contrast_enhance_clahe(tile_grid_size=2))),
            ("nlpar", lambda o, i: o.do_nlpar(k_rad=1)),
            ("orientations", lambda o, i: o.set_orientations(torch.nn.functional.normalize(rnd(i, 6, 4), dim=-1))),
            ("one orientation", lambda o, i: o.set_orientations(torch.nn.functional.normalize(rnd(i, 1, 4), dim=-1), torch.tensor([i % 6]))),
            ("coordinates", lambda o, i: o.set_spatial_coords(rnd(i, 6, 2))),
            ("deformation", lambda o, i: o.set_inv_f_matrix(rnd(i, 6, 9))),
        ]

    def make(self, v):
        o = ExperimentPatterns(rnd(400 + v, 2, 3, 8, 8).abs() * 50 + 5)
        o.set_orientations(torch.nn.functional.normalize(rnd(12, 6, 4), dim=-1))
        return o

    def observe(self, o):
        r = [o.get_patterns(torch.arange(6), 1), o.get_patterns(torch.tensor([4, 1]), 2), o.get_orientations()]
        for g in (o.get_spatial_coords, o.get_inv_f_matrix):
            try:
                r.append(g())
            except ValueError:
                r.append(torch.zeros(1))
        return r


class Neighbours(Subject):
    state = False

    def __init__(self, metric):
        self.metric = metric
        self.name = f"neighbours-{metric}"
        self.query = rnd(8, 5, 4)
        if metric == "angular":
            self.query = torch.nn.functional.normalize(self.query, dim=-1)

        def feed(n, off):
            def f(o, i):
                o.set_data_chunk(torch.nn.functional.normalize(rnd(i * 7 + off, n, 4), dim=-1))
                o.query_all(self.query)
            return f

        def parts(o, i):
            o.set_data_chunk(torch.nn.functional.normalize(rnd(i * 7 + 3, 4, 4), dim=-1))
            o.query_chunk(self.query[:2], 0)
            o.query_chunk(self.query[2:], 2)

        self.actions = [("six", feed(6, 0)), ("two", feed(2, 1)), ("in parts", parts)]

    def make(self, v):
        return ChunkedKNN(24, 5, 2, match_device=torch.device("cpu"), distance_metric=self.metric, match_dtype=F32, quantized_via_ao=False)

    def observe(self, o):
        if o.prepared_data is None:
            return [torch.zeros(1)]
        return list(o.retrieve_topk())


class Harmonic(Subject):
    depth = 2

    def __init__(self, real, precision):
        self.real, self.precision = real, precision
        self.tol = 1e-9 if precision == "double" else 1e-4
        self.name = f"harmonics-{'real' if real else 'complex'}-{precision}"
        self.actions = [("analysis", lambda o, i: o.fsht(self.signal(i))), ("there and back", lambda o, i: o.isht(o.fsht(self.signal(i))))]

    def signal(self, i):
        dt = F64 if self.precision == "double" else F32
        x = rnd(i, 2, 10, 10, dtype=dt)
        return x if self.real else torch.complex(x, rnd(i + 60, 2, 10, 10, dtype=dt))

    def make(self, v):
        return (RSHT if self.real else CSHT)(5, torch.device("cpu"), self.precision)

    def observe(self, o):
        c = o.fsht(self.signal(9))
        return [torch.view_as_real(c), torch.view_as_real(o.isht(c) + 0j)]


class Blur(Subject):
    wide = True
    depth = 1

    def __init__(self, down):
        self.name = "downsample" if down else "blur"
        self.down = down
        self.actions = [("use", lambda o, i: self.observe(o))]

    def make(self, v):
        return BlurAndDownsample(2.0) if self.down else GaussianBlur2d(1.0)

    def observe(self, o):
        b = next(iter(o.buffers()))
        return [o(rnd(4, 2, 1, 16, 12, dtype=b.dtype))]


SUBJECTS = [Covariance(False), Covariance(True), Covariance(False, F64), Oja(), Oja(True), Oja(True, 4), Krasulina(), Geometry(), Master(), Patterns(), Neighbours("angular"), Neighbours("euclidean"), Blur(False), Blur(True)] + [Harmonic(r, p) for r in (True, False) for p in ('double', 'single')]


def run(s, o, word, start=0):
    for i in range(start, len(word)):
        torch.manual_seed(1000 + i)
        s.actions[word[i]][1](o, i)
    return o


def agree(cx, s, key, what, got, want, tol, **case):
    for k, (g, w) in enumerate(zip(got, want)):
        g, w = g.detach().double(), w.detach().double()
        if g.shape != w.shape:
            cx.fail(f"{key}/shape", f"{what}: shapes differ", **case)
            return
        ok = ((g - w).abs() <= tol * (1 + w.abs())) | (g.isnan() & w.isnan())
        cx.expect(ok.all(), key, what, observation=k, got=g, want=w, **case)


def detached(obs):
    return [x.detach().clone() for x in obs]


def explore(cx, s):
    def body():
        for n in range(0, s.depth + 1):
            for word in itertools.product(range(len(s.actions)), repeat=n):
                names = [s.actions[a][0] for a in word]
                # the uninterrupted run, observed after every operation
                o = s.make(0)
                want = [detached(s.observe(o))]
                for i in range(n):
                    torch.manual_seed(1000 + i)
                    s.actions[word[i]][1](o, i)
                    want.append(detached(s.observe(o)))
                plain = detached(s.observe(run(s, s.make(0), word)))
                agree(cx, s, f"{s.name}/observing", "looking at the results changes later ones", plain, want[n], s.tol, history=names)
                for k in range(n + 1):
                    for way in s.ways():
                        seconds = [None] + (list(range(k, n + 1)) if THOROUGH and n <= 3 else [])
                        for k2 in seconds:
                            cx.state(s.name, word, k, k2, way.__name__)
                            case = dict(object=s.name, history=names, interrupted_after=k, again_after=k2, how=way.__name__)
                            tol = 1e-3 if way in (widened, there_and_back) else s.tol
                            o = run(s, s.make(0), word[:k])
                            r = cx.call(way, s, o, _key=f"{s.name}/{way.__name__}", _case=case)
                            if r is None:
                                continue
                            agree(cx, s, f"{s.name}/{way.__name__}/restored", "the restored object differs from the saved one", detached(s.observe(r)), want[k], tol, **case)
                            if k2 is None:
                                run(s, r, word, k)
                            else:
                                run(s, r, word[:k2], k)
                                r = cx.call(way, s, r, _key=f"{s.name}/{way.__name__}", _case=case)
                                if r is None:
                                    continue
                                run(s, r, word, k2)
                            agree(cx, s, f"{s.name}/{way.__name__}/continued", "the continued history differs from the uninterrupted one", detached(s.observe(r)), want[n], tol, **case)
                            # what the restored object did left the original alone, and the original can go on as well
                            agree(cx, s, f"{s.name}/{way.__name__}/original", "the original changed with its copy", detached(s.observe(o)), want[k], s.tol, **case)
                            run(s, o, word, k)
                            agree(cx, s, f"{s.name}/{way.__name__}/original", "the original continued differently after being saved", detached(s.observe(o)), want[n], s.tol, **case)
        cx.sample(object=s.name, history=names, observed=[w.tolist() if w.numel() < 9 else list(w.shape) for w in want[-1]])

    with quiet():
        body()


for s_ in SUBJECTS:
    @ck.group(s_.name, timeout=850)
    def g(cx, s=s_):
        explore(cx, s)


if __name__ == "__main__":
    ck.main()
