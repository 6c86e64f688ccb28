"""C27  The master pattern read from a file is the one that was simulated."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import hashlib, itertools, tempfile
import h5py
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.io.read_master_pattern import read_master_pattern
from checks.c13 import judge, DIRS

torch.set_num_threads(1)
ck = Check("C27", bounds="all numbers of sites 1..4, energies 1..5 and sizes, all number types and storage layouts of the file, all 230 space groups, every single (site, energy, pixel) impulse, all distributions of counts over energies on a lattice, all sequences of reading and rewriting two files")
BOX = tempfile.TemporaryDirectory()
LAUE = [(2, 1), (15, 2), (74, 3), (88, 4), (142, 5), (148, 6), (167, 7), (176, 8), (194, 9), (206, 10), (230, 11)]


def laue(sg):
    return next(l for top, l in LAUE if sg <= top)


def path(name="m.h5"):
    return os.path.join(BOX.name, f"{os.getpid()}-{name}")


def write(p, north, south, counts, sg=225, dt="f4", ct="i4", **kw):
    """the part of the files of EMsoft that the reader uses, and some of the rest"""
    with h5py.File(p, "w") as f:
        f.create_dataset("EMData/MCOpenCL/accum_e", data=np.asarray(counts).astype(ct), **kw)
        f.create_dataset("EMData/EBSDmaster/mLPNH", data=np.asarray(north).astype(dt), **kw)
        f.create_dataset("EMData/EBSDmaster/mLPSH", data=np.asarray(south).astype(dt), **kw)
        f.create_dataset("EMData/EBSDmaster/numset", data=np.array([len(north)], "i4"))
        f.create_dataset("CrystalData/SpaceGroupNumber", data=np.array([sg], "i4"))
    return p


def expected(north, south, counts):
    w = np.asarray(counts, np.float64).sum((0, 1))
    w /= w.sum()
    return np.concatenate([np.einsum("e,sehw->hw", w, np.asarray(x, np.float64)) for x in (north, south)], 1)


def data(sets, ne, n, m, seed, kind="f4"):
    g = np.random.default_rng(seed)
    north, south = g.uniform(0, 900, (2, sets, ne, n, n))
    if kind[0] in "iu":
        north, south = np.round(north), np.round(south)
    counts = g.integers(0, 1000, (m, m, ne))
    counts[0, 0] += 1
    return north.astype(kind), south.astype(kind), counts


def judge_file(cx, p, north, south, n_el, sg, key, **case):
    mp = cx.call(read_master_pattern, p, _key=f"{key}-call", _case=case)
    cx.trans()
    if mp is None:
        return None
    got = mp.master_pattern
    want = expected(north, south, n_el)
    if cx.expect(tuple(got.shape) == want.shape, f"{key}-shape", f"{tuple(got.shape)} instead of {want.shape}", **case):
        e = np.abs(got.double().numpy() - want)
        cx.expect(e.max() <= 2e-5 * max(np.abs(want).max(), 1e-6), f"{key}-values", f"intensities off by {e.max():.3g}", **case)
    cx.expect(int(mp.laue_group) == laue(sg), f"{key}-laue", f"Laue group {mp.laue_group} for space group {sg}", **case)
    return mp


@ck.group("shapes", timeout=300)
def shapes(cx):
    """all numbers of sites and energies, sizes of the maps"""
    k = 0
    for sets, ne, n, m in itertools.product((1, 2, 3, 4), (1, 2, 3, 5), (1, 2, 3, 5, 9) + ((17, 4, 51) if THOROUGH else ()), (1, 3, 7)):
        k += 1
        cx.state("shape", sets, ne, n, m)
        nh, sh, c = data(sets, ne, n, m, k)
        p = write(path(), nh, sh, c, 200)
        h = hashlib.md5(open(p, "rb").read()).hexdigest()
        case = dict(sites=sets, energies=ne, size=n, counts=m)
        judge_file(cx, p, nh, sh, c, 200, f"sites{min(sets, 2)}-energies{min(ne, 2)}", **case)
        cx.expect(hashlib.md5(open(p, "rb").read()).hexdigest() == h, "file", "reading changes the file", **case)
    cx.sample(**case)


@ck.group("formats", timeout=300)
def formats(cx):
    """number types and storage layouts"""
    k = 100
    layouts = {"plain": {}, "chunked": dict(chunks=True), "gzip": dict(compression="gzip"), "shuffled": dict(compression="gzip", shuffle=True), "growing": dict(maxshape=None)}
    for dt, ct, (name, kw), sets in itertools.product(("f4", "f8", ">f4", "i4", "u2"), ("i4", "i8", "u4", "f4", "f8", ">i4"), layouts.items(), (1, 2)):
        k += 1
        cx.state("format", dt, ct, name, sets)
        nh, sh, c = data(sets, 3, 5, 5, k, dt)
        if name == "growing":
            # growing datasets need chunks
            kw = dict(chunks=True)
        p = write(path(), nh, sh, c, 62, dt, ct, **kw)
        judge_file(cx, p, nh, sh, c, 62, f"{dt}-{ct}-{name}", type=dt, counts=ct, layout=name, sites=sets)
    # large numbers of electrons, few in one bin
    for top, ct in itertools.product((1, 40, 10**5, 2 * 10**9), ("i4", "u4", "i8", "f8")):
        cx.state("top", top, ct)
        nh, sh, c = data(1, 4, 3, 5, k)
        c = np.minimum(c, 1) * top
        c[..., 1] = 0
        c[0, 0, 1] = 1
        p = write(path(), nh, sh, c, 62, "f4", ct)
        judge_file(cx, p, nh, sh, c, 62, f"counts-{ct}", top=top, type=ct)


@ck.group("spacegroups", timeout=300)
def spacegroups(cx):
    nh, sh, c = data(1, 2, 3, 3, 7)
    for sg in range(1, 231):
        cx.state("sg", sg)
        judge_file(cx, write(path(), nh, sh, c, sg), nh, sh, c, sg, "group", group=sg)


@ck.group("impulses", timeout=600)
def impulses(cx):
    """every single bright (hemisphere, site, energy, pixel) lands in its pixel with the weight of its energy"""
    for sets, ne, n in ((1, 2, 3), (2, 2, 2), (3, 1, 2), (1, 3, 3), (2, 3, 3)) + (((2, 4, 5), (4, 2, 4)) if THOROUGH else ()):
        g = np.random.default_rng(n)
        c = g.integers(1, 50, (3, 3, ne))
        for hemi, s, e, i, j in itertools.product((0, 1), range(sets), range(ne), range(n), range(n)):
            cx.state("impulse", sets, ne, n, hemi, s, e, i, j)
            x = np.zeros((2, sets, ne, n, n), "f4")
            x[hemi, s, e, i, j] = 7
            judge_file(cx, write(path(), x[0], x[1], c), x[0], x[1], c, 225, f"impulse-{sets}-{ne}", sites=sets, energies=ne, hemisphere=hemi, site=s, energy=e, pixel=[i, j])


@ck.group("counts", timeout=600)
def counts(cx):
    """all distributions of few electrons over energies and exit directions"""
    nh, sh, _ = data(2, 3, 3, 3, 11)
    for v in itertools.product(range(3), repeat=6):
        # 1 x 2 directions, 3 energies
        c = np.array(v).reshape(1, 2, 3)
        if c.sum() == 0:
            continue
        cx.state("counts", v)
        if sum(v) % (1 if THOROUGH else 2) and v.count(0) < 3:
            continue
        judge_file(cx, write(path(), nh, sh, c), nh, sh, c, 225, "counts", counts=list(v))
    # maps of counts that are not square or of another size than the patterns
    for a, b in itertools.product((1, 2, 3, 6), repeat=2):
        cx.state("map", a, b)
        g = np.random.default_rng(a * 7 + b)
        c = g.integers(1, 50, (a, b, 3))
        judge_file(cx, write(path(), nh, sh, c), nh, sh, c, 225, "map", map=[a, b])


@ck.group("histories", timeout=600)
def histories(cx):
    """all sequences of reading, using and rewriting two files"""
    A, B = data(1, 2, 5, 3, 21), data(2, 3, 4, 3, 22)
    C = data(1, 2, 5, 3, 23)
    ops = ("readA", "readB", "useA", "rewriteA", "missing")
    for seq in itertools.product(ops, repeat=4 if THOROUGH else 3):
        cx.state("seq", seq)
        now = {"A": (A, 225), "B": (B, 62)}
        write(path("A"), *A, 225), write(path("B"), *B, 62)
        kept = []
        for op in seq:
            if op[:4] == "read":
                (d, sg) = now[op[4]]
                mp = judge_file(cx, path(op[4]), *d, sg, op, history=list(seq))
                if mp is not None:
                    kept.append((mp, mp.master_pattern.clone()))
            elif op == "useA":
                mp = cx.call(read_master_pattern, path("A"), _key="use", _case=dict(history=list(seq)))
                if mp is not None:
                    mp.normalize("zeromean")
                    mp.bin(2)
                    mp.master_pattern.mul_(3)
            elif op == "rewriteA":
                now["A"] = (C, 194)
                write(path("A"), *C, 194)
            else:
                try:
                    read_master_pattern(path("none"))
                    cx.expect(False, "missing", "a missing file is read", history=list(seq))
                except (OSError, KeyError, ValueError, RuntimeError):
                    pass
                cx.expect(not os.path.exists(path("none")), "created", "reading creates a file", history=list(seq))
            cx.trans()
        for mp, old in kept:
            cx.expect(torch.equal(mp.master_pattern, old), "kept", "an earlier master pattern changes", history=list(seq))
    # a file without the data is refused and stays as it is
    for gone in ("EMData/MCOpenCL/accum_e", "EMData/EBSDmaster/mLPNH", "EMData/EBSDmaster/mLPSH", "CrystalData/SpaceGroupNumber"):
        cx.state("gone", gone)
        p = write(path(), *A)
        with h5py.File(p, "a") as f:
            del f[gone]
        h = hashlib.md5(open(p, "rb").read()).hexdigest()
        try:
            read_master_pattern(p)
            cx.expect(False, "gone", "an incomplete file is read", without=gone)
        except Exception:
            pass
        cx.expect(hashlib.md5(open(p, "rb").read()).hexdigest() == h, "gone-file", "reading changes the file", without=gone)


@ck.group("directions", timeout=300)
def directions(cx):
    """the pattern that was read is looked up where the simulation put it"""
    for sets, ne, n in itertools.product((1, 2), (1, 3), (3, 5, 9)):
        cx.state("look", sets, ne, n)
        nh, sh, c = data(sets, ne, n, 3, 31 + n)
        mp = cx.call(read_master_pattern, write(path(), nh, sh, c), _key="call", _case=dict(sites=sets, energies=ne))
        if mp is None or mp.master_pattern.shape != (n, 2 * n):
            continue
        # EMsoft maps include the border: the pixels sit on the corners
        got = cx.call(mp.interpolate, torch.as_tensor(DIRS, dtype=torch.float32), _key="look", _case=dict(sites=sets, energies=ne, size=n), align_corners=True)
        judge(cx, got, expected(nh, sh, c), "look", dict(sites=sets, energies=ne, size=n), align=True)
        cx.trans(len(DIRS))


if __name__ == "__main__":
    ck.main()
