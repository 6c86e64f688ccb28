"""C15  Classification of space groups and point groups."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contextlib, io
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import sgref as R
from ebsdtorch.utils.symmetry_classes import space_group_to_laue, point_group_to_laue
import ebsdtorch.crystallography.groups as G
from ebsdtorch.crystallography.unit_cell import Cell
from ebsdtorch.ebsd.master_pattern import MasterPattern

ck = Check("C15", bounds="all 230 space groups, all 32 point group symbols, every way of passing the symmetry to a master pattern and a unit cell; integers -40..300 as invalid numbers")
LIB = {"1": "1", "-1": "1-", "-4": "4-", "-42m": "4-2m", "-3": "3-", "-3m": "3-m", "-6": "6-", "-6m2": "6-m2", "m-3": "m3-", "-43m": "4-3m", "m-3m": "m3-m"}
ANG = {1: (91.0, 95.0, 99.0), 2: (90.0, 97.0, 90.0), 3: (90.0, 90.0, 90.0), 4: (90.0, 90.0, 90.0), 5: (90.0, 90.0, 120.0), 6: (90.0, 90.0, 120.0), 7: (90.0, 90.0, 90.0)}
ABC = {1: (0.4, 0.5, 0.6), 2: (0.4, 0.5, 0.6), 3: (0.4, 0.5, 0.6), 4: (0.4, 0.4, 0.6), 5: (0.4, 0.4, 0.6), 6: (0.4, 0.4, 0.6), 7: (0.4, 0.4, 0.4)}


def refuses(cx, key, what, fn, *a, **kw):
    try:
        r = fn(*a, **kw)
    except Exception:
        return cx.expect(True, key, what)
    return cx.expect(False, key, f"{what} was accepted: {r!r}"[:200])


@ck.group("space_groups")
def sgs(cx):
    for sg in range(1, 231):
        cx.state("sg", sg)
        l = cx.call(space_group_to_laue, sg)
        cx.expect(l == R.laue(sg), f"laue{sg}", f"Laue group of space group {sg} ({R.HM[sg-1]}) is {R.laue(sg)}, got {l}")
    for n in list(range(-40, 1)) + list(range(231, 300)):
        cx.state("bad", n)
        refuses(cx, "range", f"space group number {n}", space_group_to_laue, n)
    cx.sample(space_group=194, laue=space_group_to_laue(194))


@ck.group("point_groups")
def pgs(cx):
    for i, p in enumerate(R.PG):
        cx.state("pg", p)
        l = cx.call(point_group_to_laue, LIB.get(p, p))
        cx.expect(l == R.PG_LAUE[i], f"pg{p}", f"Laue group of point group {p} is {R.PG_LAUE[i]}, got {l}")
    for bad in ("", "5", "m3m-", "2/mm", "X"):
        refuses(cx, "symbol", f"point group {bad!r}", point_group_to_laue, bad)
    cx.expect([int(x) for x in G.pg_to_laue[:32]] == R.PG_LAUE, "table", "table of Laue groups of the 32 point groups")
    cx.expect([int(x) for x in G.sg_pg_beg] == R.BEG_PG, "pg-begin", "first space group of every point group")
    cx.expect([int(x) for x in G.sg_xt_beg] == R.SYS_BEG, "system-begin", "first space group of every crystal system")
    cx.sample(point_group="-42m", laue=point_group_to_laue("4-2m"))


@ck.group("names")
def names(cx):
    for sg in range(1, 231):
        n = "".join(G.sg_names[sg - 1].split()).replace("-", "")
        cx.state("name", n)
        cx.expect(n == R.HM[sg - 1].replace("-", ""), f"name{sg}", f"symbol of space group {sg}: {n}, expected {R.HM[sg-1]}")
        cx.expect(G.sg_names[sg - 1].strip()[0] == R.HM[sg - 1][0], f"lattice{sg}", "lattice letter")


def cells(lo, hi):
    @ck.group(f"cells{lo}")
    def g(cx):
        for sg in range(lo, hi):
            s = R.system(sg)
            cx.state("cell", sg)
            with contextlib.redirect_stdout(io.StringIO()):
                c = cx.call(Cell, sg, [(28, 0.11, 0.23, 0.37, 1.0, 0.005)], ABC[s], "nm", ANG[s], "deg", _case=sg)
            if c is None:
                continue
            cx.expect(int(c.laue_group) == R.laue(sg), f"laue{sg}", f"Laue group of a cell of space group {sg}: {c.laue_group}")
            cx.expect(int(c.pg_num) == R.pg_index(sg) + 1, f"pg{sg}", f"point group of a cell of space group {sg}: {c.pg_num}")
            cx.expect(int(c.xtal_system) == s, f"system{sg}", f"crystal system of a cell of space group {sg}: {c.xtal_system}")
            ops = [np.round(x[:3, :3]).astype(int) for x in c.sg_ops.numpy()]
            cx.expect(R.laue_from_ops(ops) == int(c.laue_group), f"ops{sg}", "the operators of the cell generate another Laue group")
            cx.expect(("Triclinic", "Monoclinic", "Orthorhombic", "Tetragonal", "Trigonal", "Hexagonal", "Cubic")[s - 1] in str(c), f"print{sg}", "crystal system printed for the cell")
        for n in (0, -1, 231, 1000) if lo == 1 else ():
            refuses(cx, "range", f"cell with space group {n}", Cell, n, [(28, 0.0, 0.0, 0.0, 1.0, 0.005)], (0.4,) * 3, "nm", (90.0,) * 3, "deg")
        for sg in range(lo, hi):
            if sg not in R.TWO:
                refuses(cx, f"setting{sg}", f"second setting of space group {sg}", Cell, sg, [(28, 0.0, 0.0, 0.0, 1.0, 0.005)], ABC[R.system(sg)], "nm", ANG[R.system(sg)], "deg", 2)
        cx.sample(first=lo, last=hi - 1)


for lo in range(1, 231, 46):
    cells(lo, lo + 46)


@ck.group("master_pattern")
def mp(cx):
    img = torch.rand(7, 7, generator=torch.Generator().manual_seed(0))
    for sg in range(1, 231):
        m = cx.call(MasterPattern, img.clone(), space_group=sg)
        if m is not None:
            cx.expect(m.laue_group == R.laue(sg), f"sg{sg}", f"master pattern of space group {sg}: Laue group {m.laue_group}")
        cx.state("mp", sg)
    for i, p in enumerate(R.PG):
        m = cx.call(MasterPattern, img.clone(), point_group=LIB.get(p, p))
        if m is not None:
            cx.expect(m.laue_group == R.PG_LAUE[i], f"pg{p}", f"master pattern of point group {p}: Laue group {m.laue_group}")
    for l in range(1, 12):
        m = cx.call(MasterPattern, img.clone(), laue_group=l)
        if m is not None:
            cx.expect(m.laue_group == l, f"laue{l}", "Laue group is kept")
    for k in range(8):
        kw = {n: v for j, (n, v) in enumerate((("laue_group", 11), ("point_group", "m3-m"), ("space_group", 225))) if k >> j & 1}
        if len(kw) != 1:
            refuses(cx, "args", f"master pattern with {sorted(kw)}", MasterPattern, img.clone(), **kw)
        cx.state("args", k)


if __name__ == "__main__":
    ck.main()
