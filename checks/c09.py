"""C09  Chunked nearest neighbours equal one brute force search."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contextlib, io, itertools
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.utils.knn import ChunkedKNN

CPU = torch.device("cpu")
N, Q = (7, 4) if THOROUGH else (6, 3)
ck = Check("C09", bounds=f"{N} data rows x {Q} queries: every ordered partition of the data, every partition and order of the query chunks per data chunk (also switching "
           "between whole and chunked queries from chunk to chunk), every k, three metrics, float32/float64/float16, quantised and exact, data with and without ties")


def compositions(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        out, c = [], 1
        for b in bits:
            if b:
                out.append(c)
                c = 1
            else:
                c += 1
        out.append(c)
        yield out


def query_plans(q):
    """whole query, or every partition into chunks, forwards and backwards"""
    yield None
    for comp in compositions(q):
        s, pl = 0, []
        for c in comp:
            pl.append((s, s + c))
            s += c
        yield pl
        if len(pl) > 1:
            yield pl[::-1]


def dist(x, q, metric):
    if metric == "angular":
        return q @ x.T
    if metric == "euclidean":
        return ((q[:, None] - x[None]) ** 2).sum(-1)
    return np.abs(q[:, None] - x[None]).sum(-1)


def run(x, q, topk, metric, comp, plan_for, dtype, quant):
    with contextlib.redirect_stdout(io.StringIO()):
        k = ChunkedKNN(len(x), len(q), topk, CPU, metric, dtype, quant)
    s = 0
    for i, c in enumerate(comp):
        k.set_data_chunk(x[s:s + c].clone())
        s += c
        plan = plan_for(i)
        if plan is None:
            k.query_all(q.clone())
        else:
            for a, b in plan:
                k.query_chunk(q[a:b].clone(), a)
    return k.retrieve_topk()


# integer coordinates: all arithmetic is exact in every precision
def lattice(seedless, n, d):
    rows = []
    v = 1
    for i in range(n):
        r = []
        for j in range(d):
            v = (v * 1103515245 + 12345 + 977 * seedless) & 0x7FFFFFFF
            r.append((v >> 16) % 13 - 6)
        rows.append(r)
    return np.array(rows, float)


def distinct_case(metric, d):
    for s in range(1, 2000):
        x, q = lattice(s, N, d), lattice(s + 5000, Q, d)
        D = dist(x, q, metric)
        if all(len(set(r)) == N for r in D.tolist()):
            return x, q
    raise RuntimeError


def judge(cx, key, ind, dst, D, topk, big, ties, **case):
    case["k"] = topk
    ind, dst = ind.numpy(), dst.double().numpy()
    if not cx.expect(ind.shape == (Q, topk) and dst.shape == (Q, topk), f"{key}/shape", f"{ind.shape} {dst.shape}", **case):
        return
    W = np.sort(D, 1)[:, ::-1] if big else np.sort(D, 1)
    cx.expect(np.array_equal(dst, W[:, :topk]), f"{key}/distances", "distances of the neighbours, best first", got=dst, want=W[:, :topk], **case)
    ok = (ind >= 0).all() and (ind < D.shape[1]).all()
    if not cx.expect(ok, f"{key}/range", "neighbour index outside of the data", got=ind, **case):
        return
    cx.expect(np.array_equal(np.take_along_axis(D, ind, 1), W[:, :topk]), f"{key}/indices", "indices point at the best entries of the whole data set", got=ind, **case)
    cx.expect(all(len(set(r)) == topk for r in ind.tolist()), f"{key}/repeats", "an entry is returned twice", got=ind, **case)


def mk(metric, ties):
    @ck.group(f"{metric}-{'ties' if ties else 'distinct'}")
    def grp(cx):
        d = 3 if ties else 5
        if ties:
            x = np.array(list(itertools.product((-1, 0, 1), repeat=d)))[:: max(1, 27 // N)][:N].astype(float)
            x[1] = x[0]
            q = np.array([[1, 0, 0], [0, 0, 0], [1, 1, 1], [-1, 1, 0]], float)[:Q]
        else:
            x, q = distinct_case(metric, d)
        D = dist(x, q, metric)
        big = metric == "angular"
        for dt in (torch.float32, torch.float64, torch.float16):
            X, QQ = torch.tensor(x, dtype=dt), torch.tensor(q, dtype=dt)
            for comp in compositions(N):
                for topk in range(1, N + 1):
                    plans = list(query_plans(Q)) if dt == torch.float32 else [None, [(0, 1), (1, Q)]]
                    for plan in plans:
                        r = cx.call(run, X, QQ, topk, metric, comp, lambda i: plan, dt, False, _key="search", _case=dict(chunks=comp, topk=topk, plan=plan, dtype=str(dt)))
                        cx.trans(len(comp) * (1 if plan is None else len(plan)))
                        cx.state(str(dt), tuple(comp), topk, str(plan))
                        if r is not None:
                            judge(cx, "exact", r[0], r[1], D, topk, big, ties, chunks=comp, plan=plan, dtype=str(dt))
                    # plan changes from data chunk to data chunk
                    if len(comp) > 1 and dt == torch.float32:
                        mixed = [None, [(0, 1), (1, Q)], [(1, Q), (0, 1)]]
                        for o in range(3):
                            r = cx.call(run, X, QQ, topk, metric, comp, lambda i: mixed[(i + o) % 3], dt, False, _key="mixed", _case=dict(chunks=comp, topk=topk, shift=o))
                            cx.state("mixed", tuple(comp), topk, o)
                            if r is not None:
                                judge(cx, "mixed", r[0], r[1], D, topk, big, ties, chunks=comp, shift=o)
        cx.sample(metric=metric, data=x, query=q, topk2=run(torch.tensor(x), torch.tensor(q), 2, metric, [1, N - 1], lambda i: None, torch.float64, False)[0])


for m in ("angular", "euclidean", "manhattan"):
    for t in (False, True):
        mk(m, t)


@ck.group("quantized")
def quantized(cx):
    """8 bit arithmetic: same protocol, values within the quantisation error"""
    d = 8
    x, q = lattice(3, N, d) / 4.0, lattice(77, Q, d) / 4.0
    X, QQ = torch.tensor(x, dtype=torch.float32), torch.tensor(q, dtype=torch.float32)
    for metric in ("angular", "euclidean", "manhattan"):
        D = dist(x, q, metric)
        big = metric == "angular"
        err = 0.05 * np.abs(x).max() * np.abs(q).max() * d if big else 1e-4
        W = np.sort(D, 1)[:, ::-1] if big else np.sort(D, 1)
        for comp in compositions(N):
            for topk in range(1, N + 1):
                for plan in (None, [(0, 1), (1, Q)], [(1, Q), (0, 1)]):
                    r = cx.call(run, X, QQ, topk, metric, comp, lambda i: plan, torch.float16, True, _key=f"{metric}", _case=dict(chunks=comp, topk=topk, plan=plan))
                    cx.state(metric, tuple(comp), topk, str(plan))
                    if r is None:
                        continue
                    ind, dst = r[0].numpy(), r[1].double().numpy()
                    case = dict(chunks=comp, topk=topk, plan=plan)
                    if not cx.expect(ind.shape == (Q, topk) and (ind >= 0).all() and (ind < N).all(), f"{metric}/range", "neighbour index outside of the data", got=ind, **case):
                        continue
                    cx.expect(all(len(set(a)) == topk for a in ind.tolist()), f"{metric}/repeats", "an entry is returned twice", got=ind, **case)
                    cx.expect((np.abs(np.take_along_axis(D, ind, 1) - dst) <= err).all(), f"{metric}/own", "distance of the returned entry", got=dst, want=np.take_along_axis(D, ind, 1), **case)
                    cx.expect((np.abs(dst - W[:, :topk]) <= err).all(), f"{metric}/best", "the returned entries are the best ones", got=dst, want=W[:, :topk], **case)
                    s = np.diff(dst, axis=1)
                    cx.expect((s <= 1e-6).all() if big else (s >= -1e-6).all(), f"{metric}/order", "best first", got=dst, **case)
    cx.sample(data=x[0], query=q[0])


@ck.group("sides")
def sides(cx):
    """one batch at a time: exact, and with either side in 8 bits, for every k and size"""
    from ebsdtorch.utils import knn as KN

    cases = []
    for n, m, d in itertools.product((1, 2, 5, 9, 33), (1, 2, 5, 40), (1, 4, 16)):
        cases.append((n, m, d))
    for n, m, d in cases:
        x, q = lattice(5 + n, n, d) / 4.0, lattice(91 + m, m, d) / 4.0
        X, QQ = torch.tensor(x, dtype=torch.float32), torch.tensor(q, dtype=torch.float32)
        tops = range(1, n + 1) if n < 10 else (1, 7, n)
        for topk in tops:
            got = {}
            for metric in ("angular", "euclidean", "manhattan"):
                D = dist(x, q, metric)
                W = np.sort(D, 1)[:, ::-1] if metric == "angular" else np.sort(D, 1)
                got[metric] = (cx.call(KN.knn_batch, X, QQ, topk, metric, _key=metric, _case=(n, m, d, topk)), D, W, 1e-4)
            D = dist(x, q, "angular")
            err = 0.05 * max(np.abs(x).max() * np.abs(q).max(), 1e-3) * d
            W = np.sort(D, 1)[:, ::-1]
            c = X.clone(), QQ.clone()
            f = lambda: KN.topk_quantized_data(QQ, KN.quant_model_data(X), topk)
            got["data in 8 bits"] = (cx.call(f, _key="qdata", _case=(n, m, d, topk)), D, W, err)
            f = lambda: KN.topk_quantized_query(X, KN.quant_model_query(QQ), topk)
            got["query in 8 bits"] = (cx.call(f, _key="qquery", _case=(n, m, d, topk)), D, W, err)
            cx.expect(torch.equal(c[0], X) and torch.equal(c[1], QQ), "inputs", "the data or the queries were changed", n=n, m=m, d=d)
            for nm, (r, D, W, err) in got.items():
                if r is None:
                    continue
                v, i = r[0].double().numpy(), r[1].numpy()
                case = dict(n=n, m=m, d=d, topk=topk)
                if not cx.expect(i.shape == (m, topk) == v.shape and (i >= 0).all() and (i < n).all(), nm + "/range", f"{nm}: one row of {topk} neighbours per query", got=i, **case):
                    continue
                cx.expect(all(len(set(a)) == topk for a in i.tolist()), nm + "/repeats", f"{nm}: an entry is returned twice", got=i, **case)
                cx.expect((np.abs(np.take_along_axis(D, i, 1) - v) <= err).all(), nm + "/own", f"{nm}: distance of the returned entry", got=v, want=np.take_along_axis(D, i, 1), **case)
                s = -np.sort(-v, 1) if nm not in ("euclidean", "manhattan") else np.sort(v, 1)
                cx.expect((np.abs(s - W[:, :topk]) <= err).all(), nm + "/best", f"{nm}: the returned entries are the best ones", got=s, want=W[:, :topk], **case)
                cx.state(nm, n, m, d, topk)
    cx.sample(data=x[0], query=q[0])


@ck.group("protocol")
def protocol(cx):
    for quant in (False, True):
        with contextlib.redirect_stdout(io.StringIO()):
            k = ChunkedKNN(4, 2, 1, CPU, "angular", torch.float32, quant)
        for f in (lambda: k.query_all(torch.zeros(2, 3)), lambda: k.query_chunk(torch.zeros(1, 3), 0)):
            try:
                f()
                ok = False
            except ValueError:
                ok = True
            cx.expect(ok, "no-data", "querying before any data is refused")
    # indices of a very large data set fit into the result
    for n in (10, 2**31 - 1, 2**31, 2**31 + 5, 2**40):
        k = ChunkedKNN(n, 2, 1, CPU, "euclidean", torch.float32, False)
        k.set_data_chunk(torch.eye(3))
        k.query_chunk(torch.eye(3)[:2], 0)
        i, _ = k.retrieve_topk()
        cx.state(n)
        cx.expect(torch.iinfo(i.dtype).max >= n - 1, "index-range", f"indices of type {i.dtype} cannot address {n} entries")
        cx.expect(i.flatten().tolist() == [0, 1], "index-value", "indices", got=i)
    cx.sample(n=2**40)


if __name__ == "__main__":
    ck.main()
