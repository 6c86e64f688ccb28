"""Small explicit-state exploration harness shared by every check.

A check is a set of *groups*.  Every group enumerates, without sampling, a finite
space of states (inputs x operation histories, configurations, environment
answers ...), drives the real code of /repo through the transitions and compares
what it observes with a reference model written in the check.  Groups run in
forked children, so that a crash or a hang of the code under test is an answer
(a violation) and not the end of the check.

Exit status: 0 property held on everything explored, 1 + VIOLATION line, 2 harness
error.
"""
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVDIR = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv:
    TIER = "thorough"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
MAX_KEEP = 400


def _jsonable(x):
    try:
        import torch

        if isinstance(x, torch.Tensor):
            x = x.detach().cpu().numpy()
    except Exception:
        pass
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return {"shape": list(x.shape), "head": x.ravel()[:50].tolist()}
        if np.iscomplexobj(x):
            return {"re": x.real.tolist(), "im": x.imag.tolist()}
        return x.tolist()
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    """Handed to a group; collects what it explored and what failed."""

    def __init__(self, prop, group):
        self.prop = prop
        self.group = group
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = []  # (key, what, case)
        self.nfails = 0
        self.outcomes = set()
        self.notes = {}
        self._keys = set()

    # ---- coverage ------------------------------------------------------
    def state(self, *key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        new = h not in self._states
        self._states.add(h)
        return new

    def states(self, tag, arr, decimals=6):
        """one state per distinct row of arr (rounded)."""
        a = np.asarray(_np(arr))
        if np.iscomplexobj(a):
            a = np.stack([a.real, a.imag], -1).reshape(a.shape[0], -1)
        a = np.round(a.reshape(a.shape[0], -1).astype(np.float64), decimals) + 0.0
        n0 = len(self._states)
        t = repr(tag).encode()
        for row in np.unique(a, axis=0) if a.size else []:
            self._states.add(
                hashlib.blake2b(t + row.tobytes(), digest_size=8).digest()
            )
        return len(self._states) - n0

    def trans(self, n=1):
        self.transitions += int(n)

    def trace(self, n=1):
        self.traces += int(n)

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({"group": self.group, **_jsonable(kw)})

    def outcome(self, *o):
        self.outcomes.add(repr(o))

    # ---- verdicts ------------------------------------------------------
    def fail(self, key, what, **case):
        self.nfails += 1
        key = f"{self.group}/{key}"
        if key in self._keys:
            return
        self._keys.add(key)
        if len(self.fails) < MAX_KEEP:
            self.fails.append((key, str(what), _jsonable(case)))

    def expect(self, cond, key, what="", **case):
        """one executed transition, judged."""
        self.transitions += 1
        self.traces += 1
        if not bool(cond):
            self.fail(key, what or key, **case)
            return False
        return True

    def expect_all(self, ok, key, what, rows=None, describe=None, **case):
        """vectorised expect: ok is a bool array, one entry per enumerated case."""
        ok = np.asarray(_np(ok)).astype(bool).reshape(-1)
        self.transitions += ok.size
        self.traces += ok.size
        if ok.size == 0:
            self.fail(key + "/vacuous", "no case was explored for " + key)
            return False
        if ok.all():
            return True
        bad = np.nonzero(~ok)[0]
        i = int(bad[0])
        info = dict(case)
        info["n_bad"] = int(bad.size)
        info["n_all"] = int(ok.size)
        info["first_bad_index"] = i
        if rows is not None:
            info["row"] = _jsonable(np.asarray(_np(rows))[i])
        if describe is not None:
            info["detail"] = _jsonable(describe(i))
        self.fail(key, f"{what} ({bad.size}/{ok.size} cases)", **info)
        return False

    def close(self, got, want, key, what="", tol=1e-9, rtol=0.0, rows=None, **case):
        """elementwise agreement (rows = leading axis), NaN counts as disagreement."""
        g, w = np.asarray(_np(got)), np.asarray(_np(want))
        if g.shape != w.shape:
            self.transitions += 1
            self.traces += 1
            self.fail(key + "/shape", f"{what}: shape {g.shape}, expected {w.shape}", **case)
            return False
        if g.ndim == 0:
            g, w = g[None], w[None]
        with np.errstate(all="ignore"):
            d = np.abs(g - w)
            ok = d <= (tol + rtol * np.abs(w))
        ok &= np.isfinite(d)
        ok = ok.reshape(ok.shape[0], -1).all(1)
        return self.expect_all(
            ok,
            key,
            what or key,
            rows=rows,
            describe=lambda i: {"got": g[i], "want": w[i]},
            **case,
        )

    def call(self, fn, *a, _key=None, _what=None, _case=None, **kw):
        """call the code under test; an exception is a violation and yields None."""
        self.transitions += 1
        try:
            return fn(*a, **kw)
        except Exception as e:  # noqa
            name = _key or getattr(fn, "__name__", str(fn))
            self.fail(
                f"{name}/exception",
                f"{_what or name} raised {type(e).__name__}: {str(e).strip().splitlines()[-1] if str(e).strip() else ''}",
                case=_case,
                trace=traceback.format_exc()[-1500:],
            )
            return None

    def result(self):
        return dict(
            states=len(self._states),
            transitions=self.transitions,
            traces=self.traces,
            samples=self.samples,
            fails=self.fails,
            nfails=self.nfails,
            outcomes=len(self.outcomes),
            notes=_jsonable(self.notes),
        )


def _np(x):
    try:
        import torch

        if isinstance(x, torch.Tensor):
            return x.detach().cpu().resolve_conj().numpy()
    except ImportError:
        pass
    return x


def load_known(prop):
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=" + prop + " "):
                rest = line.split(" ", 2)[2]
                assert rest.startswith("key="), line
                k, _, desc = rest[4:].partition(" :: ")
                known[k.strip()] = desc.strip()
            elif line.startswith("fixed: property=" + prop + " "):
                fixed.append(line)
    return known, fixed


class HarnessError(Exception):
    pass


class Check:
    def __init__(self, prop, bounds=""):
        self.prop = prop
        self.groups = []
        self.bounds = bounds

    def group(self, name, timeout=600, thorough_only=False):
        def deco(f):
            if not thorough_only or THOROUGH:
                self.groups.append((name, f, timeout))
            return f

        return deco

    def _child(self, name, f, q):
        import torch

        torch.set_num_threads(int(os.environ.get("VERIF_THREADS", "1")))
        cx = Ctx(self.prop, name)
        err = None
        try:
            f(cx)
        except HarnessError as e:
            err = "harness: " + traceback.format_exc()
        except (ImportError, MemoryError):
            err = "harness: " + traceback.format_exc()
        except BaseException as e:  # the code under test misbehaved
            cx.fail(
                "exception",
                f"{type(e).__name__}: {str(e).strip().splitlines()[-1] if str(e).strip() else ''}",
                trace=traceback.format_exc()[-2500:],
            )
        r = cx.result()
        r["err"] = err
        q.send(r)
        q.close()

    def main(self):
        t0 = time.time()
        only = None
        if "--replay" in sys.argv:
            rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            only = rep
            self.groups = [g for g in self.groups if g[0] == rep["group"]]
        if "--group" in sys.argv:
            gname = sys.argv[sys.argv.index("--group") + 1]
            self.groups = [g for g in self.groups if g[0] == gname]
        if not self.groups:
            print("no group to run", file=sys.stderr)
            sys.exit(2)
        ctx = mp.get_context("fork")
        nproc = int(os.environ.get("VERIF_JOBS", "8"))
        pending = list(self.groups)
        running, results = {}, {}
        harness_err = []
        # a run of the quick tier answers in time even if the code under test does not terminate,
        # and does not wait for long for the rest once a violation is known
        stop, alarm, unfinished = t0 + 780, False, []
        listed = load_known(self.prop)[0]
        sys.stdout.flush()
        while pending or running:
            while pending and len(running) < nproc:
                name, f, tmo = pending.pop(0)
                rx, tx = ctx.Pipe(False)
                p = ctx.Process(target=self._child, args=(name, f, tx))
                p.start()
                tx.close()
                running[name] = (p, rx, time.time(), tmo)
            for name in list(running):
                p, rx, ts, tmo = running[name]
                done = False
                if rx.poll(0.02):
                    try:
                        results[name] = rx.recv()
                    except EOFError:
                        p.join()
                        if p.exitcode == -9:
                            harness_err.append(f"group {name} was killed (SIGKILL)")
                            results[name] = None
                        else:
                            results[name] = self._dead(name, f"the code under test ended the process (exit {p.exitcode})")
                    done = True
                elif time.time() - ts > tmo or (not THOROUGH and time.time() > stop):
                    p.kill()
                    if time.time() - ts > 60 and not alarm:
                        results[name] = self._dead(name, f"did not terminate within {time.time() - ts:.0f} s")
                    else:
                        results[name] = None
                        unfinished.append(name)
                    done = True
                if done:
                    p.join()
                    rx.close()
                    if not alarm and results[name] and any(k not in listed for k, _, _ in results[name]["fails"]):
                        alarm, stop = True, min(stop, time.time() + 200)
                    if not THOROUGH and alarm and time.time() > stop:
                        for g in pending:
                            results[g[0]] = None
                            unfinished.append(g[0])
                        pending = []
                    if "--times" in sys.argv:
                        print(f"  {name}: {time.time()-ts:.1f}s states={results[name] and results[name]['states']} trans={results[name] and results[name]['transitions']}", flush=True)
                    del running[name]
        known, fixed = load_known(self.prop)
        viol, seen_known = [], {}
        tot = dict(states=0, transitions=0, traces=0, outcomes=0)
        samples, notes = [], {}
        for name, _, _ in self.groups:
            r = results[name]
            if r is None:
                continue
            if r["err"]:
                harness_err.append(r["err"])
            for k in tot:
                tot[k] += r[k]
            samples += r["samples"][:2]
            notes[name] = {
                "states": r["states"],
                "transitions": r["transitions"],
                "distinct_outcomes": r["outcomes"],
                **r["notes"],
            }
            for key, what, case in r["fails"]:
                if key in known:
                    seen_known[key] = known[key]
                else:
                    viol.append((name, key, what, case))
        if only is not None:
            hit = [v for v in viol if v[1] == only["key"]]
            for v in hit or viol:
                print(f"REPLAYED property={self.prop} key={v[1]}: {v[2]}\n{json.dumps(v[3])[:2000]}")
            print("reproduced" if hit else "not reproduced")
            sys.exit(1 if hit else 0)
        os.makedirs(EVDIR, exist_ok=True)
        ev = {
            "property": self.prop,
            "tier": TIER,
            "seed": SEED,
            "level": "model_checking",
            "coverage": {
                "states": tot["states"],
                "transitions": tot["transitions"],
                "traces_validated_against_impl": tot["traces"],
                "samples": samples[:20] or [{"note": "see groups"}],
                "distinct_outcomes": tot["outcomes"],
                "bounds": self.bounds,
                "conformance": "every explored transition is a call of the real code in /repo; "
                "traces_validated_against_impl counts the explored behaviours whose observation was "
                "compared with the reference model",
                "groups": notes,
                "known_findings_seen": sorted(seen_known),
                "unfinished_groups": unfinished,
                "violations": [{"key": v[1], "what": v[2]} for v in viol[:50]],
            },
            "wall_s": round(time.time() - t0, 2),
        }
        with open(os.path.join(EVDIR, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k, d in sorted(seen_known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {k} {d}")
        print(
            f"{self.prop} tier={TIER} states={tot['states']} transitions={tot['transitions']} "
            f"traces={tot['traces']} wall={time.time()-t0:.1f}s"
        )
        if viol:
            rd = os.path.join(EVDIR, "replays")
            os.makedirs(rd, exist_ok=True)
            for name, key, what, case in viol[:12]:
                h = hashlib.blake2b(key.encode(), digest_size=5).hexdigest()
                path = os.path.join(rd, f"{self.prop}-{h}.json")
                with open(path, "w") as fh:
                    json.dump(
                        {
                            "property": self.prop,
                            "group": name,
                            "key": key,
                            "what": what,
                            "case": case,
                            "replay": f"./run.sh {self.prop} --replay {path}",
                        },
                        fh,
                        indent=1,
                    )
                print(f"  {key}: {what}")
                print(f"VIOLATION property={self.prop} replay={path}")
            sys.exit(1)
        if unfinished:
            harness_err.append(f"groups without an answer: {unfinished}")
        if harness_err:
            print("\n".join(harness_err), file=sys.stderr)
            sys.exit(2)
        if tot["states"] == 0:
            print("explored nothing", file=sys.stderr)
            sys.exit(2)
        sys.exit(0)

    @staticmethod
    def _dead(name, why):
        return dict(
            states=0,
            transitions=0,
            traces=0,
            samples=[],
            fails=[(f"{name}/process", why, {})],
            nfails=1,
            outcomes=0,
            notes={},
            err=None,
        )
