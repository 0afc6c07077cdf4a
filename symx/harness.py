"""Scenarios: one piece of code that is run symbolically to decide a property and concretely to replay a model."""
from __future__ import annotations

import contextlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import signal
import subprocess
import sys
import time
import traceback
from dataclasses import dataclass, field
from fractions import Fraction
from pathlib import Path
from typing import Any, Callable, Optional

VERIF = Path(__file__).resolve().parent.parent


class ReplayViolation(Exception):
    """A property assertion failed in a concrete run of the real code."""


class ReplayInfeasible(Exception):
    pass


class PathTimeout(BaseException):
    pass


@dataclass
class Scenario:
    name: str
    fn: Callable  # fn(env, **cfg)
    cfg: dict = field(default_factory=dict)
    witnesses: tuple = ()  # labels that some path has to reach (vacuity guard)
    path_timeout: float = 60.0
    time_limit: float = 780.0
    max_paths: int = 400000
    query_timeout_ms: int = 60000
    max_values: int = 400


class Env:
    """Inputs and assertions of a scenario."""

    symbolic = False
    engine: Any = None

    def int(self, name: str, lo: int, hi: int) -> Any: ...

    def bool(self, name: str) -> Any: ...

    def choice(self, name: str, n: int) -> int: ...

    def perm(self, name: str, n: int) -> list[int]:
        """an arbitrary permutation of range(n), concrete on every path"""
        rest = list(range(n))
        out = []
        for i in range(n - 1):
            out.append(rest.pop(self.choice(f"{name}.{i}", len(rest))))
        return out + rest


class SymEnv(Env):
    symbolic = True

    def __init__(self, eng: Any):
        import z3

        from symx import engine as E

        self.z3, self.E, self.engine = z3, E, eng

    def _new(self, name: str, e: Any) -> Any:
        if name in self.engine.inputs:
            raise RuntimeError(f"input {name} declared twice")
        self.engine.inputs[name] = e
        return e

    def int(self, name: str, lo: int, hi: int) -> Any:
        if lo == hi:
            return lo
        e = self._new(name, self.z3.Int(name))
        self.engine.assume_def(self.z3.And(e >= lo, e <= hi))
        self.engine.bounds[e.get_id()] = (e, Fraction(lo), Fraction(hi))
        self.engine.ranges[name] = (lo, hi)
        return self.E.SymInt(e)

    def real(self, name: str, lo: Any, hi: Any) -> Any:
        """a real number (ideal arithmetic)"""
        e = self._new(name, self.z3.Real(name))
        lo, hi = Fraction(lo), Fraction(hi)
        self.engine.assume_def(self.z3.And(e >= self.E._frac(lo), e <= self.E._frac(hi)))
        self.engine.bounds[e.get_id()] = (e, lo, hi)
        self.engine.ranges[name] = (lo, hi)
        return self.E.SymFloat(e, Fraction(0))

    def bool(self, name: str) -> Any:
        return self.E.SymBool(self._new(name, self.z3.Bool(name)))

    def choice(self, name: str, n: int) -> int:
        return int(self.int(name, 0, n - 1))

    def assume(self, c: Any) -> None:
        self.engine.assume(c)

    def check(self, c: Any, label: str) -> None:
        self.engine.check(c, label)

    def reach(self, label: str) -> None:
        self.engine.reached[label] = self.engine.reached.get(label, 0) + 1


class ConcEnv(Env):
    def __init__(self, inputs: dict):
        self.inputs = inputs
        self.labels: dict[str, int] = {}

    def int(self, name: str, lo: int, hi: int) -> int:
        v = self.inputs.get(name, lo)
        if not lo <= v <= hi:
            raise ReplayInfeasible(f"{name}={v}")
        return v

    def real(self, name: str, lo: Any, hi: Any) -> float:
        v = self.inputs.get(name, [Fraction(lo).numerator, Fraction(lo).denominator])
        return v[0] / v[1] if isinstance(v, list) else float(v)

    def bool(self, name: str) -> bool:
        return bool(self.inputs.get(name, False))

    def choice(self, name: str, n: int) -> int:
        return self.int(name, 0, n - 1)

    def assume(self, c: Any) -> None:
        if not c:
            raise ReplayInfeasible("assumption does not hold")

    def check(self, c: Any, label: str) -> None:
        self.labels[label] = self.labels.get(label, 0) + 1
        if not c:
            raise ReplayViolation(label)

    def reach(self, label: str) -> None:
        pass


def _short_tb(e: BaseException, n: int = 6) -> list[str]:
    return [f"{Path(f.filename).name}:{f.lineno}:{f.name}" for f in traceback.extract_tb(e.__traceback__)[-n:]]


def _harness_error(e: BaseException) -> bool:
    """raised by the checking code itself (say, because it does not fit the code under test any more)?"""
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and str(Path(tb[-1].filename).resolve()).startswith(str(VERIF) + os.sep) and isinstance(
        e, (AttributeError, NameError, TypeError, ImportError)
    )


def run_symbolic(sc: Scenario, budget: float) -> dict:
    from symx import engine as E

    eng = E.Engine(
        max_paths=sc.max_paths,
        time_limit=min(sc.time_limit, budget),
        query_timeout_ms=sc.query_timeout_ms,
        max_values=sc.max_values,
    )
    env = SymEnv(eng)
    res: dict = {"scenario": sc.name, "status": "ok", "cfg": repr(sc.cfg)}
    t0 = time.monotonic()
    sample: list = []

    def on_alarm(*_: Any) -> None:
        raise PathTimeout()

    signal.signal(signal.SIGALRM, on_alarm)

    def body() -> None:
        signal.setitimer(signal.ITIMER_REAL, sc.path_timeout)
        try:
            sc.fn(env, **sc.cfg)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if len(sample) < 2:
            sample.append(eng.current_inputs())

    try:
        eng.explore(body)
    except E.Violated as v:
        res.update(status="counterexample", label=v.label, inputs=v.inputs)
    except PathTimeout as v:
        res.update(status="counterexample", label="does not terminate", inputs=_inputs(eng), where=_short_tb(v))
    except E.EngineLimit as v:
        res.update(status="inconclusive", reason=str(v), where=_short_tb(v, 10))
    except RecursionError as v:
        res.update(status="counterexample", label="unexpected RecursionError", inputs=_inputs(eng), where=_short_tb(v))
    except Exception as v:  # pylint: disable=broad-except
        if _harness_error(v):
            res.update(status="inconclusive", reason=f"the check does not fit the code: {type(v).__name__}: {v}", where=_short_tb(v, 10))
        else:
            res.update(
                status="counterexample",
                label=f"unexpected {type(v).__name__}: {str(v)[:200]}",
                inputs=_inputs(eng),
                where=_short_tb(v, 10),
            )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if res.get("inputs", 0) is None:
        res.update(status="inconclusive", reason="no model for " + res["label"])
    if res["status"] == "ok":
        missing = [w for w in sc.witnesses if not eng.reached.get(w)]
        if missing:
            res.update(status="inconclusive", reason=f"reachability witnesses not reached: {missing}")
        if not eng.stats["obligations"]:
            res.update(status="inconclusive", reason="no property assertion was reached")
    if res["status"] != "ok":
        res["candidates"] = candidates(eng)
    res.update(
        stats=eng.stats, labels=eng.labels, reached=eng.reached, wall=round(time.monotonic() - t0, 2), sample=sample
    )
    return res


def _inputs(eng: Any) -> Optional[dict]:
    from symx import engine as E

    prev, E.CUR = E.CUR, eng
    try:
        for _ in range(100):
            if eng.model is None and not eng._check():
                return None
            m = eng.model or eng.solver.model()
            lemma = eng._rounding_lemma(m)
            if lemma is None:
                return eng.model_inputs(m)
            eng._suspect(m)
            eng.solver.add(lemma)
            eng.model = None
        return None
    except BaseException:  # pylint: disable=broad-except
        return None
    finally:
        E.CUR = prev


def candidates(eng: Any) -> list:
    """Inputs to replay when the solver has no genuine counterexample but no proof either: those of models of the
    violation that were not genuine, then variations of them.  Only a violation by the real code counts."""
    import random

    rnd = random.Random(1)
    base = eng.candidates[:5] + eng.candidates[-20:]
    try:
        m = eng.model or (eng.solver.model() if eng._check() else None)
        base += [eng.model_inputs(m)] if m is not None else []
    except BaseException:  # pylint: disable=broad-except
        pass

    def coarse(v: Any) -> Any:
        if isinstance(v, list):
            f = Fraction(round(Fraction(*v) * 1024), 1024)
            return [f.numerator, f.denominator]
        return v

    def vary(k: str, v: Any, p: float) -> Any:
        lo, hi = eng.ranges.get(k, (0, 0))
        if isinstance(v, (bool, str)) or hi - lo < 8 or rnd.random() > p:
            return v
        if isinstance(v, list):
            f = Fraction(lo) + Fraction(rnd.choice([rnd.random(), rnd.random() ** 8, 1 - rnd.random() ** 8])) * (hi - lo)
            return [f.numerator, f.denominator]
        return rnd.choice([rnd.randint(lo, hi), hi, hi - 1, lo + 1, lo + int((hi - lo) ** rnd.random())])

    out = list(base)
    out += [{k: coarse(v) for k, v in b.items()} for b in base]
    for p in (0.3, 1.0, 0.6, 1.0):
        for b in base:
            out += [{k: vary(k, v, p) for k, v in b.items()} for _ in range(4)]
    return out[:400]


def run_concrete(sc: Scenario, inputs: dict) -> dict:
    env = ConcEnv(inputs)
    try:
        sc.fn(env, **sc.cfg)
    except ReplayViolation as v:
        return {"reproduced": True, "label": str(v), "where": _short_tb(v)}
    except ReplayInfeasible as v:
        return {"reproduced": False, "label": f"infeasible input: {v}"}
    except Exception as v:  # pylint: disable=broad-except
        if _harness_error(v):
            return {"reproduced": False, "label": f"the check does not fit the code: {type(v).__name__}: {v}", "where": _short_tb(v, 10)}
        return {
            "reproduced": True,
            "label": f"unexpected {type(v).__name__}: {str(v)[:300]}",
            "where": _short_tb(v, 10),
            "exception": True,
        }
    return {"reproduced": False, "label": "no assertion failed", "checked": env.labels}


# -- one check -----------------------------------------------------------------------------------------------------
def _worker(args: tuple) -> dict:
    mod_name, tier, idx, budget = args
    import importlib

    mod = importlib.import_module(mod_name)
    sc = mod.scenarios(tier)[idx]
    try:
        r = run_symbolic(sc, budget)
    except BaseException as e:  # pylint: disable=broad-except
        r = {"scenario": sc.name, "status": "inconclusive", "reason": f"harness: {type(e).__name__}: {e}", "where": _short_tb(e, 12), "stats": {}, "labels": {}, "reached": {}, "wall": 0, "sample": []}
    r["idx"] = idx
    return r


def _child(conn: Any, args: tuple) -> None:
    try:
        os.setpgid(0, 0)
        conn.send(_worker(args))
        conn.close()
    finally:
        sys.stdout.flush()
        os._exit(0)


def _no_result(job: tuple, reason: str) -> dict:
    return {"scenario": job[3], "status": "inconclusive", "reason": reason, "stats": {}, "labels": {}, "reached": {}, "wall": 0, "sample": [], "idx": job[2]}


def _run_all(jobs: list, n: int, deadline: float) -> Any:
    """One forked process per scenario, n at a time (the parent has no threads: nothing can be forked while locked)."""
    ctx = mp.get_context("fork")
    todo = [(j, 0) for j in jobs]
    running: dict = {}
    try:
        while todo or running:
            while todo and len(running) < n:
                (mod_name, tier, idx, name), tries = todo.pop(0)
                r, w = ctx.Pipe(duplex=False)
                p = ctx.Process(target=_child, args=(w, (mod_name, tier, idx, deadline - time.monotonic())), daemon=False)
                p.start()
                w.close()
                running[r] = (p, (mod_name, tier, idx, name), tries)
            if time.monotonic() > deadline + 20:
                for conn, (p, job, _) in running.items():
                    _kill(p)
                    yield _no_result(job, "budget of the check exceeded")
                for job, _ in todo:
                    yield _no_result(job, "budget of the check exceeded")
                running.clear()
                return
            for conn in mpc.wait(list(running), timeout=5):
                p, job, tries = running.pop(conn)
                try:
                    res = conn.recv()
                except (EOFError, OSError):
                    res = None
                conn.close()
                _kill(p)
                if res is None and tries == 0:
                    todo.insert(0, (job, 1))
                    continue
                if res is None:
                    res = _no_result(job, f"the process deciding it died twice (exit code {p.exitcode})")
                yield res
    finally:
        for p, *_ in running.values():
            _kill(p)


def _kill(p: Any) -> None:
    for f, x in ((os.killpg, p.pid), (os.kill, p.pid)):
        try:
            f(x, signal.SIGKILL)
        except OSError:
            pass
    p.join()


def _limit_memory(gb: float) -> None:
    import resource

    n = int(gb * 2**30)
    resource.setrlimit(resource.RLIMIT_AS, (n, n))


def replay_subprocess(mod_name: str, tier: str, name: str, inputs: dict, timeout: float) -> dict:
    cmd = [sys.executable, str(VERIF / "run.py"), "--replay-json", json.dumps({"module": mod_name, "tier": tier, "scenario": name, "inputs": inputs})]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=str(VERIF), start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return {"reproduced": True, "label": f"does not terminate within {timeout:.0f}s", "timeout": True}
    for line in out.decode(errors="replace").splitlines():
        if line.startswith("REPLAY "):
            return json.loads(line[7:])
    return {"reproduced": False, "label": "replay crashed: " + err.decode(errors="replace")[-800:]}


def replay_candidates(mod_name: str, tier: str, r: dict, timeout: float) -> bool:
    """Does the real code violate the property with one of the candidates?"""
    if not r.get("candidates"):
        return False
    cmd = [sys.executable, str(VERIF / "run.py"), "--replay-candidates", "-"]
    job = json.dumps({"module": mod_name, "tier": tier, "scenario": r["scenario"], "candidates": r["candidates"]})
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=str(VERIF), start_new_session=True)
    try:
        out, _ = p.communicate(job.encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return False
    for line in out.decode(errors="replace").splitlines():
        if line.startswith("REPLAY "):
            d = json.loads(line[7:])
            r.update(status="counterexample", inputs=d["inputs"], replay=d["result"], label=r.get("label") or r.get("reason", ""))
            return True
    return False


def load_findings() -> list[dict]:
    p = VERIF / "known_findings.json"
    return json.loads(p.read_text()) if p.exists() else []


def finding_for(prop: str, scenario: str, rep: dict) -> Optional[dict]:
    """A listed finding suppresses only what it identifies: property, scenario and failure label."""
    for f in load_findings():
        if f.get("status") != "open" or f["property"] != prop:
            continue
        if scenario == f["scenario"] and rep["label"].startswith(f["label"]):
            return f
    return None


def run_check(prop: str, tier: str, seed: int) -> int:
    import importlib

    t0 = time.monotonic()
    mod_name = f"checks.{prop.lower()}"
    mod = importlib.import_module(mod_name)
    scs = mod.scenarios(tier)
    names = [s.name for s in scs]
    assert len(set(names)) == len(names), "scenario names must be unique"
    total = 840.0 if tier == "quick" else 6 * 3600.0
    total = float(os.environ.get("VERIF_BUDGET", total))
    results: list[dict] = []
    only = os.environ.get("VERIF_ONLY")
    idxs = [i for i, s in enumerate(scs) if not only or only in s.name]
    jobs = [(mod_name, tier, i, scs[i].name) for i in idxs]
    with contextlib.closing(_run_all(jobs, min(8, len(idxs)), t0 + total)) as done:
        for r in done:
            results.append(r)
            if os.environ.get("VERIF_VERBOSE"):
                st = r["stats"]
                print(f"  {r['scenario']}: {r['status']} {r.get('label','')}{r.get('reason','')} paths={st.get('paths')} infeas={st.get('infeasible')} q={st.get('queries')} solver={st.get('solver_s',0):.1f}s wall={r['wall']}", flush=True)
            if r["status"] == "counterexample" and not os.environ.get("VERIF_ALL"):
                rep = replay_subprocess(mod_name, tier, r["scenario"], r["inputs"], 2 * scs[r["idx"]].path_timeout + 60)
                r["replay"] = rep
                if rep["reproduced"] and not finding_for(prop, r["scenario"], rep):
                    break
    results.sort(key=lambda r: r["idx"])
    violations, inconclusive, known = [], [], []
    found = any(r.get("replay", {}).get("reproduced") for r in results)
    for r in results:
        if r["status"] == "inconclusive" and not found:
            found = replay_candidates(mod_name, tier, r, min(60, max(5, t0 + total + 30 - time.monotonic())))
    for r in results:
        if r["status"] == "inconclusive":
            inconclusive.append(r)
        elif r["status"] == "counterexample":
            rep = r.get("replay") or replay_subprocess(mod_name, tier, r["scenario"], r["inputs"], 2 * scs[r["idx"]].path_timeout + 60)
            r["replay"] = rep
            if not rep["reproduced"] and not violations and replay_candidates(mod_name, tier, r, 60):
                rep = r["replay"]
            if not rep["reproduced"]:
                r["reason"] = f"counterexample ({r['label']}) did not reproduce on the real code: {rep['label']}"
                inconclusive.append(r)
                continue
            f = finding_for(prop, r["scenario"], rep)
            (known if f else violations).append((r, rep, f))
    lines = []
    out_dir = VERIF / "evidence" / "replays"
    out_dir.mkdir(parents=True, exist_ok=True)
    for r, rep, _ in violations:
        path = out_dir / f"{prop}-{r['scenario'].replace('/', '_')}.json"
        path.write_text(
            json.dumps(
                {
                    "property": prop,
                    "module": mod_name,
                    "tier": tier,
                    "scenario": r["scenario"],
                    "inputs": r["inputs"],
                    "expected": rep["label"],
                    "solver_label": r["label"],
                    "where": rep.get("where"),
                    "how": f"python3 {VERIF}/run.py --replay {path}",
                },
                indent=1,
            )
        )
        lines.append(f"VIOLATION property={prop} replay={path}")
        lines.append(f"  {r['scenario']}: {rep['label']} with {json.dumps(r['inputs'])[:600]}")
    agg: dict = {}
    for r in results:
        for k, v in r["stats"].items():
            agg[k] = round(agg.get(k, 0) + v, 3)
    labels: dict = {}
    reached: dict = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["reached"].items():
            reached[k] = reached.get(k, 0) + v
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real functions (executed by CPython from the working tree "
            "with symbolic inputs); every path within the bounds is explored and every assertion is decided by z3 for "
            "all input values of the path. Not a proof beyond the bounds.",
            "functions_encoded": mod.FUNCTIONS,
            "bounds": mod.BOUNDS,
            "outside_the_bounds": getattr(mod, "OUTSIDE", ""),
            "scenarios": [
                {k: r.get(k) for k in ("scenario", "status", "stats", "wall", "reached", "reason") if r.get(k) is not None}
                for r in results
            ],
            "paths": int(agg.get("paths", 0)),
            "queries": int(agg.get("queries", 0)),
            "solver_s": round(agg.get("solver_s", 0), 2),
            "assertions_decided": int(agg.get("obligations", 0)),
            "assertions_by_label": labels,
            "reachability_witnesses": reached,
            "samples": [{"scenario": r["scenario"], "inputs": s} for r in results for s in r["sample"][:1]][:6],
            "exhaustive": not inconclusive and not violations,
        },
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    ev["coverage"]["samples"] = ev["coverage"]["samples"] or [{"none": True}]
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    for r, rep, f in known:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for l in lines:
        print(l)
    print(
        f"{prop}: {len(results)} scenarios, {int(agg.get('paths', 0))} paths, {int(agg.get('queries', 0))} queries, "
        f"{agg.get('solver_s', 0):.1f}s solver, {time.monotonic() - t0:.1f}s wall"
    )
    if violations:
        return 1
    if inconclusive:
        for r in inconclusive:
            print(f"INCONCLUSIVE {prop} {r['scenario']}: {r.get('reason')} {r.get('where', '')}")
        return 3
    return 0
