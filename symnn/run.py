"""Property checks: path exploration, replay, evidence."""
import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


class Harness:
    def __init__(self, name, fn, backend="numpy", tier="quick", max_paths=400, timeout=40.0, rtol=1e-6, concrete_only_errors=False, funcs=(), bounds="", plot_stub=True, deadline=None, merge_where=False, validate=True):
        self.name, self.fn, self.backend, self.tier = name, fn, backend, tier
        self.max_paths, self.timeout, self.rtol = max_paths, timeout, rtol
        self.bounds = bounds
        self.deadline = deadline
        self.merge_where = merge_where
        self.validate = validate


def harness(reg, name=None, **kw):
    """decorator: register a harness in the list `reg`"""

    def deco(fn):
        reg.append(Harness(name or fn.__name__, fn, **kw))
        return fn

    return deco


def load_prop(pid):
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    return importlib.import_module(f"props.{pid}")


class Replayer:
    """the real code in a separate process"""

    def __init__(self, prop, h, tier):
        self.args = [PY, "-W", "ignore", "-m", "symnn.concrete", prop, h.name, tier]
        self.p = None

    def _start(self):
        import queue
        import threading

        env = dict(os.environ, PYTHONPATH=ROOT, OMP_NUM_THREADS="1")
        env.pop("NANNOS_BACKEND", None)
        p = subprocess.Popen(self.args, cwd=ROOT, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        q = queue.Queue()

        def read():
            for line in p.stdout:
                if line.startswith("@@"):
                    q.put(json.loads(line[2:]))
            q.put(None)

        threading.Thread(target=read, daemon=True).start()
        self.p, self.q = p, q

    def run(self, inputs, timeout=120):
        import queue

        if self.p is None or self.p.poll() is not None:
            self._start()
        try:
            self.p.stdin.write(json.dumps(inputs) + "\n")
            self.p.stdin.flush()
            r = self.q.get(timeout=timeout)
        except (queue.Empty, OSError):
            r = None
        if r is None:
            self.close()
            return {"status": "crash", "failures": [], "observed": {}}
        return r

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def _perturbed(model, sample):
    """the model, then nearby / mixed inputs"""
    import random

    rng = random.Random(7)
    yield dict(model)
    r = {k: (round(v, 6) if isinstance(v, float) else v) for k, v in model.items()}
    if r != model:
        yield r
    yield dict(sample)
    for k in range(8):
        out = {}
        for n, v in model.items():
            if isinstance(v, bool) or isinstance(v, int):
                out[n] = v
                continue
            s = sample.get(n, v)
            if k < 4:
                # keep zeros and structure of the model, move the rest
                out[n] = v * (1 + 0.1 * rng.uniform(-1, 1)) if v else v
                if abs(v) > 1e3 or (0 < abs(v) < 1e-3):
                    out[n] = s
            else:
                out[n] = v if rng.random() < 0.5 else s
        yield out


def explore(prop, hname, tier, seed, deadline):
    """run one harness symbolically over all its paths; returns a result dict"""
    from .load import ensure_z3, load_symbolic

    ensure_z3()
    from . import core

    t0 = time.time()
    mod = load_prop(prop)
    h = next(x for x in mod.HARNESSES if x.name == hname)
    st = core.Stats()
    ctx = core.SymCtx(st, seed=seed, timeout=h.timeout, max_paths=h.max_paths, tier=tier)
    core.set_ctx(ctx)
    res = {"harness": hname, "violations": [], "unconfirmed": [], "inconclusive": [], "bounds": h.bounds, "validated": 0}
    rep = Replayer(prop, h, tier)
    tracer = FuncTracer()
    known = known_findings()
    try:
        nn = load_symbolic(h.backend)
    except BaseException as e:
        res["inconclusive"].append(f"import: {type(e).__name__}: {e}")
        traceback.print_exc()
        return res

    def late(*a):
        raise core.Inconclusive(f"deadline {deadline}s reached inside a path")

    stack = [[]]
    first = True
    notes = set()
    while stack:
        prefix = stack.pop()
        ctx.reset()
        core.set_ctx(ctx)
        ctx.merge_where = h.merge_where
        ctx.prefix = prefix
        bad = None
        try:
            signal.signal(signal.SIGALRM, late)
            signal.alarm(max(5, int(deadline - (time.time() - t0))))
            with tracer if first else NullTracer():
                h.fn(ctx, nn)
            ctx.witness()
            st.paths += 1
            if first and h.validate:
                validate(ctx, h, rep, res)
            first = False
        except core.Infeasible:
            st.infeasible += 1
        except core.Violation as e:
            bad = (e.name, e.model, e.detail, False)
            st.paths += 1
        except core.Inconclusive as e:
            bad = (f"inconclusive: {e}", None, traceback.format_exc()[-800:], True)
        except (KeyboardInterrupt, SystemExit):
            raise
        except RecursionError as e:
            bad = (f"inconclusive: {e}", None, "", True)
        except BaseException as e:
            bad = (f"exception {type(e).__name__}: {e}", None, traceback.format_exc()[-1500:], False)
            st.paths += 1
            try:
                r, m = ctx.full(core.z3.BoolVal(True), 20)
                if r == core.z3.unsat:
                    bad = None
                    st.infeasible += 1
                elif m is not None:
                    bad = (bad[0], ctx.model_inputs(m), bad[2], False)
            except BaseException:
                pass
        signal.alarm(0)
        notes.update(ctx.notes)
        # alternatives of this path
        for i in range(len(ctx.trail) - 1, len(prefix) - 1, -1):
            d, alt = ctx.trail[i]
            if alt:
                stack.append([t[0] for t in ctx.trail[:i]] + [not d])
        if bad is not None:
            name, model, detail, incon = bad
            sample = ctx.sample_inputs()
            hit = None
            for inp in _perturbed(model or sample, sample):
                r = rep.run(inp)
                if r["status"] == "fail" and (not all(f.get("nonfinite") for f in r["failures"]) or inp == sample):
                    hit = (inp, r)
                    break
                if r["status"] == "exception":
                    hit = (inp, r)
                    break
            if hit:
                f = hit[1]["failures"][0] if hit[1]["failures"] else {"obligation": "exception", "got": hit[1].get("exception")}
                res["violations"].append({"harness": hname, "obligation": f["obligation"], "solver_obligation": name, "detail": detail, "inputs": hit[0], "observed": f, "backend": h.backend})
                if len(res["violations"]) >= 3 or not is_known(res["violations"][-1], prop, known):
                    break
            elif incon:
                res["inconclusive"].append(f"{name} {detail}")
            else:
                res["unconfirmed"].append({"obligation": name, "inputs": model, "detail": detail})
            if len(res["unconfirmed"]) + len(res["inconclusive"]) >= 6:
                break
        if st.paths + st.infeasible >= h.max_paths and stack:
            res["inconclusive"].append(f"path bound {h.max_paths} reached with {len(stack)} prefixes open")
            break
        if time.time() - t0 > deadline and stack:
            res["inconclusive"].append(f"deadline {deadline}s reached with {len(stack)} prefixes open")
            break
    rep.close()
    if st.paths == 0 and not res["inconclusive"]:
        res["inconclusive"].append("no feasible path (vacuous)")
    if st.witness == 0 and st.paths and not res["violations"]:
        res["inconclusive"].append("vacuity: no path's assumptions were shown satisfiable")
    res.update(
        paths=st.paths,
        infeasible=st.infeasible,
        branches=st.branches,
        queries=st.queries,
        solver_s=round(st.solver_s, 3),
        proved=st.proved,
        kinds=st.kinds,
        witness=st.witness,
        samples=st.samples,
        notes=sorted(notes),
        functions=sorted(tracer.funcs),
        wall_s=round(time.time() - t0, 2),
    )
    return res


class NullTracer:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class FuncTracer:
    """names of the package's functions executed symbolically (first path)"""

    def __init__(self):
        self.funcs = set()

    def _start(self, code, offset):
        f = code.co_filename
        if "/nannos/" in f:
            q = code.co_qualname
            if not q.endswith(">") or "<locals>" in q:
                mod = "nannos" + f.rsplit("/nannos", 1)[1].removesuffix(".py").replace("/", ".").replace(".__init__", "")
                for x in (".<locals>", ".<listcomp>", ".<genexpr>", ".<lambda>"):
                    q = q.replace(x, "")
                self.funcs.add(f"{mod}.{q}")
        return sys.monitoring.DISABLE

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(m.PROFILER_ID, "symnn")
        m.register_callback(m.PROFILER_ID, m.events.PY_START, self._start)
        m.set_events(m.PROFILER_ID, m.events.PY_START)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(m.PROFILER_ID, 0)
        m.register_callback(m.PROFILER_ID, m.events.PY_START, None)
        m.free_tool_id(m.PROFILER_ID)


def validate(ctx, h, rep, res):
    """the encoding against the real code, at the sample point"""
    import numpy as np

    from .core import lift

    sample = ctx.sample_inputs()
    r = rep.run(sample)
    if r["status"] in ("fail", "exception"):
        f = r["failures"][0] if r["failures"] else {"obligation": "exception", "got": r.get("exception")}
        res["violations"].append({"harness": h.name, "obligation": f["obligation"], "solver_obligation": "(validation run of the real code at the sample point)", "detail": r.get("trace", ""), "inputs": sample, "observed": f, "backend": h.backend})
        return
    if r["status"] == "crash":
        res["inconclusive"].append("validation run crashed")
        return
    if r["status"] == "skip":
        res["inconclusive"].append(f"validation run skipped: {r.get('why')}")
        return
    for k, x in ctx.observed.items():
        xs = np.asarray(x, dtype=object).ravel()
        got = [complex(lift(y).v) for y in xs]
        want = [complex(*c) for c in r["observed"].get(k, [])]
        if len(got) != len(want):
            res["inconclusive"].append(f"validation: {k} has {len(got)} values, real code {len(want)}")
            continue
        sc = max([abs(w) for w in want] + [1e-12])
        for a, b in zip(got, want):
            if not abs(a - b) <= 1e-6 * sc + 1e-12:
                res["inconclusive"].append(f"validation: {k}: encoding {a} real code {b}")
                break
        res["validated"] += len(want)


# ---------------------------------------------------------------- main


def known_findings():
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                d = dict(t.split("=", 1) for t in line[6:].split(" -- ")[0].split() if "=" in t)
                d["text"] = line.split(" -- ", 1)[1] if " -- " in line else ""
                out.append(d)
    return out


def is_known(v, prop, known):
    for k in known:
        if k.get("property") == prop and k.get("harness") == v["harness"] and v["obligation"].startswith(k.get("obligation", "\0")):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--worker")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "7")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.worker:
        deadline = float(os.environ.get("SYMNN_DEADLINE", "300"))
        out = sys.stdout
        sys.stdout = sys.stderr
        try:
            r = explore(a.prop, a.worker, a.tier, seed, deadline)
        except BaseException as e:
            r = {"harness": a.worker, "violations": [], "unconfirmed": [], "inconclusive": [f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"]}
        out.write("\n@@" + json.dumps(r, default=str) + "\n")
        return 0
    if a.replay:
        d = json.load(open(a.replay))
        h = next(x for x in load_prop(d["property"]).HARNESSES if x.name == d["harness"])
        rep = Replayer(d["property"], h, a.tier)
        r = rep.run(d["inputs"])
        rep.close()
        print(json.dumps(r, indent=1))
        return 1 if r["status"] in ("fail", "exception") else 0
    t0 = time.time()
    mod = load_prop(a.prop)
    hs = [h for h in mod.HARNESSES if (h.tier == "quick" or a.tier == "thorough") and (not a.only or a.only in h.name.split(",") or h.name in a.only.split(","))]
    total = 780 if a.tier == "quick" else 3000

    known = known_findings()
    stop, running, lock = [], set(), threading.Lock()
    skipped = {"violations": [], "unconfirmed": [], "inconclusive": ["not run: a violation was found"]}

    def work(h):
        left = total - (time.time() - t0)
        dl = min(h.deadline or (300 if a.tier == "quick" else 1500), max(20, left - 60))
        env = dict(os.environ, PYTHONPATH=ROOT, SYMNN_DEADLINE=str(dl), VERIF_SEED=str(seed), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
        with lock:
            if stop:
                return dict(skipped, harness=h.name)
            p = subprocess.Popen([PY, "-W", "ignore", "-m", "symnn.run", a.prop, "--worker", h.name, "--tier", a.tier], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
            running.add(p)
        try:
            out, err = p.communicate(timeout=max(30, min(dl + 150, total - (time.time() - t0))))
        except subprocess.TimeoutExpired:
            end(p)
            p.communicate()
            return {"harness": h.name, "violations": [], "unconfirmed": [], "inconclusive": ["worker timeout"]}
        finally:
            with lock:
                running.discard(p)
        for line in out.splitlines():
            if line.startswith("@@"):
                r = json.loads(line[2:])
                if any(not is_known(v, a.prop, known) for v in r["violations"]):
                    # decided: the other harnesses need not finish
                    with lock:
                        stop.append(h.name)
                        for q in running:
                            end(q)
                return r
        if stop:
            return dict(skipped, harness=h.name)
        return {"harness": h.name, "violations": [], "unconfirmed": [], "inconclusive": [f"worker died rc={p.returncode}: {err[-600:]}"]}

    def end(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    with ThreadPoolExecutor(max(1, a.jobs)) as ex:
        results = list(ex.map(work, hs))
    viol, kn = [], []
    for r in results:
        for v in r["violations"]:
            k = is_known(v, a.prop, known)
            (kn.append((k, v)) if k else viol.append(v))
    bad = [(r["harness"], x) for r in results for x in r["inconclusive"]] + [(r["harness"], "counterexample not reproduced on the real code: " + json.dumps(u, default=str)[:1500]) for r in results for u in r["unconfirmed"]]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
    lines = []
    for i, v in enumerate(viol):
        path = os.path.join(ROOT, "out", f"{a.prop}-{v['harness']}-{i}.json")
        json.dump(dict(v, property=a.prop, how="./check %s --replay %s" % (a.prop, path)), open(path, "w"), indent=1, default=str)
        lines.append(path)
    write_evidence(a, mod, results, viol, kn, bad, seed, time.time() - t0)
    for r in results:
        print(f"  {r['harness']}: paths={r.get('paths', 0)} proved={r.get('proved', 0)} queries={r.get('queries', 0)} solver={r.get('solver_s', 0)}s validated={r.get('validated', 0)} wall={r.get('wall_s', 0)}s")
    for k, v in {(k["text"]): 0 for k, v in kn}.items():
        print(f"KNOWN-FINDING: property={a.prop} {k}")
    for v, path in zip(viol, lines):
        print(f"  {v['harness']}: {v['obligation']} (solver: {v['solver_obligation']}) at {json.dumps(v['inputs'])[:300]}: {str(v['observed'])[:400]}")
        print(f"VIOLATION property={a.prop} replay={path}")
    if viol:
        return 1
    for hn, x in bad:
        print(f"INCONCLUSIVE {hn}: {x}")
    if bad:
        return 2
    print(f"OK property={a.prop} tier={a.tier} wall={time.time() - t0:.1f}s")
    return 0


def write_evidence(a, mod, results, viol, kn, bad, seed, wall):
    funcs = sorted(set(f for r in results for f in r.get("functions", [])))
    kinds = {}
    for r in results:
        for k, n in r.get("kinds", {}).items():
            kinds[k] = kinds.get(k, 0) + n
    cov = {
        "explanation": "Symbolic execution of the unmodified package sources of /repo's working tree on a symbolic array backend; each obligation is the negated property put to z3 under the path condition (unsat = holds for every input within the bounds). " + getattr(mod, "ABOUT", ""),
        "functions_encoded": funcs,
        "bounds": {r["harness"]: r.get("bounds", "") for r in results},
        "harnesses": len(results),
        "paths_explored": sum(r.get("paths", 0) for r in results),
        "paths_infeasible": sum(r.get("infeasible", 0) for r in results),
        "branch_decisions": sum(r.get("branches", 0) for r in results),
        "obligations_discharged": sum(r.get("proved", 0) for r in results),
        "obligation_kinds": kinds,
        "solver_queries": sum(r.get("queries", 0) for r in results),
        "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
        "reachability_witnesses": sum(r.get("witness", 0) for r in results),
        "values_validated_against_real_code": sum(r.get("validated", 0) for r in results),
        "samples": [dict(s, harness=r["harness"]) for r in results for s in r.get("samples", [])][:40],
        "inconclusive": [f"{h}: {x}"[:500] for h, x in bad],
        "known_findings_seen": [v["obligation"] for k, v in kn],
    }
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + BASE_ASSUMPTIONS + sorted(set(n for r in results for n in r.get("notes", []))),
        "violations": len(viol),
        "wall_s": round(wall, 2),
    }
    p = os.path.join(ROOT, "evidence", f"{a.prop}.json")
    json.dump(ev, open(p, "w"), indent=1, default=str)


BASE_ASSUMPTIONS = [
    "floating-point arithmetic is modelled by exact real/complex arithmetic; float literals denote their exact dyadic value",
    "the array library's indexing, stacking, broadcasting and reductions are numpy itself on object arrays; linear solves, inverses, FFTs, sorting and elementary functions are replaced by their mathematical definition",
    "denominators met during execution (pivots, divisors) are nonzero",
]

if __name__ == "__main__":
    sys.exit(main())
