#!/opt/venv/bin/python
"""check.py <property> <quick|thorough>      decide one property on /repo's current source
check.py --replay <file>                    re-run a recorded violation against the real code"""
import faulthandler
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERSE_REPO", "/repo")
ENV = dict(MPLBACKEND="Agg", PLOTLY_RENDERER="json", QT_QPA_PLATFORM="offscreen", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", RAY_USAGE_STATS_ENABLED="0", PYVISTA_OFF_SCREEN="true")
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


class RunTimeout(BaseException):
    pass


def _alarm(*_):
    raise RunTimeout()


def quiet():
    """the code under test prints; keep our own stdout clean"""
    sys.stdout = io.StringIO()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    import warnings
    warnings.simplefilter("ignore")


def seed_of(base, name, k):
    return int.from_bytes(hashlib.sha256(f"{base}/{name}/{k}".encode()).digest()[:6], "big")


def run_once(contract, seed, source=None):
    r = run_once_(contract, seed, source, 1)
    return run_once_(contract, seed, source, 2) if r[0] == "timeout" else r


def run_once_(contract, seed, source, factor):
    from pyvc import spec
    import numpy as np
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(contract.run_limit * factor)
    try:
        return spec.concrete(contract.fn, seed, source)
    except RunTimeout:
        return "timeout", f"no result within {contract.run_limit} s", None
    finally:
        signal.alarm(0)


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]


def finding(contract, how, seed, label, S, values=None):
    return {"contract": contract.name, "how": how, "seed": seed, "label": label, "known": (S.known_hit if S is not None else None),
            "draws": jsonable(S.draws) if S is not None else {}, "values": values}


def work(pid, k, tier, base_seed, conn):
    quiet()
    faulthandler.disable()
    t0 = time.time()
    mod = importlib.import_module("props." + pid)
    c = mod.PROP.contracts[k]
    ti = 0 if tier == "quick" else 1
    out = {"name": c.name, "kind": c.prove, "bound": c.bound, "status": None, "violations": [], "errors": []}
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    # 1. prove every obligation generated from the current source
    if c.prove:
        from pyvc import spec
        try:
            r = spec.prove(c.name, c.fn, deadline=time.time() + c.budget[ti], timeout=c.timeout * (1 if ti == 0 else 3), max_paths=c.max_paths)
        except BaseException as e:
            r = spec.ProofResult(c.name)
            r.status, r.reason, r.models, r.functions = "unsupported", "verifier fault: " + repr(e)[:300], [], set()
        out.update(status=r.status, reason=r.reason, obligations=r.obligations, discharged=r.discharged, failed=r.failed, paths=r.paths,
                   live_paths=r.live_paths, solver_time=r.solver_time, queries=r.queries, prove_time=r.time, trusted=sorted(r.trusted),
                   inlined=sorted(r.inlined), loops=sorted(r.loops), stubbed=sorted(r.contract_calls), native=sorted(r.native))
        out["functions"] = sorted(set(r.functions) | set(c.functions))
        conn.send(("part", out))
        for label, src in getattr(r, "models", []):
            try:
                st, lab, S = run_once(c, 0, src)
            except Exception:
                continue
            if st == "violated":
                out["violations"].append(finding(c, "counterexample replay of obligation: " + label, 0, lab, S))
                break
    else:
        out["functions"] = sorted(c.functions)
    # 2. the same contract as a run-time check on generated inputs
    stats = {"ok": 0, "reject": 0, "violated": 0, "timeout": 0, "error": 0}
    checks, sample, distinct = 0, None, set()
    n = c.runs[ti] * (4 if out["status"] == "refuted" else 1)
    t1 = time.time()
    lim = c.run_time[ti]
    seen = set()
    for j in range(n):
        if time.time() - t1 > lim and j > 3:
            break
        sd = seed_of(base_seed, pid + "." + c.name, j)
        try:
            st, lab, S = run_once(c, sd)
        except Exception as e:  # fault of the contract text, not of the code under test
            stats["error"] += 1
            if len(out["errors"]) < 3:
                out["errors"].append("".join(traceback.format_exception(e))[-1500:])
            continue
        stats[st] += 1
        if S is not None and st in ("ok", "violated"):
            checks += S.checks
            if S.checks:
                distinct.add(hashlib.md5(repr(jsonable(S.draws)).encode()).hexdigest())
            if sample is None and S.checks:
                sample = jsonable(S.draws)
            if S.functions:
                out["functions"] = sorted(set(out["functions"]) | S.functions)
        if st == "violated":
            key = (S.known_hit, lab.split("\n")[0][:80])
            if key not in seen:
                seen.add(key)
                out["violations"].append(finding(c, "contract run", sd, lab, S))
            if sum(1 for v in out["violations"] if not v["known"]) >= 2:
                break
        if st == "timeout":
            out["violations"].append({"contract": c.name, "how": "contract run", "seed": sd, "label": lab, "known": None, "draws": {}, "values": None})
            break
    out.update(runs=stats, checks=checks, distinct=len(distinct), sample=sample, time=time.time() - t0)
    conn.send(("done", out))
    conn.close()


def run_property(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("props." + pid)
    prop = mod.PROP
    ctx = mp.get_context("fork")
    pend = list(range(len(prop.contracts)))
    running, results = {}, {}
    hard = 780 if tier == "quick" else 3000
    cores = max(2, min(8, os.cpu_count() or 4))
    sys.stdout.flush()
    while pend or running:
        while pend and len(running) < cores:
            k = pend.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=work, args=(pid, k, tier, seed, b), daemon=True)
            p.start()
            b.close()
            running[k] = (p, a, time.time())
        for k, (p, conn, ts) in list(running.items()):
            c = prop.contracts[k]
            ti = 0 if tier == "quick" else 1
            limit = c.budget[ti] * 1.5 + c.run_time[ti] * 2 + c.run_limit * 2 + 30
            done = False
            try:
                while conn.poll(0):
                    kind, out = conn.recv()
                    results[k] = out
                    done = done or kind == "done"
            except EOFError:
                done = True
            if not done and p.is_alive() and (time.time() - ts > limit or time.time() - t0 > hard):
                p.kill()
                done = True
            if done or not p.is_alive():
                p.join(5)
                if k not in results:
                    results[k] = {"name": c.name, "kind": c.prove, "bound": c.bound, "status": "undecided" if c.prove else None, "reason": "worker ended",
                                  "violations": [], "errors": ["worker ended without a result"], "functions": list(c.functions)}
                del running[k]
        time.sleep(0.05)
    res = [results[k] for k in sorted(results)]
    return report(pid, tier, seed, prop, res, time.time() - t0)


def load_known():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def report(pid, tier, seed, prop, res, wall):
    known = {f["id"]: f for f in load_known() if f["property"] == pid and f["status"] == "known"}
    viol, printed = [], set()
    for r in res:
        real = [v for v in r["violations"] if v["known"] not in known]
        for v in r["violations"]:
            if v["known"] in known:
                printed.add(v["known"])
        for v in real:
            viol.append((r, v, ""))
        if not real and r.get("status") == "refuted":
            labs = [l for l, s in r["failed"] if s == "sat" and not l.startswith(("safety:", "no exception"))]
            if labs and not any(v["known"] in known for v in r["violations"]):
                viol.append((r, {"contract": r["name"], "how": "obligation refuted by the solver", "label": labs[0], "failed": r["failed"],
                                 "solver": {"queries": r["queries"], "time": r["solver_time"]}}, " no-failing-input-found"))
    for f in sorted(known):
        # a listed finding is reported whenever its contract was exercised
        if f in printed or any(r["name"] == known[f].get("contract") for r in res):
            print(f"KNOWN-FINDING: property={pid} {known[f]['what']}")
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    lines = 0
    for n, (r, v, tail) in enumerate(viol[:6]):
        path = os.path.join(HERE, "evidence", "replay", f"{pid}-{r['name']}-{n}.json")
        v = dict(v, property=pid)
        json.dump(v, open(path, "w"), indent=1, default=repr)
        print(f"# {pid} {r['name']}: {v['label'][:600]}")
        print(f"VIOLATION property={pid} replay={path}{tail}")
        lines += 1
    evidence(pid, tier, seed, prop, res, wall, lines)
    for r in res:
        if r.get("status"):
            print(f"# {r['name']}: {r['status']} {r.get('discharged', 0)}/{r.get('obligations', 0)} obligations"
                  f" {r.get('prove_time', 0):.1f}s runs={r.get('runs')} {('reason: ' + r['reason']) if r.get('reason') else ''} {r.get('failed') or ''}")
        else:
            print(f"# {r['name']}: run-time contract only runs={r.get('runs')}")
        for e in r["errors"]:
            print("#   check error:", e.strip().splitlines()[-1] if e.strip() else e)
            if os.environ.get("PYVC_DEBUG"):
                print(e)
    print(f"# {pid} {tier}: {wall:.1f}s {'VIOLATED' if lines else 'ok'}")
    return 1 if lines else 0


def evidence(pid, tier, seed, prop, res, wall, nviol):
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == pid), "other")
    def total(kind, what):
        return sum(r.get(what, 0) for r in res if r.get("kind") == kind)
    trusted = sorted(set(t for r in res for t in r.get("trusted", [])))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "wall_s": round(wall, 2), "violations": nviol,
        "coverage": {
            "obligations": total("unbounded", "obligations"), "discharged": total("unbounded", "discharged"),
            "bounded_obligations": total("bounded", "obligations"), "bounded_discharged": total("bounded", "discharged"),
            "checker_cmd": f"/opt/venv/bin/python /verif/check.py {pid} {tier}",
            "trusted_base": ["pyvc: verification-condition generator for Python in /verif/pyvc (semantics of the interpreted subset, loop summaries, library models)",
                             "z3 " + __import__("z3").get_version_string()] + trusted,
            "back_end": "z3 (all obligations)",
            "solver_time_s": round(sum(r.get("solver_time", 0) for r in res), 2),
            "solver_queries": sum(r.get("queries", 0) for r in res),
            "functions_under_contract": sorted(set(f for r in res for f in r.get("functions", []))),
            "functions_interpreted": sorted(set(f for r in res for f in r.get("inlined", []))),
            "loops_summarised": sorted(set(f for r in res for f in r.get("loops", []))),
            "callees_replaced_by_contract": sorted(set(f for r in res for f in r.get("stubbed", []))),
            "evaluations": sum(sum(r.get("runs", {}).values()) for r in res if r.get("runs")),
            "distinct_nontrivial": sum(r.get("distinct", 0) for r in res),
            "rule": "contract runs on seeded random inputs; non-trivial: the precondition held and at least one postcondition was evaluated; distinct by drawn values",
            "samples": [r["sample"] for r in res if r.get("sample")][:3],
            "explanation": "every obligation is generated from /repo's current source and discharged by z3 ('obligations': for all inputs of all sizes; 'bounded_obligations': for all values within the bound each contract states, never counted as proved); the same contracts also run against the real code on generated inputs",
            "contracts": [{k: r.get(k) for k in ("name", "kind", "bound", "status", "reason", "obligations", "discharged", "failed", "paths", "live_paths",
                                                  "prove_time", "runs", "checks", "errors")} for r in res],
        },
        "assumptions": prop.assumes + sorted(set(a for c in prop.contracts for a in c.assumes)) + [
            "floating-point numbers are treated as real numbers in proofs; contract runs use IEEE doubles with relative tolerance 1e-7",
            "Python integers and lists have their mathematical meaning; calls to print/warnings have no effect"],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=repr)


def replay(path):
    v = json.load(open(path))
    mod = importlib.import_module("props." + v["property"])
    c = next(c for c in mod.PROP.contracts if c.name == v["contract"])
    if v["how"].startswith("obligation refuted"):
        print("no failing input recorded; refuted obligations:", v["failed"])
        return 0
    from pyvc import spec
    src = spec.TableSource(v["draws"]) if v["how"].startswith("counterexample") else None
    st, lab, S = run_once(c, v["seed"], src)
    print(st, lab)
    return 1 if st in ("violated", "timeout") else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    sys.exit(run_property(pid, tier))
