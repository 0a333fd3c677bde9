"""Master process: seeds -> workers, aggregation, minimisation, evidence."""

import argparse
import copy
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("DST_REPO", "/repo")
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")

from dst import simos  # noqa: E402
from dst.core import derive, jhash  # noqa: E402


class Worker:
    def __init__(self, pid, k, so):
        env = dict(os.environ)
        r, w = os.pipe()
        env.update(
            LD_PRELOAD=so,
            DST_SIMOS=so,
            DST_IN_FD=str(r),
            PYTHONPATH=f"{ROOT}:{REPO}",
            PYTHONHASHSEED=str(101 + 7919 * k),
            PYTHONDONTWRITEBYTECODE="1",
            MPLBACKEND="Agg",
            TZ="UTC",
            OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
            MKL_NUM_THREADS="1",
            HDF5_USE_FILE_LOCKING="TRUE",
            PYTHONWARNINGS="ignore",
            MPLCONFIGDIR=os.environ.get("MPLCONFIGDIR", "/tmp/dst-mpl"),
        )
        self.proc = subprocess.Popen(
            [PY, "-m", "dst.core", pid], env=env, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=(r,), text=True
        )
        os.close(r)
        self.inp = os.fdopen(w, "w")

    def ready(self):
        line = self.proc.stdout.readline()
        if not line:
            err = self.proc.stderr.read()
            raise RuntimeError("worker failed to start:\n" + err[-4000:])

    def call(self, job):
        self.inp.write(json.dumps(job) + "\n")
        self.inp.flush()
        line = self.proc.stdout.readline()
        if not line:
            return {"harness": f"worker died (exit {self.proc.poll()})", "job": job["id"]}
        return json.loads(line)

    def stop(self):
        try:
            self.inp.close()
        except OSError:
            pass
        try:
            self.proc.wait(timeout=5)
        except subprocess.TimeoutExpired:
            self.proc.kill()


class Pool:
    def __init__(self, pid, n):
        so = simos.build()
        self.workers = [Worker(pid, k, so) for k in range(n)]
        for w in self.workers:
            w.ready()

    def map(self, jobs, stop=None, avoid=None):
        """Run jobs on all workers; results in job order.  avoid: job id -> worker index not to use."""
        q = queue.Queue()
        for j in jobs:
            q.put(j)
        res = {}
        lock = threading.Lock()

        def loop(k, w):
            while True:
                if stop and stop():
                    return
                try:
                    j = q.get_nowait()
                except queue.Empty:
                    return
                if avoid and avoid.get(j["id"]) == k and len(self.workers) > 1:
                    j["_bounced"] = j.get("_bounced", 0) + 1
                    if j["_bounced"] < 50:
                        q.put(j)
                        time.sleep(0.005)
                        continue
                r = w.call(j)
                r["worker"] = k
                with lock:
                    res[j["id"]] = r

        ts = [threading.Thread(target=loop, args=(k, w)) for k, w in enumerate(self.workers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return res

    def stop(self):
        for w in self.workers:
            w.stop()


def sig(v):
    return f"{v['cls']}:{v['key']}"


# ---------------------------------------------------------------- minimiser

def _get(sc, path):
    cur = sc
    for p in path:
        cur = cur[p]
    return cur


def _expand(sc, path):
    """Expand '*' components over list indices."""
    out = [[]]
    for p in path:
        nxt = []
        for pre in out:
            try:
                node = _get(sc, pre)
            except (KeyError, IndexError, TypeError):
                continue
            if p == "*":
                if isinstance(node, list):
                    nxt += [[*pre, i] for i in range(len(node))]
            elif isinstance(node, dict) and p in node:
                nxt.append([*pre, p])
        out = nxt
    return out


def candidates(sc, lists, simplify):
    """Yield smaller scenarios, biggest cuts first."""
    for spec in lists:
        for path in _expand(sc, spec.split(".")):
            lst = _get(sc, path)
            if not isinstance(lst, list) or not lst:
                continue
            n = len(lst)
            size = n
            while size >= 1:
                for start in range(0, n, size):
                    c = copy.deepcopy(sc)
                    tgt = _get(c, path)
                    del tgt[start : start + size]
                    yield c
                size //= 2
                if n > 64 and size < n // 32:
                    break
    if simplify:
        yield from simplify(sc)


def minimise(pool, prop, sc, signature, budget_s, log):
    t_end = time.monotonic() + budget_s
    lists = getattr(prop, "SHRINK", [])
    simplify = getattr(prop, "simplify", None)
    best, tried = sc, 0
    seen = {jhash(sc)}
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        batch = []
        gen = candidates(best, lists, simplify)
        while time.monotonic() < t_end:
            batch = []
            for c in gen:
                h = jhash(c)
                if h in seen:
                    continue
                seen.add(h)
                batch.append(c)
                if len(batch) >= len(pool.workers):
                    break
            if not batch:
                break
            jobs = [{"id": i, "scenario": c, "timeout": 60} for i, c in enumerate(batch)]
            res = pool.map(jobs)
            tried += len(batch)
            hit = next((i for i in range(len(batch)) if any(sig(v) == signature for v in res.get(i, {}).get("violations", []))), None)
            if hit is not None:
                best = batch[hit]
                progress = True
                break
    log(f"minimised {signature}: {len(json.dumps(sc))} -> {len(json.dumps(best))} bytes, {tried} executions")
    return best, tried


# ---------------------------------------------------------------- main

def load_known(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status") == "known"]


def is_known(v, known):
    return next((k for k in known if re.fullmatch(k["cls"], v["cls"]) and re.fullmatch(k["key"], v["key"]) and re.search(k.get("msg", ""), v["msg"])), None)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "8")))
    ap.add_argument("--no-minimise", action="store_true")
    ap.add_argument("--show", type=int, help="print the scenario and result of one run index")
    ap.add_argument("--max-wall", type=float)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    t_start = time.monotonic()

    def log(msg):
        print(msg, flush=True)

    import importlib

    sys.path[:0] = [ROOT]
    meta = importlib.import_module(f"dst.props.{a.property.lower()}")
    pid = meta.ID
    log(f"property={pid} tier={a.tier} seed={a.seed} repo={REPO}")

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        pool = Pool(pid, 1)
        r = pool.map([{"id": 0, "scenario": rep["scenario"], "timeout": 300}])[0]
        pool.stop()
        if "harness" in r:
            log(r["harness"])
            return 2
        for v in r["violations"]:
            log(f"  {sig(v)}: {v['msg']}")
        log(f"digest={r['digest']} recorded={rep.get('digest')}")
        if any(sig(v) == rep["signature"] for v in r["violations"]):
            log(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        log("not reproduced on this tree")
        return 0

    n_runs = a.runs or (meta.THOROUGH_RUNS if a.tier == "thorough" else meta.QUICK_RUNS)
    max_wall = a.max_wall or (getattr(meta, "THOROUGH_WALL", 3600) if a.tier == "thorough" else 600)
    pool = Pool(pid, min(a.workers, n_runs))
    indices = list(range(a.first, a.first + n_runs)) if a.show is None else [a.show]
    seeds = {i: derive(a.seed, pid, i) % 2**62 for i in indices}
    jobs = [{"id": i, "seed": seeds[i], "tier": a.tier, "want_scenario": (k < 3 or a.show is not None)} for k, i in enumerate(indices)]
    t_search = time.monotonic()
    res = pool.map(jobs, stop=lambda: time.monotonic() - t_start > max_wall)
    t_search = time.monotonic() - t_search

    if a.show is not None:
        r = res[a.show]
        print(json.dumps(r, indent=1, default=str)[:20000])
        pool.stop()
        return 0

    harness = [(i, r["harness"]) for i, r in res.items() if "harness" in r]
    if harness:
        for i, h in harness[:3]:
            log(f"HARNESS ERROR in run {i} (seed {seeds[i]}):\n{h}")
        log(f"{len(harness)} of {len(res)} runs hit harness errors")

    good = {i: r for i, r in res.items() if "harness" not in r}
    known = load_known(pid)
    groups, known_hits = {}, {}
    for i in sorted(good):
        for v in good[i]["violations"]:
            k = is_known(v, known)
            if k:
                known_hits.setdefault(k["id"], []).append((i, v))
            else:
                groups.setdefault(sig(v), []).append((i, v))

    # determinism: a sample of seeds again, on another worker (other PYTHONHASHSEED, other history)
    n_det = min(len(good), max(8, len(good) // 20)) if len(pool.workers) > 1 else 0
    order = sorted(good, key=lambda i: derive(a.seed, "det", i))[:n_det]
    det = pool.map(
        [{"id": i, "seed": seeds[i], "tier": a.tier} for i in order],
        avoid={i: good[i]["worker"] for i in order},
        stop=lambda: time.monotonic() - t_start > max_wall + 60,
    )
    mismatched = [i for i in order if i in det and det[i].get("digest") != good[i]["digest"]]
    if mismatched:
        log(f"NOTE: {len(mismatched)} of {len(det)} repeated runs gave a different event log (seeds {[seeds[i] for i in mismatched[:3]]})")

    rc = 0
    violations = 0
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    for n, (s, hits) in enumerate(sorted(groups.items(), key=lambda kv: -len(kv[1]))):
        i, v = hits[0]
        violations += 1
        rc = 1
        log(f"violation class {s}: {len(hits)} run(s), first seed {seeds[i]}: {v['msg']}")
        if n >= 4:
            continue
        got = pool.map([{"id": 0, "index": i, "seed": seeds[i], "tier": a.tier, "want_scenario": True}])[0]
        sc = got.get("scenario")
        if sc is None:
            continue
        tried = 0
        if not a.no_minimise and time.monotonic() - t_start < max_wall and v["cls"] != "no-progress":
            sc, tried = minimise(pool, meta, sc, s, 40 if a.tier == "quick" else 180, log)
        final = pool.map([{"id": 0, "scenario": sc, "timeout": 200}])[0]
        safe = re.sub(r"[^A-Za-z0-9_.-]", "_", s)[:80]
        rp = os.path.join(ROOT, "replays", f"{pid}-{safe}-{seeds[i]}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "signature": s, "seed": seeds[i], "message": v["msg"], "minimised_with": tried, "digest": final.get("digest"), "violations": final.get("violations"), "scenario": sc}, f, indent=1)
        log(f"VIOLATION property={pid} replay={rp}")
    for k in known:
        hits = known_hits.get(k["id"], [])
        log(f"KNOWN-FINDING: property={pid} {k['what']} [{k['id']}; met in {len(hits)} runs]")
    pool.stop()

    wall = time.monotonic() - t_start
    agg = {"faults": {}, "probes": {}}
    states, digests = set(), set()
    sim_s = 0.0
    nontrivial = 0
    for r in good.values():
        for k in ("faults", "probes"):
            for name, c in r[k].items():
                agg[k][name] = agg[k].get(name, 0) + c
        states.update(r["states"])
        sim_s += r["sim_s"]
        if r["nontrivial"] and r["digest"] not in digests:
            nontrivial += 1
        digests.add(r["digest"])
    samples = [
        {"run": i, "seed": seeds[i], "scenario": json.dumps(r["scenario"], default=str)[:1500], "faults": r["faults"], "events": r["n_events"], "digest": r["digest"]}
        for i, r in sorted(good.items()) if r.get("scenario")
    ][:3]
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": a.seed,
        "level": meta.LEVEL,
        "coverage": {
            "evaluations": len(good),
            "distinct_nontrivial": nontrivial,
            "rule": meta.RULE,
            "samples": samples,
            "runs_per_hour": round(len(good) / max(t_search, 1e-9) * 3600),
            "distinct_event_logs": len(digests),
            "distinct_states": len(states),
            "state_measure": getattr(meta, "STATE_MEASURE", ""),
            "simulated_hours": round(sim_s / 3600, 2),
            "faults_injected": dict(sorted(agg["faults"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "zero_probes": [p for p in getattr(meta, "PROBES", []) if not agg["probes"].get(p) and not agg["faults"].get(p)],
            "determinism_reruns": len(det),
            "determinism_mismatches": len(mismatched),
            "harness_errors": len(harness),
            "planned_runs": n_runs,
            "real_components": meta.REAL,
            "stub_components": meta.STUB,
            "known_findings_met": {k: len(v) for k, v in known_hits.items()},
        },
        "assumptions": getattr(meta, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    log(
        f"{pid}: {len(good)}/{n_runs} runs in {t_search:.1f}s, {nontrivial} distinct non-trivial, {len(states)} states, "
        f"{sum(agg['faults'].values())} faults, {violations} violation class(es), {len(mismatched)} nondeterministic of {len(det)}"
    )
    if a.verbose:
        log(json.dumps(agg, indent=1, sort_keys=True))
    if rc == 0 and (len(harness) > 0 or len(good) < max(1, n_runs // 10)):
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
