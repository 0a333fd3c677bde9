"""Run harness: one scenario = one forked, fully simulated execution.

A scenario is plain JSON.  It is generated from one integer seed and then
executed by the property module; nothing else decides anything, so the same
scenario always gives the same event log, and a scenario file is a replay file.
"""

import contextlib
import hashlib
import importlib
import json
import logging
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import warnings

from dst import simos

FILLS = (None, 0x01, 0x41, 0xC1, 0x7F)  # small number / True, 2.3e6, -2.3e6, 1e306
SIM_EPOCH = 1_735_689_600 + 86_400 * 40  # 2025-02-10T00:00:00Z


def derive(seed: int, *names) -> int:
    h = hashlib.sha256(repr((seed, *names)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def jhash(obj) -> str:
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def scratch_root() -> str:
    for base in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize > 2 * 10**9:
                return base
    return tempfile.gettempdir()


class HarnessError(Exception):
    """The simulator itself is broken or was used wrongly (never a finding)."""


class Outcome:
    """Result of calling the code under test."""

    def __init__(self, ok, value=None, exc=None, tb=None):
        self.ok, self.value, self.exc, self.tb = ok, value, exc, tb

    @property
    def kind(self):
        return "ok" if self.ok else type(self.exc).__name__

    def __repr__(self):
        return "ok" if self.ok else f"{type(self.exc).__name__}: {str(self.exc)[:160]}"


class Ctx:
    def __init__(self, scenario, directory):
        self.sc = scenario
        self.dir = directory
        self.os = simos.get()
        self.events = []
        self.violations = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.sim_s = 0.0
        self.nontrivial = False

    # -- recording (never draws randomness, never reads a clock) --
    def log(self, *ev):
        self.events.append(ev)

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n
            self.nontrivial = True

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(jhash(key))

    def violate(self, cls, key, msg):
        self.log("VIOLATION", cls, key)
        self.violations.append({"cls": cls, "key": key, "msg": str(msg)[:1500]})

    # -- calling the code under test --
    def attempt(self, fn, *args, **kwargs):
        try:
            return Outcome(True, fn(*args, **kwargs))
        except (Exception, SystemExit) as e:  # noqa: BLE001
            tb = traceback.format_exc()
            e.__traceback__ = None
            return Outcome(False, exc=e, tb=tb)

    def in_child(self, fn, *args):
        """Run fn in a forked process; returns (exit code, value or None)."""
        return fork_call(fn, args, timeout=200)

    def part(self, fn, *args):
        """Run fn(ctx, ...) in a forked process and take over what it recorded; returns the exit code (0: complete)."""

        def child():
            fn(self, *args)
            return self.events, self.violations, self.faults, self.probes, self.states, self.sim_s, self.nontrivial

        code, res = fork_call(child, (), timeout=140)
        if res is None:
            return code
        if res[0] != "ok":
            raise HarnessError(res[1])
        self.events, self.violations, self.faults, self.probes, self.states, self.sim_s, self.nontrivial = res[1]
        return 0

    def path(self, *parts):
        p = os.path.join(self.dir, *parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def digest(self):
        return hashlib.sha256(json.dumps(self.events, default=str).encode()).hexdigest()[:24]


def fork_call(fn, args, timeout):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            try:
                res = ("ok", fn(*args))
            except HarnessError as e:
                res = ("harness", f"{e}\n{traceback.format_exc()}")
            except Exception:  # noqa: BLE001
                res = ("harness", traceback.format_exc())
            try:
                blob = pickle.dumps(res)
            except Exception:  # noqa: BLE001
                blob = pickle.dumps(("harness", f"unpicklable result {res!r}"[:2000]))
            simos.get().disarm()
            data = struct.pack(">Q", len(blob)) + blob
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # noqa: BLE001
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if timed_out:
        with contextlib.suppress(ProcessLookupError):
            os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if timed_out:
        return "timeout", None
    if len(buf) >= 8:
        (n,) = struct.unpack(">Q", buf[:8])
        if len(buf) == 8 + n:
            return code, pickle.loads(buf[8:])
    return code, None


def _quiet():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    os.dup2(devnull, 0)
    import numpy as np

    np.seterr(all="ignore")


def execute(prop, scenario, directory):
    """Runs in the forked child."""
    _quiet()
    seed = int(scenario["seed"])
    random.seed(seed)
    import numpy as np

    np.random.seed(seed % 2**32)
    ctx = Ctx(scenario, directory)
    so = ctx.os
    so.prefix(directory)
    so.clock(SIM_EPOCH + derive(seed, "clock") % 86_400)
    so.random(derive(seed, "uuid"))
    so.listing(0)
    # neither the host's time zone nor the content of uninitialised memory may matter
    zone = ["UTC0", "UTC0", "EST5", "IST-5:30", "NZST-12", "HST10"][derive(seed, "tz") % 6]
    os.environ["TZ"] = zone
    time.tzset()
    fill = FILLS[derive(seed, "memory") % len(FILLS)]
    so.memory(fill)
    ctx.memory = fill
    ctx.faults = {k: 1 for k, on in (("host_time_zone", zone != "UTC0"), ("uninitialised_memory", fill is not None)) if on}
    os.chdir(directory)
    prop.run(ctx, scenario)
    so.disarm()
    so.clock(None)
    return {
        "violations": ctx.violations,
        "faults": ctx.faults,
        "probes": ctx.probes,
        "states": sorted(ctx.states),
        "sim_s": ctx.sim_s,
        "nontrivial": ctx.nontrivial,
        "digest": ctx.digest(),
        "n_events": len(ctx.events),
        "events": ctx.events if scenario.get("_keep_events") else None,
    }


def run_scenario(prop, scenario, timeout=150):
    """Fork, execute, clean up. Returns a result dict."""
    directory = tempfile.mkdtemp(prefix="dst-run-", dir=scratch_root())
    try:
        status, res = fork_call(execute, (prop, scenario, directory), timeout)
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    if status == "timeout":
        return {
            "violations": [{"cls": "no-progress", "key": "run", "msg": f"run did not finish within {timeout} s"}],
            "faults": {}, "probes": {}, "states": [], "sim_s": 0.0, "nontrivial": True, "digest": "timeout", "n_events": 0, "timeout": True,
        }
    if res is None:
        return {"harness": f"run died, exit status {status}"}
    if res[0] == "harness":
        return {"harness": res[1]}
    return res[1]


def load_prop(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}")


class Rng(random.Random):
    """Seeded generator; `cycle` spreads the runs of one search evenly over a list."""

    index = 0

    def cycle(self, seq):
        return seq[self.index % len(seq)]


def gen_scenario(prop, seed, tier, index=0):
    rng = Rng(derive(seed, prop.ID))
    rng.index = index
    sc = prop.gen(rng, tier)
    sc["seed"] = seed
    sc["property"] = prop.ID
    return json.loads(json.dumps(sc))


def worker_main(pid):
    prop = load_prop(pid)
    if hasattr(prop, "warmup"):
        prop.warmup()
    out = os.fdopen(os.dup(1), "w")
    _quiet()
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    inp = os.fdopen(int(os.environ["DST_IN_FD"]), "r")
    for line in inp:
        job = json.loads(line)
        try:
            sc = job.get("scenario") or gen_scenario(prop, job["seed"], job["tier"], job.get("index", job["id"]))
            t0 = time.monotonic()
            res = run_scenario(prop, sc, timeout=job.get("timeout", 150))
            res["wall"] = time.monotonic() - t0
            if job.get("want_scenario"):
                res["scenario"] = sc
        except Exception:  # noqa: BLE001
            res = {"harness": traceback.format_exc()}
        res["job"] = job["id"]
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    worker_main(sys.argv[1])
