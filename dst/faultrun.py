"""One operation of the library under one injected fault, compared with its fault-free execution.

The fault position is a fraction of what the fault-free execution does (file-changing system
calls, reads, opens, or calls of library functions), so every part of a run is equally likely.
"""

import gc
import os
import shutil
import sys
import tempfile

from dst import ops, simos
from dst.core import HarnessError, derive

ERRORS = {"enospc": 1, "short_write_disk_full": 5, "write_eio": 6}
KILLS = {"killed": 3, "torn_write_killed": 4}
READS = {"read_eio": 1, "open_eio": 2, "read_eio_sticky": 3, "open_emfile": 4}
NETCDF = {"netcdf_write_error": 1, "netcdf_read_error": 2}  # HDF5 out of memory, codec failure
PYTHON = ("interrupt", "out_of_memory")


class Countdown:
    """Raises an exception in the n-th call of a library function (asynchronous interrupt, failed allocation)."""

    def __init__(self, at, exc):
        self.at, self.exc, self.n, self.hit = at, exc, 0, False

    def __call__(self, frame, event, arg):
        if event != "call" or "/cloudnetpy/" not in frame.f_code.co_filename or frame.f_code.co_name.startswith("<"):
            return
        if frame.f_code.co_name in ("__exit__", "__del__", "close", "_close"):
            return
        k = self.n
        self.n += 1
        if k == self.at:
            self.hit = True
            sys.setprofile(None)
            raise self.exc("simulated")


def gen_fault(rng, kinds):
    return {"kind": rng.choice(kinds), "frac": round(rng.random(), 6), "part": round(rng.random(), 3), "step": rng.random() < 0.4}


def _tmp(ctx):
    d = ctx.path("tmp", "x")[:-2]
    tempfile.tempdir = d
    os.environ["TMPDIR"] = d
    return d


def _reference(ctx, op, prep, out, moment):
    """Fault-free execution; also counts what can fail."""
    _tmp(ctx)
    ops.at_moment(ctx, moment)
    so = simos.get()
    c = Countdown(-1, None)
    so.arm(0, -1, 0.0, 0, -1, None)
    sys.setprofile(c)
    try:
        o = ctx.attempt(ops.call, ctx, op, prep, out)
    finally:
        sys.setprofile(None)
    counts = {"mutations": so.mutations(), "reads": so.reads(), "opens": so.opens(), "calls": c.n, "nc_puts": so.nc_puts(), "nc_gets": so.nc_gets(), "steps": so.steps()}
    so.disarm()
    return o.kind, str(o.exc or "")[:200], (o.tb or "")[-600:], counts


def reference(ctx, op, prep, out, moment=1):
    """(kind, content or None, counts, message)."""
    code, res = ctx.in_child(_reference, ctx, op, prep, out, moment)
    if res is None or res[0] != "ok":
        raise HarnessError(f"fault-free {ops.label(op)}: exit {code} {res}")
    kind, msg, tb, counts = res[1]
    return {"kind": kind, "content": ops.content(out) if kind == "ok" else None, "counts": counts, "msg": f"{msg}\n{tb}", "exists": os.path.exists(out)}


def _faulted(ctx, op, prep, out, fault, at, moment):
    _tmp(ctx)
    ops.at_moment(ctx, moment)
    so = simos.get()
    kind = fault["kind"] if fault else None
    c = None
    if kind in PYTHON:
        c = Countdown(at, KeyboardInterrupt if kind == "interrupt" else MemoryError)
    w = ERRORS.get(kind) or KILLS.get(kind) or 0
    so.arm(w, at if w else -1, fault["part"] if fault else 0.0, READS.get(kind, 0), at if kind in READS else -1, None, NETCDF.get(kind, 0), at)
    if c:
        sys.setprofile(c)
    try:
        o = ctx.attempt(ops.call, ctx, op, prep, out)
        res = o.kind, str(o.exc or "")[:200], (o.tb or "")[-900:]
    except KeyboardInterrupt:
        res = "KeyboardInterrupt", "", ""
    finally:
        sys.setprofile(None)
    hit = bool(so.fired()) or bool(c and c.hit)
    so.disarm()
    gc.collect()
    return *res, hit, so.open_fds()


def faulted(ctx, op, prep, out, fault, counts, moment=1):
    """Execution under the fault: kind is 'died' if the process ended."""
    at = 0
    if fault:
        k = fault["kind"]
        n = counts["nc_puts" if NETCDF[k] == 1 else "nc_gets"] if k in NETCDF else counts["mutations"] if k in ERRORS or k in KILLS else counts["calls"] if k in PYTHON else counts["opens"] if READS[k] in (2, 4) else counts["reads"]
        at = min(int(fault["frac"] * n), max(n - 1, 0))
        if fault.get("step") and (k in ERRORS or k in KILLS) and counts["steps"]:
            at = counts["steps"][int(fault["frac"] * len(counts["steps"]))]  # around the opening, closing and moving of files
    code, res = ctx.in_child(_faulted, ctx, op, prep, out, fault, at, moment)
    if res is None:
        if fault and fault["kind"] in KILLS:
            ctx.fault(fault["kind"])
            return {"kind": "died", "hit": True, "msg": f"exit {code}", "fds": 0, "at": at}
        if fault and code == -11:
            ctx.fault(f"{fault['kind']}_process_crashed")  # inside HDF5 on a failing disk
            return {"kind": "died", "hit": True, "msg": f"exit {code}", "fds": 0, "at": at}
        raise HarnessError(f"{ops.label(op)} died: {code}")
    if res[0] != "ok":
        raise HarnessError(res[1])
    kind, msg, tb, hit, fds = res[1]
    if fault and hit:
        ctx.fault(fault["kind"])
    return {"kind": kind, "hit": hit, "msg": f"{msg}\n{tb}", "fds": fds, "at": at}


def previous(ctx, op, prep, ref, mode, out):
    """Put a file from an earlier run in the place of the output; returns its bytes or None."""
    if mode is None:
        return None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if mode == "product" and ref["kind"] == "ok":
        src = ctx.path("earlier", os.path.basename(out))
        old = reference(ctx, op, prep, src, 2)
        if old["kind"] != "ok":
            raise HarnessError("the earlier run failed")
        with open(src, "rb") as f:
            blob = f.read()
    else:
        blob = b"earlier output %d" % derive(ctx.sc["seed"], "earlier")
    with open(out, "wb") as f:
        f.write(blob)
    return blob


def reset(ctx, out, before):
    """The state of the folders before the operation."""
    for d in (os.path.dirname(out), ctx.path("tmp", "x")[:-2]):
        for n in os.listdir(d) if os.path.isdir(d) else ():
            q = os.path.join(d, n)
            if os.path.isfile(q):
                os.remove(q)
            else:
                shutil.rmtree(q)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if before is not None:
        with open(out, "wb") as f:
            f.write(before)


def faults_of(sc):
    return sc["faults"] if "faults" in sc else [sc["fault"]]


def listing(*dirs):
    res = []
    for d in dirs:
        for root, _, names in os.walk(d):
            res += [os.path.relpath(os.path.join(root, n), os.path.dirname(d)) for n in names if not n.endswith((".bundle.nc", ".joined.txt"))]  # made by the simulated devices
    return sorted(res)


def setup(ctx, sc):
    """Prepare the operation; returns (op, prep, reference, previous bytes, output path) or None."""
    op = sc["op"]
    if not (op.get("files") or op.get("scene")):
        return None
    prep = ops.prepare(ctx, op, 0)
    if prep.get("no_cat") or not prep["paths"]:
        return None
    ref = reference(ctx, op, prep, ctx.path("ref", "product.nc"))
    out = ctx.path("out", "product.nc")
    before = previous(ctx, op, prep, ref, sc.get("previous"), out)
    ctx.sim_s += 86400
    return op, prep, ref, before, out
