"""C10: a run that reports success has written the complete product."""

import os

from dst import faultrun as fr
from dst import ops

ID = "C10"
LEVEL = "exploration"
RULE = "a run counts when a fault hit the operation and its event log is new"
QUICK_RUNS = 500
THOROUGH_RUNS = 40000
REAL = ["all *2nc converters, generate_categorize and products, concatenate_files, bundle_netcdf_files", "output writer", "netCDF4/HDF5"]
STUB = ["instruments and model (scenario-driven writers)", "rpgpy binary reader (RPG cloud radar only)", "disk errors, failed reads, interrupts and failed allocations (injected)", "wall clock", "kernel randomness"]
STATE_MEASURE = "operation x fault kind x position (tenths) x outcome"
PROBES = ["failed", "succeeded", "succeeded_despite_fault"]
SHRINK = ["faults", "op.files", "op.files.*.recs"]
KINDS = [*fr.ERRORS, *fr.ERRORS, *fr.NETCDF, *fr.NETCDF, *fr.PYTHON, *fr.READS, *fr.READS]
warmup = ops.warmup


def gen(rng, tier):
    return {"op": ops.gen_op(rng, tier, (0.66, 0.22, 0.12)), "previous": rng.choice([None, None, "product"]), "faults": [fr.gen_fault(rng, KINDS) for _ in range(4)]}


def run(ctx, sc):
    got = fr.setup(ctx, sc)
    if got is None:
        return
    op, prep, ref, before, out = got
    if ref["kind"] != "ok":
        return
    for k, fault in enumerate(fr.faults_of(sc)):
        if k:
            fr.reset(ctx, out, before)
        judge(ctx, sc, fault, op, prep, ref, before, out)
        if ctx.violations:
            return


def judge(ctx, sc, fault, op, prep, ref, before, out):
    name = ops.label(op)
    kind = fault["kind"]
    res = fr.faulted(ctx, op, prep, out, fault, ref["counts"])
    ctx.log(name, kind, res["at"], res["kind"])
    ctx.state(name, kind, int(10 * fault["frac"]), res["kind"])
    if res["kind"] != "ok":
        ctx.probe("failed")
        return
    ctx.probe("succeeded")
    if res["hit"]:
        ctx.probe("succeeded_despite_fault")
    if kind in (*fr.READS, "netcdf_read_error") and res["hit"] and may_skip(op, prep):
        return  # an unreadable file of several is skipped, see C04 and C05
    what = f"{name}, {kind} at operation {res['at']} of {ref['counts']}, reported success"
    if not os.path.exists(out):
        ctx.violate("no-product", f"{name}:{kind}", f"{what}, but there is no output file")
        return
    try:
        full = ops.content(out)
    except Exception as e:  # noqa: BLE001
        ctx.violate("unreadable-product", f"{name}:{kind}", f"{what}, but the output is unreadable: {e}")
        return
    d = ops.first_difference(ref["content"], full)
    if d:
        ctx.violate("incomplete-product", f"{name}:{kind}", f"{what}, but fault-free / faulted: {d[1]}")


def may_skip(op, prep):
    return op["op"] not in ("chain", "l3", "epsilon") and len(prep["paths"]) > 1
