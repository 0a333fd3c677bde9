"""C11: inputs stay untouched and nothing but the product is left behind."""

import os

from dst import faultrun as fr
from dst import ops

ID = "C11"
LEVEL = "exploration"
RULE = "a run counts when a fault or refused data was injected and its event log is new"
QUICK_RUNS = 450
THOROUGH_RUNS = 40000
REAL = ["all *2nc converters, generate_categorize and products, concatenate_files, bundle_netcdf_files", "output writer", "netCDF4/HDF5"]
STUB = ["instruments and model (scenario-driven writers)", "rpgpy binary reader (RPG cloud radar only)", "disk errors, failed reads, interrupts and failed allocations (injected)", "wall clock", "kernel randomness"]
STATE_MEASURE = "operation x fault kind x position (tenths) x outcome"
PROBES = ["succeeded", "failed", "refused"]
SHRINK = ["faults", "op.files", "op.files.*.recs"]
KINDS = ["enospc", "short_write_disk_full", *fr.NETCDF, *fr.PYTHON, *fr.PYTHON, *fr.READS]
warmup = ops.warmup


def gen(rng, tier):
    return {
        "op": ops.gen_op(rng, tier, (0.66, 0.22, 0.12)),
        "previous": rng.choice([None, None, "product"]),
        "faults": [fr.gen_fault(rng, KINDS) if rng.random() < 0.7 else None for _ in range(3)],
    }


def run(ctx, sc):
    got = fr.setup(ctx, sc)
    if got is None:
        return
    op, prep, ref, before, out = got
    inputs = ops.digest_dir(prep["dir"])
    for k, fault in enumerate(fr.faults_of(sc)):
        if k:
            fr.reset(ctx, out, before)
        judge(ctx, sc, fault, op, prep, ref, before, out, inputs)
        if ctx.violations:
            return


def judge(ctx, sc, fault, op, prep, ref, before, out, inputs):
    name = ops.label(op)
    kind = fault["kind"] if fault else "none"
    tmp, outdir = ctx.path("tmp", "x")[:-2], os.path.dirname(out)
    ctx_tmp_before = fr.listing(tmp)
    res = fr.faulted(ctx, op, prep, out, fault, ref["counts"])
    ctx.log(name, kind, res["at"], res["kind"])
    ctx.state(name, kind, int(10 * fault["frac"]) if fault else -1, res["kind"])
    if ref["kind"] != "ok":
        ctx.fault("refused_data")
        ctx.probe("refused")
    what = f"{name}, {kind} at operation {res['at']} of {ref['counts']}: {res['kind']}"
    after = ops.digest_dir(prep["dir"])
    if after != inputs:
        changed = sorted({k for k in {*after, *inputs} if after.get(k) != inputs.get(k)})
        ctx.violate("input-changed", f"{name}:{kind}", f"inputs {changed[:5]} changed: {what}")
    if res["kind"] == "died":
        return
    ctx.probe("succeeded" if res["kind"] == "ok" else "failed")
    allowed = {"out/product.nc"} if res["kind"] == "ok" or before is not None else set()
    left = [x for x in fr.listing(outdir) if x not in allowed and x != "out/product.nc"] + [x for x in fr.listing(tmp) if x not in ctx_tmp_before]
    if left:
        ctx.violate("leftover", f"{name}:{kind}", f"files left behind {left[:5]}: {what}")
    # the netCDF library itself loses a descriptor when a read or write fails inside it
    if res["fds"] and kind not in fr.ERRORS and not kind.startswith("read_eio"):
        ctx.violate("open-files", f"{name}:{kind}", f"{res['fds']} files are still open: {what}")
