"""C09: a failed or killed run leaves no half product behind."""

import os

from dst import faultrun as fr
from dst import ops

ID = "C09"
LEVEL = "exploration"
RULE = "a run counts when a fault hit the operation (or its data were refused) and its event log is new"
QUICK_RUNS = 450
THOROUGH_RUNS = 40000
REAL = ["all *2nc converters, generate_categorize and products, concatenate_files, bundle_netcdf_files", "output writer", "netCDF4/HDF5"]
STUB = ["instruments and model (scenario-driven writers)", "rpgpy binary reader (RPG cloud radar only)", "disk errors, process kills, interrupts and failed allocations (injected)", "wall clock", "kernel randomness"]
STATE_MEASURE = "operation x fault kind x position (tenths) x earlier file x outcome"
PROBES = ["failed", "died", "completed", "refused", "earlier_product_kept"]
SHRINK = ["faults", "op.files", "op.files.*.recs"]
KINDS = [*fr.ERRORS, *fr.KILLS, *fr.KILLS, *fr.NETCDF, *fr.PYTHON, *fr.PYTHON, "read_eio", "open_eio", "open_emfile"]
warmup = ops.warmup


def gen(rng, tier):
    return {"op": ops.gen_op(rng, tier, (0.66, 0.22, 0.12)), "previous": rng.choice([None, "product", "product", "other"]), "faults": [fr.gen_fault(rng, KINDS) for _ in range(4)]}


def run(ctx, sc):
    got = fr.setup(ctx, sc)
    if got is None:
        return
    op, prep, ref, before, out = got
    for k, fault in enumerate(fr.faults_of(sc)):
        if k:
            fr.reset(ctx, out, before)
        judge(ctx, sc, fault, op, prep, ref, before, out)
        if ctx.violations:
            return


def judge(ctx, sc, fault, op, prep, ref, before, out):
    name = ops.label(op)
    res = fr.faulted(ctx, op, prep, out, fault, ref["counts"])
    kind = fault["kind"]
    ctx.log(name, ref["kind"], kind, res["at"], res["kind"], before is not None)
    ctx.state(name, kind, int(10 * fault["frac"]), sc["previous"], res["kind"])
    if ref["kind"] != "ok":
        ctx.fault("refused_data")
        ctx.probe("refused")
    if res["kind"] == "ok":
        ctx.probe("completed")
        return
    ctx.probe("died" if res["kind"] == "died" else "failed")
    what = f"{name}, {kind} at operation {res['at']} of {ref['counts']}: {res['kind']} {res['msg'][:300]}"
    if not os.path.exists(out):
        if before is not None:
            ctx.violate("earlier-product-lost", f"{name}:{kind}", f"the earlier file is gone after a failed run: {what}")
        return
    with open(out, "rb") as f:
        now = f.read()
    if before is not None and now == before:
        ctx.probe("earlier_product_kept")
        return
    if ref["content"] is not None:
        try:
            full = ops.content(out)
        except Exception as e:  # noqa: BLE001
            full = None
            what += f" ({e})"
        if full is not None and ops.first_difference(ref["content"], full) is None:
            ctx.probe("complete_nevertheless")
            return
    ctx.violate("half-product", f"{name}:{kind}", f"a file of {len(now)} bytes that is neither the earlier nor the complete product is left: {what}")


def simplify(sc):
    import copy

    if sc["previous"]:
        yield {**copy.deepcopy(sc), "previous": None}
