"""C08: the result of a conversion does not depend on what the process did before."""

import copy
import os
import shutil

from dst import ops, simos
from dst.core import HarnessError

ID = "C08"
LEVEL = "exploration"
RULE = "a run counts when at least two operations ran in one process and its event log is new"
QUICK_RUNS = 400
THOROUGH_RUNS = 30000
REAL = ["all *2nc converters, generate_categorize and products, concat_lib", "netCDF4/HDF5 (one library instance per process)", "output writer"]
STUB = ["instruments and model (scenario-driven writers)", "rpgpy binary reader (RPG cloud radar only)", "wall clock and kernel randomness (reset to the same values before each operation)"]
STATE_MEASURE = "sequence of (operation, outcome) pairs with the injected failures"
PROBES = ["compared", "after_failure", "same_output_again", "disk_full", "refused"]
SHRINK = ["ops", "ops.*.files", "ops.*.files.*.recs"]
warmup = ops.warmup


FOCUS = {None: ops.gen_op, "site": ops.gen_chain, "l3": ops.gen_l3, "epsilon": ops.gen_epsilon}


def gen(rng, tier):
    n = rng.choice([2, 2, 3, 3, 4, 5])
    seq = []
    focus = rng.choice([None, None, None, "same_device", "same_device", "site", "l3", "epsilon"])
    name = rng.choice(sorted(ops.usable()))
    for i in range(n):
        r = rng.random()
        if seq and r < 0.2:
            seq.append({"op": "again", "of": rng.randrange(len(seq)), "same_out": rng.random() < 0.6, "grow": rng.random() < 0.5})
            continue
        op = ops.gen_device(rng, tier, name) if focus == "same_device" else FOCUS[focus](rng, tier)
        if rng.random() < 0.15:
            op["disk"] = {"kind": rng.choice([1, 5, 6]), "at": rng.randrange(0, 40)}
        seq.append(op)
    return {"ops": seq}


def _one(ctx, op, prep, out, k):
    return ops.execute(ctx, op, prep, out, k)


def resolve(seq):
    """(operation, index of its inputs, index of its output) for each step."""
    res = []
    for k, op in enumerate(seq):
        if op["op"] == "again":
            if not res:
                continue
            o, src, out, _ = res[op["of"] % len(res)]
            o = {x: y for x, y in o.items() if x != "disk"}
            if op.get("grow"):
                # the same files are delivered again with other content
                o = {**copy.deepcopy(o), "salt": k + 1}
                o.pop("junk", None)
                for f in o.get("files", []):
                    for r in f["recs"]:
                        r["id"] += 7000 * (k + 1)
                src = (src[0], k)
            res.append((o, src, out if op["same_out"] else k, True))
        else:
            res.append((op, (k, k), k, False))
    return res


def run(ctx, sc):
    seq = resolve([o for o in sc["ops"] if o["op"] == "again" or o.get("files", o.get("scene"))])
    if not seq:
        return
    preps = {}
    for op, src, _, _ in seq:
        if src not in preps:
            install(ctx, src[0], None)
            preps[src] = ops.prepare(ctx, op, src[0])
            shutil.copytree(preps[src]["dir"], ctx.path("snapshots", f"{src[0]}-{src[1]}"))
    # every operation alone in a pristine process
    alone = []
    ctx.os.memory(None)
    for k, (op, src, out, _) in enumerate(seq):
        install(ctx, *src)
        code, res = ctx.in_child(_one, ctx, op, preps[src], ctx.path("alone", f"{k}", f"{out}.nc"), src[1])
        if res is None or res[0] != "ok":
            raise HarnessError(f"operation {ops.label(op)} alone: exit {code} {res}")
        alone.append(res[1])
    # the same operations one after the other in one process
    ctx.os.memory(0x41 if ctx.memory is None else ctx.memory)
    marker = ctx.path("armed")
    code = ctx.part(sequence, seq, preps, alone, marker)
    if code != 0:
        ctx.log("sequence died", str(code), os.path.exists(marker))
        if os.path.exists(marker):
            # HDF5 may crash on a failing disk; nothing runs after that
            ctx.fault("process_killed_by_disk_error")
        else:
            ctx.violate("died", "sequence", f"the process died (exit {code}) while running {[ops.label(o[0]) for o in seq]}")
        return
    ctx.sim_s += 86400 * len(seq)


def install(ctx, base, version):
    """Put one version of the inputs of operation `base` in its place."""
    work = ctx.path(f"op{base}", "raw")
    shutil.rmtree(work, ignore_errors=True)
    if version is not None:
        shutil.copytree(ctx.path("snapshots", f"{base}-{version}"), work)


def sequence(ctx, seq, preps, alone, marker):
    failed = False
    seen = []
    for k, (op, src, out, again) in enumerate(seq):
        path = ctx.path("seq", f"{out}.nc")
        name = ops.label(op)
        install(ctx, *src)
        inputs = ops.digest_dir(preps[src]["dir"])
        if op.get("disk"):
            ops.at_moment(ctx, 100 + k)
            so = simos.get()
            open(marker, "w").close()
            so.arm(op["disk"]["kind"], op["disk"]["at"], 50, 0, -1, None)
            o = ctx.attempt(ops.call, ctx, op, preps[src], path) if not preps[src].get("no_cat") else None
            hit = so.fired()
            so.disarm()
            os.unlink(marker)
            ctx.log("disk", k, name, o.kind if o else None, hit)
            if hit:
                ctx.fault({1: "disk_full", 5: "short_write_disk_full", 6: "write_eio"}[op["disk"]["kind"]])
                failed = True
            # then the same again on a healthy disk
        got = ops.execute(ctx, op, preps[src], path, src[1])
        want = alone[k]
        ctx.log("op", k, name, got["kind"])
        seen.append((name, got["kind"]))
        if again:
            ctx.fault("repeated_operation")
            if out != k:
                ctx.probe("same_output_again")
            if src[0] != src[1]:
                ctx.fault("inputs_replaced")
        if k:
            ctx.fault("earlier_operations")
        if failed:
            ctx.probe("after_failure")
        if want["kind"] != "ok":
            ctx.probe("refused")
        before = [s[0] for s in seen[:-1]]
        if got["kind"] != want["kind"]:
            ctx.violate("other-outcome", f"{name}:{want['kind']}:{got['kind']}", f"{name} alone: {want['kind']} {want.get('msg', '')}; after {before}{' and a disk error' if failed else ''}: {got['kind']} {got.get('msg', '')}\n{got.get('tb', '')}")
            return
        if got["kind"] == "ok" and got["content"] is not None:
            ctx.probe("compared")
            d = ops.first_difference(want["content"], got["content"])
            if d:
                ctx.violate("other-content", f"{name}:{d[0]}", f"{name} after {before}: alone / in sequence: {d[1]}")
                return
        elif got["kind"] != "ok":
            failed = True
        if ops.digest_dir(preps[src]["dir"]) != inputs:
            ctx.violate("input-changed", name, "input files changed")
            return
    ctx.state(seen, [bool(o[0].get("disk")) for o in seq])
