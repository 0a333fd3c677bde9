"""C13: failed, killed and repeated runs of the command line tool do no damage and converge."""

import copy
import os
import shutil

from dst import ops, portal
from dst.core import HarnessError
from dst.props import c12

ID = "C13"
LEVEL = "exploration"
RULE = "a run counts when a fault was injected and its event log is new"
QUICK_RUNS = 200
THOROUGH_RUNS = 8000
REAL = c12.REAL
STUB = [*c12.STUB, "disk errors, process kill, network failures, interrupts and failed allocations (injected)"]
STATE_MEASURE = "sequence of (fault kind, position in tenths, outcome, files present) of a history"
PROBES = ["converged", "failed", "died", "succeeded", "inputs_checked", "raw_product_checked"]
SHRINK = ["steps", "world.raw", "world.l1", "world.raw.*.files", "world.raw.*.files.*.recs", "changes"]
warmup = c12.warmup

NET = ["fail", "down", "once", "killed"]
DISK = {"enospc": 1, "short_write_disk_full": 5, "write_eio": 6, "killed": 3, "torn_write_killed": 4}
KINDS = [*(f"net_{k}" for k in NET), *(f"disk_{k}" for k in DISK), "interrupt", "out_of_memory"]


def gen(rng, tier):
    world = portal.gen_world(rng, tier, min_raw=1)
    run = c12.gen_run(rng, world)
    run["dl"] = False
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        fault = {"kind": rng.choice(KINDS), "frac": round(rng.random(), 6), "part": round(rng.random(), 3)} if rng.random() < 0.85 else None
        steps.append({"fault": fault, "force": rng.random() < 0.4, "sched": rng.randrange(2**40)})
    steps.append({"fault": None, "force": rng.random() < 0.3, "sched": rng.randrange(2**40)})
    changes = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            at = rng.randrange(1, len(steps))
            r = rng.random()
            if world["raw"] and r < 0.75:
                k = rng.randrange(len(world["raw"]))
                fs = world["raw"][k]["files"]
                i = rng.randrange(len(fs))
                kind = rng.choice(["add", "invalidate"]) if len(fs) > 1 else "grow"
                changes.append({"kind": kind, "at": at, "k": k, "i": i, "keep": rng.randrange(1, max(2, len(fs[i]["recs"])))})
            elif world["l1"]:
                changes.append({"kind": "product", "at": at, "k": rng.randrange(len(world["l1"]))})
    changes = list({(c["kind"] == "product", c["k"], c.get("i")): c for c in changes}.values())  # one change of a file
    return {"world": world, "run": run, "steps": steps, "changes": changes}


def apply_initial(ctx, world, sc):
    """Turn the final portal content into that of the first run."""
    devs = ops.usable()
    later = []
    for c in sc["changes"]:
        if c["kind"] == "product":
            e = sc["world"]["l1"][c["k"] % len(sc["world"]["l1"])]
            fs = [f for f in world["products"] if f.get("instrument") and f["instrument"][1] == e["n"]]
            for f in fs:
                old = other_uuid(ctx, world["blobs"][f["blob"]])
                key = f["blob"] + "-old"
                world["blobs"][key] = old
                later.append((c["at"], f, {"blob": f["blob"]}))
                f["blob"] = key
            continue
        if not sc["world"]["raw"]:
            continue
        k = c["k"] % len(sc["world"]["raw"])
        r = sc["world"]["raw"][k]
        i = c["i"] % len(r["files"])
        fs = [f for f in world["raw"] if f["k"] == k and f["i"] == i]
        if c["kind"] == "invalidate":
            later += [(c["at"], f, {"status": "invalid"}) for f in fs]
        elif c["kind"] == "add":
            for f in fs:
                f["status"] = "created"
            later += [(c["at"], f, {"status": "uploaded"}) for f in fs]
        else:
            dev = devs[r["device"]]
            if hasattr(dev, "configure"):
                dev.configure(r["opts"])
            recs = r["files"][i]["recs"]
            part = recs[: max(1, min(c["keep"], len(recs) - 1))]
            if len(recs) < 2:
                continue
            d = ctx.path("early", f"{k}_{i}", "x")[:-2]
            blobs = dict(portal.raw_blobs(ctx, dev, r, i, {**r["files"][i], "recs": part}, d))
            shutil.rmtree(d)
            for f in fs:
                name = f["name"][:-3] if r["gz"] else f["name"]
                if name not in blobs:
                    continue
                blob = blobs[name]
                if r["gz"]:
                    import gzip

                    blob = gzip.compress(blob, mtime=0)
                if len(blob) == len(world["blobs"][f["blob"]]):
                    continue
                key = f["blob"] + "-early"
                world["blobs"][key] = blob
                later.append((c["at"], f, {"blob": f["blob"]}))
                f["blob"] = key
    return later


def other_uuid(ctx, blob):
    """The same product as an earlier version."""
    import netCDF4

    p = ctx.path("early", "p.nc")
    with open(p, "wb") as f:
        f.write(blob)
    with netCDF4.Dataset(p, "r+") as nc:
        nc.file_uuid = nc.file_uuid[:-1] + ("0" if nc.file_uuid[-1] != "0" else "1")
    with open(p, "rb") as f:
        res = f.read()
    os.unlink(p)
    return res


def is_litter(n):
    b = os.path.basename(n)
    return b.endswith((".part", ".tmp")) or b.startswith(".")


def run(ctx, sc):
    world = portal.build_world(ctx, sc["world"], sc["seed"])
    later = apply_initial(ctx, world, sc)
    devs = ops.usable()
    versions = {}
    for f in [*world["raw"], *world["products"]]:
        versions.setdefault(f["name"], set()).add(world["blobs"][f["blob"]])
    for _, f, new in later:
        if "blob" in new:
            versions[f["name"]].add(world["blobs"][new["blob"]])
    main, ref, fresh = (ctx.path(x, "x")[:-2] for x in ("main", "ref", "fresh"))
    os.makedirs(main, exist_ok=True)
    product_changed = False
    last = len(sc["steps"]) - 1
    for k, st in enumerate(sc["steps"]):
        for at, f, new in later:
            if min(at, last) == k:
                f.update(new)
                product_changed |= f["kind"] == "product"
                ctx.probe("portal_changed")
        force = st["force"] or (k == last and product_changed)
        r = {**sc["run"], "force": force, "count": True}
        before = {n: c12.look_raw(p) for n, p in c12.tree(main).items()}
        shutil.rmtree(ref, ignore_errors=True)
        shutil.copytree(main, ref)
        a = c12.call(ctx, world, r, ref, None, k)
        r.pop("count")
        net = disk = None
        if st["fault"]:
            net, disk = place_fault(st["fault"], a["counts"])
        b = c12.call(ctx, world, r, main, st["sched"], k, net, disk)
        kind = st["fault"]["kind"] if st["fault"] else "none"
        if kind != "none" and b["hit"]:
            ctx.fault(kind)
        if b["kind"] == "died" and "killed" not in kind:
            if b["code"] == -11:
                ctx.probe("process_killed_by_disk_error")
                return
            raise HarnessError(f"cli died: {b}")
        ctx.log("step", k, kind, a["kind"], b["kind"], b["switches"])
        ctx.state(k, kind, int(10 * (st["fault"] or {"frac": 0})["frac"]), b["kind"], sorted(before), force)
        ctx.probe("died" if b["kind"] == "died" else "succeeded" if b["kind"] == "ok" else "failed")
        ctx.sim_s += 3600
        if not intact(ctx, world, sc, k, r, kind, a, b, before, main, ref, versions):
            return
        if k == last:
            shutil.rmtree(fresh, ignore_errors=True)
            c = c12.call(ctx, world, r, fresh, None, k)
            if not converged(ctx, sc, k, r, b, c, main, fresh):
                return
            known = set(before)
            c12.judge(ctx, world, r, k, b, main, known, devs, sc)


def place_fault(fault, counts):
    kind = fault["kind"]
    at = lambda n: min(int(fault["frac"] * n), max(n - 1, 0))  # noqa: E731
    if kind.startswith("net_"):
        return {"kind": kind[4:], "at": at(counts["steps"])}, None
    if kind.startswith("disk_"):
        return None, {"kind": kind[5:], "w": DISK[kind[5:]], "at": at(counts["mutations"]), "part": fault["part"]}
    return None, {"kind": kind, "at": at(counts["calls"])}


def intact(ctx, world, sc, k, r, kind, a, b, before, main, ref, versions):
    """Nothing complete was lost, nothing incomplete is in a place where it would be used."""
    now, want = c12.tree(main), c12.tree(ref)
    forced = "forced" if r["force"] else "normal"
    for n in before:
        if n not in now and not is_litter(n):
            ctx.violate("lost-file", f"{kind_of(n)}:{kind}:{forced}", f"step {k} ({kind}, force={r['force']}): {n} existed before the run and is gone ({b['kind']})")
            return False
    for n, p in sorted(now.items()):
        if is_litter(n):
            if n in before or b["kind"] == "died" or kind in ("interrupt", "disk_write_eio"):  # removing files fails as well
                continue
            ctx.violate("litter", f"{kind_of(n)}:{kind}", f"step {k} ({kind}): {n} was left behind by a run that ended with {b['kind']}")
            return False
        blob = c12.look_raw(p)
        if before.get(n) == blob:
            continue
        if blob in versions.get(os.path.basename(n), ()):
            continue
        if n.startswith("input") and os.path.basename(n) + ".gz" in versions:
            if b["kind"] == "ok" and n in want and c12.look_raw(want[n]) != blob:
                ctx.violate("broken-file", f"decompressed:{kind}", f"step {k} ({kind}): {n} differs from the decompressed raw file although the run succeeded")
                return False
            continue  # decompressed anew by every run
        if n in want:
            d = c12.differs(c12.look(want[n]), c12.look(p))
            if d is None:
                continue
            ctx.violate("broken-file", f"{kind_of(n)}:{kind}", f"step {k} ({kind}, run ended with {b['kind']}): {n} is neither the earlier file, nor a file of the portal, nor the new product: {d}")
            return False
        ctx.violate("broken-file", f"{kind_of(n)}:{kind}", f"step {k} ({kind}, run ended with {b['kind']}): {n} is not a file that a complete run makes (undisturbed run: {a['kind']} {a['msg'][:300]}, this run: {b['msg']}); undisturbed files {sorted(want)}")
        return False
    if b["kind"] == "ok" and a["kind"] == "ok":
        missing = [n for n in want if n not in now and not is_litter(n)]
        if missing:
            ctx.violate("false-success", f"{kind_of(missing[0])}:{kind}", f"step {k} ({kind}): the run reported success but did not make {missing}")
            return False
        for n in sorted(want):
            if is_litter(n) or n not in now:
                continue
            d = c12.differs(c12.look(want[n]), c12.look(now[n]))
            if d:
                ctx.violate("false-success", f"{kind_of(n)}:{kind}", f"step {k} ({kind}): the run reported success but {n} differs from that of an undisturbed run: {d}")
                return False
    if b["kind"] == "ok" and a["kind"] != "ok":
        ctx.violate("false-success", f"{a['kind']}:{kind}", f"step {k} ({kind}): the run reported success although the undisturbed run fails: {a['msg']}")
        return False
    return True


def converged(ctx, sc, k, r, b, c, main, fresh):
    """The last run has no faults: it must end as a run in empty folders does."""
    kinds = "+".join(sorted({s["fault"]["kind"] for s in sc["steps"] if s["fault"]})) or "none"
    ch = "+".join(sorted({x["kind"] for x in sc["changes"]})) or "none"
    if b["kind"] != c["kind"]:
        ctx.violate("no-convergence", f"outcome:{b['kind']}-{c['kind']}:{ch}", f"after {kinds} (portal changes {ch}) a run without faults ends with {b['kind']} ({b['msg']}), in empty folders with {c['kind']} ({c['msg']})")
        return False
    if b["kind"] != "ok":
        return True
    now, want = c12.tree(main), c12.tree(fresh)
    for n in sorted(want):
        if n not in now:
            ctx.violate("no-convergence", f"missing:{kind_of(n)}", f"after {kinds} a run without faults does not make {n}")
            return False
        d = c12.differs(c12.look(want[n]), c12.look(now[n]))
        if d:
            ctx.violate("no-convergence", f"{kind_of(n)}:{ch}", f"after {kinds} (portal changes {ch}) a run without faults (force={r['force']}) makes {n} different from that made in empty folders: {d}")
            return False
    ctx.probe("converged")
    return True


def kind_of(n):
    top = n.split(os.sep)[0]
    if top == "input":
        return "raw"
    return c12.kind_of(n)
