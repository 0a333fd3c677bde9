"""C01: text-logger records keep their own timestamp and values."""

import os

from dst import attribution as at
from dst.devices.registry import devices

ID = "C01"
LEVEL = "exploration"
RULE = "a run counts when at least one record, clock or delivery fault was injected and its event log is new"
QUICK_RUNS = 6000
THOROUGH_RUNS = 60000
REAL = ["cloudnetpy raw readers and *2nc converters, disdronator, CloudnetArray, output writer, netCDF4/HDF5"]
STUB = ["data loggers (scenario-driven writers)", "wall clock", "kernel randomness"]
STATE_MEASURE = "device x number of files x per-record fault kinds x timestamp order pattern"
SHRINK = ["files", "files.*.recs"]
GROUPS = ("ws", "gauge", "disdro")


def warmup():
    import cloudnetpy.instruments  # noqa: F401


def gen(rng, tier):
    devs = devices(*GROUPS)
    only = os.environ.get("DST_DEVICE")
    name = only or rng.cycle(sorted(devs))
    dev = devs[name]
    n = rng.choice([3, 4, 6, 8, 12, 24])
    if dev.special_counts and rng.random() < 0.3:
        n = rng.choice(dev.special_counts)
    clock = [c for c in ("dup", "dup_conflict", "swap", "step_back", "prev_day", "next_day", "far") if rng.random() < 0.18 and c in dev.clock_faults]
    recs = at.gen_records(rng, dev, n, clock, sorted(dev.faults), 0.7)
    files = at.split_files(rng, recs, dev.multi)
    order = list(range(len(files)))
    if rng.random() < 0.4:
        rng.shuffle(order)
    return {"device": name, "clock": clock, "files": files, "order": order}


def run(ctx, sc):
    dev = devices(*GROUPS)[sc["device"]]
    for c in sc["clock"]:
        ctx.fault(f"clock_{c}")
    if sc["order"] != sorted(sc["order"]):
        ctx.fault("delivery_reorder")
    if dev.reader:
        at.read_and_check(ctx, dev, sc)
    else:
        at.convert_and_check(ctx, dev, sc)


def simplify(sc):
    import copy

    for i, f in enumerate(sc["files"]):
        for j, r in enumerate(f["recs"]):
            if r.get("f"):
                c = copy.deepcopy(sc)
                del c["files"][i]["recs"][j]["f"]
                yield c
    if sc.get("order") != sorted(sc.get("order", [])):
        yield {**copy.deepcopy(sc), "order": sorted(sc["order"])}
