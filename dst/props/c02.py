"""C02: remote-sensing profiles keep their own time and height, whatever the files."""

import os

from dst import attribution as at
from dst.devices.registry import devices

ID = "C02"
LEVEL = "exploration"
RULE = "a run counts when a clock, delivery, listing-order or split fault was injected and its event log is new"
QUICK_RUNS = 2000
THOROUGH_RUNS = 40000
REAL = ["cloudnetpy *2nc converters of lidars and radars, concat_lib, CloudnetArray, output writer, netCDF4/HDF5", "ceilopyter, rpgpy"]
STUB = ["instruments (scenario-driven raw file writers)", "wall clock", "kernel randomness", "directory listing order"]
STATE_MEASURE = "device x number of files x profiles x delivery order x timestamp order pattern"
SHRINK = ["files", "files.*.recs"]
GROUPS = ("ncremote", "textremote", "binremote")


def warmup():
    import cloudnetpy.instruments  # noqa: F401


def gen(rng, tier):
    devs = devices(*GROUPS)
    name = os.environ.get("DST_DEVICE") or rng.cycle(sorted(devs))
    dev = devs[name]
    n = rng.choice([3, 4, 5, 6, 8, 12, 20])
    clock = [c for c in dev.clock_faults if rng.random() < 0.16]
    recs = at.gen_records(rng, dev, n, clock, sorted(dev.faults), 0.4)
    opts = dev.gen_opts(rng, recs) if hasattr(dev, "gen_opts") else {}
    if getattr(dev, "one_record_files", False):
        files = [{"recs": [r]} for r in recs]
    else:
        files = at.split_files(rng, recs, dev.multi, 5)
    if dev.multi and rng.random() < 0.15:  # a file of a neighbouring day is delivered too
        clock.append("other_day_file")
        sh = rng.choice([86400, 86400, -86400])
        extra = [{"t": sh + 3600 + k * dev.dt, "id": 5000 + k} for k in range(rng.randrange(1, 4))]
        files.insert(0 if sh < 0 else len(files), {"recs": extra[:1] if getattr(dev, "one_record_files", False) else extra})
    if getattr(dev, "layouts", None) and len(files) > 1 and rng.random() < 0.35:  # gates reconfigured during the day
        if hasattr(dev, "configure"):
            dev.configure(opts)
        opts["lays"] = dev.gen_lays(rng)
        cut = rng.randrange(1, len(files))
        for i, f in enumerate(files):
            k = int(i >= cut) if rng.random() < 0.8 else rng.randrange(2)
            f["recs"] = [{**r, "lay": k} for r in f["recs"]]
    order = list(range(len(files)))
    if rng.random() < 0.5:
        rng.shuffle(order)
    return {"device": name, "clock": clock, "opts": opts, "files": files, "order": order, "listing": rng.choice([0, 0, rng.randrange(1, 2**31)])}


def run(ctx, sc):
    dev = devices(*GROUPS)[sc["device"]]
    if hasattr(dev, "configure"):
        dev.configure(sc["opts"])
    for c in sc["clock"]:
        ctx.fault(f"clock_{c}")
    if sc["order"] != sorted(sc["order"]):
        ctx.fault("delivery_reorder")
    if sc["listing"]:
        ctx.fault("listing_shuffle")
    if len(sc["files"]) > 1:
        ctx.fault("split_files")
    if sc["opts"].get("lays"):
        ctx.fault("gates_reconfigured")
    ctx.os.listing(sc["listing"])
    at.convert_and_check(ctx, dev, sc)


def simplify(sc):
    import copy

    if sc.get("order") != sorted(sc.get("order", [])):
        yield {**copy.deepcopy(sc), "order": sorted(sc["order"])}
    if sc.get("listing"):
        yield {**copy.deepcopy(sc), "listing": 0}
