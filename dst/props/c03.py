"""C03: a daily product holds the requested day, the whole day and nothing else."""

import datetime
import os

from dst import attribution as at
from dst.devices.registry import devices

ID = "C03"
LEVEL = "exploration"
RULE = "a run counts when records of another day, a midnight crossing or a day without data was injected and its event log is new"
QUICK_RUNS = 3000
THOROUGH_RUNS = 60000
REAL = ["cloudnetpy *2nc converters of all instruments, concat_lib, output writer, netCDF4/HDF5", "ceilopyter"]
STUB = ["instruments (scenario-driven raw file writers)", "rpgpy binary reader (RPG cloud radar only)", "wall clock", "kernel randomness"]
STATE_MEASURE = "device x mode x outcome x pattern of record days"
SHRINK = ["files", "files.*.recs"]
GROUPS = ("ws", "gauge", "disdro", "ncremote", "textremote", "binremote")


def warmup():
    import cloudnetpy.instruments  # noqa: F401


def usable():
    return {k: d for k, d in devices(*GROUPS).items() if not d.reader and k != "bowtie"}


def gen(rng, tier):
    devs = usable()
    name = os.environ.get("DST_DEVICE") or rng.cycle(sorted(devs))
    dev = devs[name]
    own = getattr(dev, "own_epoch", False)
    per_file = own or getattr(dev, "whole_file_dates", False)
    mode = rng.choice(["no_data", "no_data", "midnight", "midnight", "midnight", "undated", "jump"])
    if mode == "undated" and getattr(dev, "always_bundle", False):
        mode = "midnight"
    n = rng.choice([3, 4, 6, 8, 12])
    dt = dev.dt
    if mode == "no_data":
        kinds = rng.choice([["prev"], ["next"], ["prev", "next"], ["far"], ["exact_next"]])
        files = []
        i = 0
        for k in kinds:
            start = {"prev": -dt * n, "next": 86400 + dt * rng.randrange(0, 5), "far": 86400 * rng.choice([-366, -30, 30, 365]), "exact_next": 86400}[k]
            files.append({"recs": [{"t": start + dt * j, "id": (i := i + 1)} for j in range(n)]})
    elif mode == "midnight":
        before, after = rng.randrange(1, n), rng.randrange(1, n)
        # always at least three profiles on both sides for smoothing converters
        a = [{"t": 86400 - dt * (j + 1), "id": j + 1} for j in range(before + 2)][::-1]
        b = [{"t": 86400 + dt * j, "id": 500 + j} for j in range(after + 2)]
        files = [{"recs": a}, {"recs": b}] if per_file or (dev.multi and rng.random() < 0.5) else [{"recs": a + b}]
    elif mode == "jump":  # the logger's clock is wrong for a while in the middle of the day
        recs = at.gen_records(rng, dev, n, [])
        files = at.split_files(rng, recs, dev.multi and not getattr(dev, "always_bundle", False), 3)
        f = rng.choice(files)["recs"]
        a = rng.randrange(0, len(f) + 1)
        off = rng.choice([86400, 86400, 30 * 86400] if own else [86400, -86400, 86400 * 31, -86400 * 365])
        bad = [{"t": off + dt * (7 + j), "id": 900 + j} for j in range(rng.randrange(1, 4))]
        if rng.random() < 0.5 and len(f) > 2:
            a = rng.randrange(1, len(f))
        f[a:a] = bad
    else:
        recs = at.gen_records(rng, dev, n, [])
        # bundling several lidar files needs a date, so one file is enough here
        files = at.split_files(rng, recs, dev.multi and not hasattr(dev, "always_bundle"), 3)
    if not dev.multi and len(files) > 1:
        files = [{"recs": sum((f["recs"] for f in files), [])}]
    if getattr(dev, "one_record_files", False):
        files = [{"recs": [r]} for f in files for r in f["recs"]]
    opts = dev.gen_opts(rng, sum((f["recs"] for f in files), [])) if hasattr(dev, "gen_opts") else {}
    order = list(range(len(files)))
    if rng.random() < 0.3:
        rng.shuffle(order)
    return {"device": name, "mode": mode, "opts": opts, "files": files, "order": order}


def _convert(ctx, dev, paths, date, tag):
    out = ctx.path("out", f"{dev.name}{tag}.nc")
    o = ctx.attempt(dev.convert, paths, out, date)
    ctx.log("convert", dev.name, tag, o.kind)
    return o, out


def _documented(o):
    from cloudnetpy.exceptions import CloudnetException

    return isinstance(o.exc, CloudnetException)


def _date_attrs(ctx, key, path, day):
    import netCDF4

    with netCDF4.Dataset(path) as nc:
        got = (str(getattr(nc, "year", "?")), str(getattr(nc, "month", "?")), str(getattr(nc, "day", "?")))
        units = nc.variables["time"].units
        t = nc.variables["time"][:]
    want = (f"{day.year}", f"{day.month:02d}", f"{day.day:02d}")
    if got != want:
        ctx.violate("wrong-date", key, f"product says {'-'.join(got)}, requested {day}")
    if f"{day.isoformat()} 00:00:00" not in units:
        ctx.violate("wrong-date", f"{key}:units", f"time units {units!r}, requested {day}")
    if len(t) and (float(t.min()) < 0 or float(t.max()) > 24):
        ctx.violate("outside-day", key, f"time axis spans {float(t.min())}...{float(t.max())} h")


def _day_recs(recs, k):
    return [{**r, "t": r["t"] - 86400 * k} for r in recs]


def run(ctx, sc):
    dev = usable()[sc["device"]]
    if hasattr(dev, "configure"):
        dev.configure(sc["opts"])
    key, mode = dev.name, sc["mode"]
    ctx.fault({"no_data": "no_data_day", "midnight": "midnight_crossing", "undated": "no_expected_date", "jump": "clock_jump"}[mode])
    if sc["order"] != sorted(sc["order"]):
        ctx.fault("delivery_reorder")
    paths, recs = at.deliver(ctx, dev, sc)
    if not recs or not paths:
        return
    if mode == "jump" and getattr(dev, "whole_file_dates", False):
        # files with records of several days are ignored as a whole
        odd = {r["id"] for f in sc["files"] if any(not at.in_day(r) for r in f["recs"]) for r in f["recs"]}
        recs = [{**r, "f": "file"} if r["id"] in odd else r for r in recs]
    ctx.sim_s += max(r["t"] for r in recs) - min(r["t"] for r in recs) + dev.dt
    names = list(dev.expected(recs[0])) + list(getattr(dev, "axes", dict)())
    days = {"no_data": [0], "midnight": [0, 1], "undated": [0], "jump": [0]}[mode]
    if getattr(dev, "own_epoch", False) and len(sc["files"]) == 1:
        days = [0]  # the file counts from its own first day
    for k in days:
        day = dev.day + datetime.timedelta(days=k)
        mine = [r for r in _day_recs(recs, k) if at.in_day(r)]
        o, out = _convert(ctx, dev, paths, None if mode == "undated" else day, f"_{k}")
        ctx.state(dev.name, mode, o.kind, [r["t"] // 86400 for r in recs])
        if not mine:
            ctx.probe("no_data_days")
            if o.ok:
                prod = at.read_product(out, names)
                ctx.violate("foreign-profile", key, f"no record of {day} exists but a product with {len(prod['time'])} profiles was made")
            else:
                if not _documented(o):
                    ctx.violate("undocumented-error", f"{key}:{o.kind}", f"a day without data must be refused with the documented error, got {o!r}\n{(o.tb or '')[-900:]}")
                if os.path.exists(out):
                    ctx.violate("output-without-data", key, f"{o.kind} was raised but an output file exists")
            continue
        if not o.ok:
            ctx.probe("refused")
            shifted = _day_recs(recs, k)
            if not at.allowed_to_refuse(dev, shifted, [_day_recs(dev.as_written(f["recs"]), k) for f in sc["files"]]):
                ctx.violate("refused", f"{key}:{o.kind}", f"conversion of {day} failed: {o!r}\n{(o.tb or '')[-900:]}")
            continue
        ctx.probe("converted")
        prod = at.read_product(out, names)
        _date_attrs(ctx, key, out, day)
        at.check_product(ctx, dev, prod, _day_recs(recs, k), key)
        ctx.log("product", k, [round(float(t) * 3600, 1) for t in prod["time"]])


def simplify(sc):
    import copy

    if sc.get("order") != sorted(sc.get("order", [])):
        yield {**copy.deepcopy(sc), "order": sorted(sc["order"])}
