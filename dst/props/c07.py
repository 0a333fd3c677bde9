"""C07: accumulated precipitation survives gauge resets, gaps and disorder."""

import os

import numpy as np
from numpy import ma

from dst import attribution as at
from dst.devices.registry import devices

ID = "C07"
LEVEL = "exploration"
RULE = "a run counts when a gauge reset, missing or damaged reading, duplicate, disorder or midnight was injected and its event log is new"
QUICK_RUNS = 4000
THOROUGH_RUNS = 80000
REAL = ["ws2nc, fd12p2nc, rain_e_h32nc, CSVFile.normalize_cumulative_amount, output writer, netCDF4/HDF5"]
STUB = ["rain gauges (scenario-driven raw file writers with an accumulation counter)", "wall clock", "kernel randomness"]
STATE_MEASURE = "device x positions of resets, missing, damaged, duplicated and out-of-order readings"
SHRINK = ["files", "files.*.recs"]
GROUPS = ("ws", "gauge")


def warmup():
    import cloudnetpy.instruments  # noqa: F401


def usable():
    out = {}
    for k, d in devices(*GROUPS).items():
        if d.reader:
            continue
        if d.rain_amount_var:
            out[k] = d
        elif getattr(d, "has_rate", False):
            out[k] = d
    return out


def gen(rng, tier):
    devs = usable()
    counters = sorted(k for k, d in devs.items() if d.rain_amount_var)
    derived = sorted(set(devs) - set(counters))
    name = os.environ.get("DST_DEVICE") or (rng.choice(counters) if rng.random() < 0.75 else rng.choice(derived))
    dev = devs[name]
    n = rng.choice([2, 3, 5, 8, 12, 20, 40]) if dev.rain_amount_var else rng.choice([6, 9, 14])
    dt = dev.dt
    start = rng.randrange(0, (86400 - (n + 1) * dt) // dt) * dt
    recs = []
    counter = rng.choice([0.0, 0.4, 3.21, 120.5, 999.0])
    n_resets = rng.choice([0, 1, 1, 2, 2, 3, 5])
    resets = {rng.randrange(1, n) for _ in range(n_resets)} if n > 1 else set()
    raining = True
    for i in range(n):
        if i in resets:
            counter = rng.choice([0.0, 0.0, 0.1, round(counter * 0.5, 2)])
        elif i and raining:
            counter = round(counter + rng.choice([0, 0.01, 0.1, 0.25, 2.5]), 2)
        if rng.random() < 0.15:
            raining = not raining
        recs.append({"t": start + i * dt, "id": i + 1, "amount": counter})
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        kinds = [k for k in ("torn", "garbage", "blank", "missing") if k in dev.faults and dev.faults[k] in ("skip", "mask")]
        if name in ("ws_palaiseau", "ws_bucharest"):
            kinds.append("nan")
        if kinds:
            i = rng.choice([0, 0, rng.randrange(n), n - 1, rng.randrange(n)])
            f = rng.choice(kinds)
            if f == "nan":
                recs[i]["amount"] = None
            else:
                recs[i]["f"] = f
    if dev.rain_amount_var and rng.random() < 0.2:
        recs = [dict(r, t=r["t"] - recs[0]["t"] - dt * (n // 2)) for r in recs]  # the file starts the day before
    if rng.random() < 0.3:
        for _ in range(rng.randrange(1, 3)):
            k = rng.randrange(len(recs))
            recs.insert(k, dict(recs[k]))
    if rng.random() < 0.3 and not getattr(dev, "ordered", False):
        for _ in range(rng.randrange(1, 3)):
            a, b = rng.randrange(len(recs)), rng.randrange(len(recs))
            recs[a], recs[b] = recs[b], recs[a]
    files = at.split_files(rng, recs, dev.multi)
    order = list(range(len(files)))
    if rng.random() < 0.4:
        rng.shuffle(order)
    return {"device": name, "files": files, "order": order}


def model(readings):
    """Rain collected since the first valid reading; a counter that went down was reset to zero."""
    out, total, last = [], 0.0, None
    for a in readings:
        if a is None:
            out.append(None)
            continue
        if last is not None:
            total += a - last if a >= last else a
        last = a
        out.append(total)
    return out


def run(ctx, sc):
    dev = usable()[sc["device"]]
    key = dev.name
    paths, recs = at.deliver(ctx, dev, sc)
    if not recs or not paths:
        return
    for r in recs:
        if r.get("f"):
            ctx.fault(f"reading_{r['f']}")
        if r["amount"] is None:
            ctx.fault("reading_missing")
    ts = [r["t"] for r in recs]
    if ts != sorted(ts):
        ctx.fault("disorder")
    if len(set(ts)) != len(ts):
        ctx.fault("duplicate")
    if min(ts) < 0:
        ctx.fault("midnight")
    if sc["order"] != sorted(sc["order"]):
        ctx.fault("delivery_reorder")
    out = ctx.path("out", "rain.nc")
    o = ctx.attempt(dev.convert, paths, out, dev.day)
    ctx.log("convert", dev.name, o.kind)
    alive = {r["t"]: r for r in recs if at.in_day(r) and not (r.get("f") and dev.faults[r["f"]] == "skip")}
    series = [alive[t] for t in sorted(alive)]
    if not o.ok:
        ctx.probe("refused")
        if not at.allowed_to_refuse(dev, recs, [dev.as_written(f["recs"]) for f in sc["files"]]):
            ctx.violate("refused", f"{key}:{o.kind}", f"conversion failed: {o!r}\n{(o.tb or '')[-900:]}")
        return
    var = dev.rain_amount_var or "rainfall_amount"
    prod = at.read_product(out, [var])
    if var not in prod:
        ctx.violate("missing-variable", key, f"{var} is not in the product")
        return
    ctx.probe("converted")
    got = prod[var]
    times = [int(round(float(t) * 3600)) for t in prod["time"]]
    by_t = {t: got[i] for i, t in enumerate(times)}
    if any(t not in by_t for t in [r["t"] for r in series if not r.get("f")]):
        ctx.violate("lost-record", key, f"readings {sorted(alive)} gave profiles {times}")
        return
    series = [r for r in series if r["t"] in by_t]
    values = [by_t[r["t"]] for r in series]
    if dev.rain_amount_var:
        readings = [None if r.get("f") else r["amount"] for r in series]
        n_resets = sum(1 for a, b in zip(*[[x for x in readings if x is not None][k:] for k in (0, 1)]) if b < a)
        ctx.fault("gauge_reset", n_resets)
        want = [None if w is None else w * dev_unit(dev) for w in model(readings)]
    else:
        dt = float(np.median(np.diff([r["t"] for r in series]))) if len(series) > 1 else 0
        total, want = 0.0, []
        for r in series:
            rate = dev.expected(r)["rainfall_rate"]
            total += rate * dt
            want.append(total)
        if any(r.get("f") for r in series):
            return
        if len(series) == 1:
            want = [0.0]
    ctx.state(dev.name, [(r.get("f"), r["amount"] is None) for r in recs], [b["t"] > a["t"] for a, b in zip(recs, recs[1:])], [None if w is None else round(w, 6) for w in want][:6])
    ctx.log("series", [None if w is None else round(w, 7) for w in want])
    ctx.sim_s += len(series) * dev.dt
    last = None
    for i, (g, w) in enumerate(zip(values, want)):
        if not at.close(g, w, 2e-4, 2e-8):
            ctx.violate("amount", f"{key}:{'masked' if ma.is_masked(g) else 'value'}", f"{var} after reading {i} of {[r['amount'] for r in series]} is {g!r} m, gauge collected {w!r} m")
            return
        if w is not None:
            if last is not None and float(g) < last - 1e-9:
                ctx.violate("decreasing", key, f"accumulated amount fell from {last} to {g}")
                return
            last = float(g)


def dev_unit(dev):
    return getattr(dev, "amount_unit", 1e-3)
