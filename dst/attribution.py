"""Record attribution oracle shared by the raw-data conversion properties.

The simulated data logger turns a list of records into raw files, damages
them, delivers them, and the oracle recomputes from the record list alone
which profiles the product must contain.
"""

import datetime
import os

import numpy as np

from dst.devices.base import DAY, hint


# ------------------------------------------------------------- generation

def timeline(rng, dev, n):
    """n record times, regular sampling with a random start inside the day."""
    dt = dev.dt
    span = n * dt
    start = rng.randrange(0, max(1, 86400 - span - dt) // dt + 1) * dt if span + dt < 86400 else 0
    return [start + k * dt for k in range(n) if start + k * dt < 86400]


def gen_records(rng, dev, n, clock_faults=(), rec_faults=(), p_rec=0.5, other_day=0.3):
    """Logger history: list of records with record faults and clock faults."""
    ts = timeline(rng, dev, n)
    recs = [{"t": t, "id": k + 1} for k, t in enumerate(ts)]
    if recs and rng.random() < 0.3:  # gaps
        for _ in range(rng.randrange(1, 3)):
            if len(recs) > 4:
                a = rng.randrange(len(recs) - 2)
                del recs[a : a + rng.randrange(1, 3)]
    nid = 1000
    for cf in clock_faults:
        if len(recs) < 2:
            break
        if cf == "dup":  # the same record written twice
            k = rng.randrange(len(recs))
            recs.insert(k, dict(recs[k]))
        elif cf == "dup_conflict":  # two different records with one timestamp
            k = rng.randrange(len(recs))
            nid += 1
            recs.insert(k, {"t": recs[k]["t"], "id": nid})
        elif cf == "sub_second":  # two profiles within one second
            k = rng.randrange(len(recs))
            nid += 1
            recs.insert(k + 1, {"t": recs[k]["t"], "ms": rng.choice([250, 500, 750]), "id": nid})
        elif cf == "swap":
            a, b = rng.randrange(len(recs)), rng.randrange(len(recs))
            recs[a], recs[b] = recs[b], recs[a]
        elif cf == "step_back":  # clock set back: part of the day is written again
            k = rng.randrange(1, len(recs))
            m = rng.randrange(1, min(4, k) + 1)
            ins = []
            for r in recs[k - m : k]:
                nid += 1
                ins.append({"t": r["t"], "id": nid})
            recs[k:k] = ins
        elif cf == "prev_day":
            nid += 1
            recs.insert(rng.choice([0, 0, rng.randrange(len(recs) + 1)]), {"t": -dev.dt * rng.randrange(1, 4), "id": nid})
        elif cf == "next_day":
            nid += 1
            recs.insert(rng.choice([len(recs), len(recs), rng.randrange(len(recs) + 1)]), {"t": 86400 + dev.dt * rng.randrange(0, 3), "id": nid})
        elif cf == "far":  # clock reset to another month
            nid += 1
            recs.insert(rng.randrange(len(recs) + 1), {"t": 86400 * rng.choice([-40, -365, 31, 365]) + 3600, "id": nid})
        elif cf == "all_other_day":
            sh = rng.choice([-86400, 86400])
            for r in recs:
                r["t"] += sh
    if rec_faults and recs and rng.random() < p_rec:
        for _ in range(rng.choice([1, 1, 1, 2, 3, max(1, len(recs) // 2)])):
            recs[rng.randrange(len(recs))].update(f=rng.choice(list(rec_faults)), c=rng.randrange(10**6))
    return recs


def split_files(rng, recs, multi, max_files=4):
    if not multi:
        return [{"recs": recs}]
    n = rng.choice([1, 1, 2, 2, 3, max_files])
    cuts = sorted({rng.randrange(0, len(recs) + 1) for _ in range(n - 1)} - {0, len(recs)})
    cuts = [0, *cuts, len(recs)]
    return [{"recs": recs[a:b]} for a, b in zip(cuts, cuts[1:])]


# ------------------------------------------------------------- oracle

def read_product(path, names):
    import netCDF4

    with netCDF4.Dataset(path) as nc:
        out = {"time": np.ma.filled(nc.variables["time"][:].astype(float), np.nan)}
        for n in names:
            if n in nc.variables:
                out[n] = nc.variables[n][:]
        out["_date"] = f"{nc.year}-{nc.month}-{nc.day}" if "year" in nc.ncattrs() else None
        out["_vars"] = list(nc.variables)
    return out


def close(value, want, rel=2e-5, ab=1e-9):
    """value: masked scalar or number; want: number or None (masked)."""
    masked = np.ma.is_masked(value) or (np.isscalar(value) and value != value)
    if want is None:
        return bool(masked)
    if masked:
        return False
    v = np.asarray(value, dtype=float)
    w = np.asarray(want, dtype=float)
    if v.shape != w.shape:
        return False
    return bool(np.all(np.abs(v - w) <= ab + rel * np.abs(w)))


def in_day(rec, upper=86400):
    return 0 <= rec["t"] < upper


def check_product(ctx, dev, prod, recs, key):
    """Every profile is one record; every intact record of the day is a profile."""
    times = np.asarray(prod["time"], dtype=float)
    tol = dev.time_tol / 3600
    n = len(times)
    if not np.all(np.isfinite(times)):
        ctx.violate("time-invalid", key, "non-finite time in product")
        return
    if n > 1 and np.any(np.diff(times) < 0):
        ctx.violate("time-order", key, f"time axis goes backwards: {times[:20].tolist()}")
    if dev.dedup and n > 1 and np.any(np.diff(np.sort(times)) < 1e-9):
        ctx.violate("time-duplicate", key, f"duplicate timestamps in product: {times[:20].tolist()}")
    names = None
    by_t = {}
    for r in recs:
        if in_day(r):
            by_t.setdefault(r["t"] + r.get("ms", 0) / 1000, []).append(r)
    for name, want in getattr(dev, "axes", dict)().items():
        got = prod.get(name)
        if got is None or np.shape(got) != np.shape(want) or not np.allclose(np.ma.filled(got.astype(float), np.nan), want, rtol=1e-5, atol=dev.axis_tol):
            ctx.violate("wrong-axis", f"{key}:{name}", f"{name} is {None if got is None else np.ma.filled(got.astype(float), np.nan)[:8].tolist()} ({np.shape(got)}), instrument has {np.asarray(want)[:8].tolist()} ({np.shape(want)})")
            break
    used = set()
    stamps = np.array(sorted(by_t), dtype=float)
    for i, t in enumerate(times):
        if not len(stamps):
            ctx.violate("foreign-profile", key, f"profile at {t * 3600:.1f} s although no record of the day exists")
            return
        j = int(np.argmin(np.abs(stamps - t * 3600)))
        if abs(stamps[j] / 3600 - t) > tol:
            ctx.violate("foreign-profile", key, f"profile {i} at {t * 3600:.2f} s matches no record (nearest {stamps[j]} s)")
            continue
        cands = by_t[stamps[j]]
        used.add(stamps[j])
        reason = None
        for r in cands:
            reason = _match(dev, prod, i, r, n)
            if reason is None:
                break
        if reason is not None:
            ctx.violate("wrong-values", f"{key}:{reason[0]}", f"profile {i} at {t * 3600:.1f} s does not show the record of that time: {reason[1]}")
        names = names or True
    for t, cands in by_t.items():
        if any(r.get("f") and dev.faults.get(r["f"]) == "mask" for r in cands):
            continue  # a screened profile may stand for a repeated timestamp
        if t not in used and any(not dev.damaged(r) for r in cands):
            ctx.violate("lost-record", key, f"intact record at {t} s (id {cands[0]['id']}) is missing from the product ({n} profiles, {len(by_t)} record times)")
            break


def _match(dev, prod, i, rec, n):
    exp = dev.expected(rec)
    for name, want in exp.items():
        if name not in prod:
            return name, f"variable {name} missing from product"
        arr = prod[name]
        if arr.ndim == 0 or arr.shape[0] != n:
            return name, f"{name} has shape {arr.shape}, time has {n}"
        got = arr[i]
        if rec.get("f") and (np.ma.is_masked(got) or not np.all(np.isfinite(np.ma.filled(np.asarray(got, dtype=float), np.nan)))):
            continue
        if not dev.same(name, got, want, rec):
            return name, f"{name}={got!r} expected {want!r} (record id {rec['id']}{' fault ' + rec['f'] if rec.get('f') else ''})"
    return None


def allowed_to_refuse(dev, recs, files=None):
    """May the conversion refuse this input (raise) instead of producing a file?"""
    intact = {r["t"] for r in recs if in_day(r) and not dev.damaged(r)}
    if getattr(dev, "own_epoch", False) and any(r["t"] < 0 for r in recs):
        return True  # a folder that starts with another day is refused as a whole
    if len(intact) < dev.min_records:
        return True
    if hasattr(dev, "may_refuse") and dev.may_refuse(recs):
        return True
    if files is not None and any(all(dev.damaged(r) for r in f) for f in files):
        return True  # a file without a single readable record
    if dev.layout_by_majority and files is not None and any(2 * sum(dev.damaged(r) for r in f) >= len(f) for f in files):
        return True
    return any(r.get("f") and dev.faults.get(r["f"]) == "free" for r in recs)


def deliver(ctx, dev, sc):
    """Write the raw files in scenario order; returns (paths in delivery order, records)."""
    paths, recs = [], []
    for i, f in enumerate(sc["files"]):
        p = ctx.path("raw", dev.file_name(i, f["recs"]))
        dev.write(p, f["recs"], f.get("opts", {}))
        paths.append(p)
        recs += dev.as_written(f["recs"])
    order = sc.get("order")
    pairs = [(p, dev.as_written(f["recs"])) for p, f in zip(paths, sc["files"])]
    if order:
        paths = [paths[k] for k in order if k < len(paths)]
        pairs = [pairs[k] for k in order if k < len(pairs)]
    if hasattr(dev, "choose_target"):
        dev.choose_target([(os.path.basename(p), r) for p, r in pairs if r])
    return paths, recs


def convert_and_check(ctx, dev, sc, tag=""):
    key = dev.name
    paths, recs = deliver(ctx, dev, sc)
    out = ctx.path("out", f"{dev.name}{tag}.nc")
    for r in recs:
        if r.get("f"):
            ctx.fault(f"record_{r['f']}")
    o = ctx.attempt(dev.convert, paths, out, dev.day)
    ctx.log("convert", dev.name, o.kind)
    if not o.ok:
        ctx.probe("refused")
        ctx.probe(f"refused_{o.kind}")
        if not allowed_to_refuse(dev, recs, [dev.as_written(f["recs"]) for f in sc["files"]]):
            ctx.violate("refused", f"{key}:{o.kind}", f"conversion of readable data failed: {o!r}\n{(o.tb or '')[-900:]}")
        return o, None
    intact = [r for r in recs if in_day(r) and not dev.damaged(r)]
    names = (list(dev.expected(recs[0])) if recs else []) + list(getattr(dev, "axes", dict)())
    prod = read_product(out, names)
    check_product(ctx, dev, prod, recs, key)
    ctx.probe("converted")
    ctx.probe("records_checked", len(intact))
    ctx.log("product", len(prod["time"]), [round(float(t) * 3600, 2) for t in prod["time"]])
    ctx.sim_s += max([r["t"] for r in recs], default=0) - min([r["t"] for r in recs], default=0) + dev.dt
    ctx.state(dev.name, len(sc["files"]), [r.get("f") for r in recs], [r["t"] > (recs[k - 1]["t"] if k else -1e9) for k, r in enumerate(recs)])
    return o, prod


def read_and_check(ctx, dev, sc):
    """Plain readers: the rows are the readable records, in file order."""
    key = dev.name
    paths, recs = deliver(ctx, dev, sc)
    for r in recs:
        if r.get("f"):
            ctx.fault(f"record_{r['f']}")
    o = ctx.attempt(dev.read, paths[0])
    ctx.log("read", dev.name, o.kind)
    if not o.ok:
        ctx.probe("refused")
        if not (any(r.get("f") and dev.faults.get(r["f"]) == "free" for r in recs) or all(dev.damaged(r) for r in recs)):
            ctx.violate("refused", f"{key}:{o.kind}", f"reading failed: {o!r}\n{(o.tb or '')[-900:]}")
        return
    time, data = o.value
    n = len(time)
    intact = [r for r in recs if not dev.damaged(r)]
    ctx.log("rows", n, [str(t) for t in time])
    ctx.probe("converted")
    ctx.probe("records_checked", len(intact))
    ctx.state(dev.name, [r.get("f") for r in recs], [r["t"] > (recs[k - 1]["t"] if k else -1e9) for k, r in enumerate(recs)])
    stamps = [t.replace(tzinfo=None) for t in time]
    i = 0
    for j, t in enumerate(stamps):
        while i < len(recs) and dev.damaged(recs[i]):
            i += 1
        if i == len(recs) or dev.dt_of(recs[i]) != t:
            if any(dev.damaged(r) and dev.dt_of(r) == t for r in recs):
                continue  # a damaged row may be kept
            if any(dev.dt_of(r) == t for r in recs[i:]):
                ctx.violate("lost-record", key, f"record {recs[i]} is missing before row {j}")
            else:
                ctx.violate("foreign-profile", key, f"row {j} at {t} matches no record")
            return
        for col, want in dev.columns_of(recs[i]).items():
            if col not in data or len(data[col]) != n:
                ctx.violate("wrong-values", f"{key}:length", f"column {col}: {len(data.get(col, []))} values for {n} timestamps")
                return
            if not close(data[col][j], want):
                ctx.violate("wrong-values", f"{key}:{col}", f"row {j} at {t}: column {col} is {data[col][j]!r}, record has {want!r}")
                return
        i += 1
    left = [r for r in recs[i:] if not dev.damaged(r)]
    if left:
        ctx.violate("lost-record", key, f"records missing at the end: {left[:2]}")
