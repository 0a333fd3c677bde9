"""C14: every file says truthfully what it was made from, by whom and when."""

import datetime
import hashlib
import os
import uuid as uuidlib

import numpy as np

from dst import chain, ops
from dst.core import SIM_EPOCH
from dst.props import c15, c17

ID = "C14"
LEVEL = "exploration"
RULE = "a run counts when a clock jump, an odd or repeated history line, a missing attribute, an unusable source or a repeated run was injected and its event log is new"
QUICK_RUNS = 700
THOROUGH_RUNS = 30000
REAL = ["all *2nc converters", "generate_categorize, generate_classification, generate_iwc, generate_ier, generate_lwc, generate_der, generate_epsilon_from_radar", "process_L3_day_product", "netCDF4/HDF5", "output writer"]
STUB = ["instruments and model (scenario-driven writers)", "rpgpy binary reader (RPG cloud radar only)", "wall clock", "kernel randomness"]
STATE_MEASURE = "operations in order x sources used x history shape x identifier arguments"
PROBES = ["l1b", "categorize", "products", "epsilon", "l3", "requested_uuid", "fresh_uuid", "malformed_line", "shared_line", "clock_behind_sources", "radar_is_mwr", "regenerated", "unusable_disdrometer", "no_pid"]
SHRINK = ["steps", "scene.use", "prov.radar.history", "prov.lidar.history", "prov.mwr.history", "prov.disdrometer.history", "prov.model.history"]
PIDS = "https://hdl.handle.net/21.12132/3."
VERSIONS = ["1.80.0", "1.93.4"]


def warmup():
    ops.warmup()
    c17.warmup()


def gen_line(rng, k):
    t = datetime.datetime(2025, 2, 9, 12) + datetime.timedelta(seconds=rng.randrange(0, 5 * 86400))
    r = rng.random()
    tail = rng.choice([f"{k} file created", f"{k} file edited", f"{k} file created - twice", "processed on host sim-1"])
    if r < 0.12:
        return rng.choice([f"{k} file made with an old tool", f"{t:%Y-%m-%d} - {tail}", f"{t:%d.%m.%Y %H:%M:%S} - {tail}", "- - -"])
    if r < 0.25:
        return f"{t:%Y-%m-%d %H:%M:%S} +02:00 - {tail}"
    return f"{t:%Y-%m-%d %H:%M:%S} +00:00 - {tail}"


def gen(rng, tier):
    if rng.random() < 0.4:
        op = ops.gen_device(rng, tier)
        op.pop("junk", None)
        return {"kind": "l1b", "op": op, "uuid": gen_uuid(rng), "clock": gen_clock(rng), "again": rng.random() < 0.3, "gap": rng.choice([0, 5000])}
    sc = chain.gen_scene(rng, tier, max_minutes=12)
    if rng.random() < 0.6:
        sc["use"] = sorted({*sc["use"], "mwr"})
    sc["model"] = {"step": 1, "blank": [], "first": 0, "last": 24}
    shared = gen_line(rng, "campaign")
    prov = {}
    for k in ("radar", "lidar", "mwr", "disdrometer", "model"):
        lines = [gen_line(rng, k) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.2:
            lines.insert(rng.randrange(len(lines) + 1), shared)
        if rng.random() < 0.1:
            lines.append(lines[0])
        prov[k] = {"history": lines if rng.random() < 0.94 else None, "pid": rng.random() < 0.8, "shared_source": rng.random() < 0.1, "two_sources": rng.random() < 0.15}
    steps = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        steps.append({"op": rng.choice(["classification", "iwc", "ier", "lwc", "der", "epsilon", "l3", "categorize"]), "uuid": gen_uuid(rng), "clock": gen_clock(rng)})
    steps.insert(0, {"op": "categorize", "uuid": gen_uuid(rng), "clock": gen_clock(rng)})
    stopped = rng.random() < 0.25  # the clock of the host stands still
    if stopped:
        for st in steps:
            st["clock"] = steps[0]["clock"]
    return {"kind": "chain", "gap": 0 if stopped else rng.choice([0, 60]), "scene": sc, "prov": prov, "steps": steps, "radar_is_mwr": rng.random() < 0.15, "bad_disdrometer": rng.random() < 0.15}


def gen_uuid(rng):
    r = rng.random()
    if r < 0.5:
        return None
    return {"as": rng.choice(["str", "uuid"]), "value": str(uuidlib.UUID(int=rng.getrandbits(128), version=4))}


def gen_clock(rng):
    return rng.choice([0, 3600, 86400 * 3 + 17, -86400 * 2, 86400 * 400, rng.randrange(0, 10**6)])


def arg(u):
    if u is None:
        return None
    return u["value"] if u["as"] == "str" else uuidlib.UUID(u["value"])


class Run:
    def __init__(self, ctx, sc):
        self.ctx, self.sc = ctx, sc
        self.seen = set()

    def at(self, clock):
        t = SIM_EPOCH + clock
        self.ctx.os.clock(t)
        self.now = datetime.datetime.fromtimestamp(t, datetime.timezone.utc)
        self.ctx.fault("clock_jump", int(clock != 0))

    def stamp(self, line, where):
        try:
            t = datetime.datetime.strptime(line.split(" - ")[0], "%Y-%m-%d %H:%M:%S %z")
        except ValueError:
            t = None
        if t is None or not 0 <= (t - self.now).total_seconds() < 3600:
            self.ctx.violate("history-time", where, f"new record {line!r} was written at {self.now}")

    def identity(self, name, res, u, at):
        """The identifier is the requested one, or a fresh one; the caller is told it."""
        ctx = self.ctx
        got = at.get("file_uuid")
        told = res.value[0] if isinstance(res.value, tuple) else res.value
        if str(told) != got:
            ctx.violate("uuid", f"{name}:returned", f"returned {told}, the file says {got}")
        if u is not None:
            ctx.probe("requested_uuid")
            if got != u["value"]:
                ctx.violate("uuid", f"{name}:requested", f"{got} instead of the requested {u['value']}")
        else:
            ctx.probe("fresh_uuid")
            if got in self.seen:
                ctx.violate("uuid", f"{name}:reused", f"{got} is the identifier of another file")
            try:
                uuidlib.UUID(got)
            except (ValueError, TypeError):
                ctx.violate("uuid", f"{name}:invalid", f"{got!r}")
        self.seen.add(got)

    def history(self, name, at, groups):
        """New record first, then every line of the sources exactly once, newest first, undated lines last."""
        lines = at.get("history", "").split("\n")
        self.stamp(lines[0], name)
        want = sorted({x for g in groups for x in g})
        rest = lines[1:]
        if sorted(rest) != want:
            lost, extra = sorted(set(want) - set(rest)), sorted(set(rest) - set(want))
            self.ctx.violate("history-lines", name, f"lost {lost[:3]}, not from the sources {extra[:3]}, {len(rest)} lines for {len(want)}")
            return
        keys = [when(x) for x in rest]
        for a, b in zip(keys, keys[1:]):
            if (a is None and b is not None) or (a is not None and b is not None and a < b):
                self.ctx.violate("history-order", name, f"{rest}")
                return


def when(line):
    try:
        return datetime.datetime.strptime(line.split(" - ")[0].strip(), "%Y-%m-%d %H:%M:%S %z")
    except ValueError:
        return None


def attrs(path):
    import netCDF4

    with netCDF4.Dataset(path) as nc:
        return {k: nc.getncattr(k) for k in nc.ncattrs()}, {v: {k: nc[v].getncattr(k) for k in nc[v].ncattrs()} for v in nc.variables}


def run(ctx, sc):
    if sc["kind"] == "l1b":
        return run_l1b(ctx, sc)
    return run_chain(ctx, sc)


# ---------------------------------------------------------------------- L1b

def run_l1b(ctx, sc):
    op = sc["op"]
    if not op["files"]:
        return
    dev = ops.usable()[op["device"]]
    prep = ops.prepare(ctx, op, 0)
    r = Run(ctx, sc)
    name = op["device"]
    day = dev.day + datetime.timedelta(days=op["day_shift"])
    for k in range(2 if sc["again"] else 1):
        r.at(sc["clock"] + sc.get("gap", 5000) * k)
        ctx.os.random(sc["seed"] % 2**60 + 1 + k)
        out = ctx.path("out", f"l1b{k}.nc")
        u = sc["uuid"] if k == 0 else None
        res = ctx.attempt(ops.call, ctx, op, prep, out, arg(u))
        ctx.log(name, res.kind)
        ctx.state("l1b", name, bool(u), res.kind)
        if not res.ok:
            return  # judged by C01..C04
        ctx.sim_s += 86400
        ctx.probe("l1b")
        ctx.fault("converted_again", int(k > 0))
        ctx.fault("identifier_given", int(u is not None))
        at, var = attrs(out)
        r.identity(name, res, u, at)
        lines = at.get("history", "").split("\n")
        r.stamp(lines[0], name)
        if len(lines) != 1:
            ctx.violate("history-lines", name, f"{lines}")
        date = (at.get("year"), at.get("month"), at.get("day"))
        if date != (f"{day:%Y}", f"{day:%m}", f"{day:%d}"):
            ctx.violate("date", name, f"{date} for {day}")
        if at.get("location") != dev.site["name"]:
            ctx.violate("location", name, f"{at.get('location')!r} instead of {dev.site['name']!r}")
        if not at.get("source") or not at.get("cloudnet_file_type"):
            ctx.violate("attribute", name, "source or cloudnet_file_type is missing")
        import cloudnetpy

        if at.get("cloudnetpy_version") != cloudnetpy.__version__:
            ctx.violate("attribute", f"{name}:version", f"{at.get('cloudnetpy_version')!r}")
        if f"since {day}" not in var["time"].get("units", ""):
            ctx.violate("date", f"{name}:time", f"{var['time'].get('units')!r} for {day}")


# -------------------------------------------------------------------- chain

def stamp_inputs(ctx, sc, files):
    import netCDF4

    for k, path in files.items():
        p = sc["prov"][k]
        with netCDF4.Dataset(path, "r+") as nc:
            if p["history"] is None:
                nc.delncattr("history")
                ctx.fault("no_history")
            else:
                nc.history = "\n".join(p["history"])
            if not p["pid"] and "instrument_pid" in nc.ncattrs():
                nc.delncattr("instrument_pid")
                ctx.probe("no_pid")
            if p["shared_source"] and k != "radar":
                nc.source = "Simsite Sensors X-1"
            if p["two_sources"] and k != "radar":
                nc.source = f"{nc.source}\nSimsite Sensors Y-{len(k)}"


def run_chain(ctx, sc):
    import netCDF4

    scene = sc["scene"]
    for i in scene["inst"].values():
        if not i["t"]:
            return
        i["blank"] = [b for b in i["blank"] if b in i["t"]]
    steps, _ = c15.expected_steps(scene)
    if steps is None or len(steps) < 2:
        return
    scene = {**scene, "seed": sc["seed"]}
    files = chain.write_inputs(scene, lambda n: ctx.path("in", n))
    stamp_inputs(ctx, sc, files)
    if sc["bad_disdrometer"] and "disdrometer" in files:
        # a disdrometer file without usable rainfall is set aside by categorize
        with netCDF4.Dataset(files["disdrometer"], "r+") as nc:
            nc.renameVariable("n_particles", "n_particles_")
            nc.renameVariable("rainfall_rate", "rainfall_rate_")
        ctx.fault("unusable_disdrometer")
        ctx.probe("unusable_disdrometer")
    if sc["radar_is_mwr"]:
        chain.add_lwp(scene, files["radar"])
        files["mwr"] = files["radar"]
        ctx.probe("radar_is_mwr")
    for k in ("radar", "lidar", "mwr", "disdrometer", "model"):
        h = sc["prov"][k]["history"]
        if h and k in files:
            ctx.fault("malformed_history_line", sum(when(x) is None for x in h))
            ctx.fault("repeated_history_line", len(h) - len(set(h)))
            ctx.probe("malformed_line", sum(when(x) is None for x in h))
    r = Run(ctx, sc)
    src = {k: attrs(p)[0] for k, p in files.items()}
    r.seen |= {a["file_uuid"] for a in src.values()}
    ctx.sim_s += max(scene["inst"]["radar"]["t"]) - min(scene["inst"]["radar"]["t"])
    cat = None
    n = {}
    done = []
    for k, st in enumerate(sc["steps"]):
        op = st["op"]
        if cat is None and op not in ("categorize", "epsilon"):
            continue
        r.at(st["clock"] + sc.get("gap", 60) * k)
        ctx.os.random((sc["seed"] + 7919 * k) % 2**62)
        if any(when(x) and when(x) > r.now for a in src.values() for x in a.get("history", "").split("\n")):
            ctx.probe("clock_behind_sources")
        out = ctx.path("out", f"{op}-{k}.nc")
        n[op] = n.get(op, 0) + 1
        ctx.fault("made_again", int(n[op] > 1))
        ctx.probe("regenerated", int(n[op] > 1))
        res = ctx.attempt(make, op, files, cat and cat[0], out, arg(st["uuid"]))
        ctx.log(op, res.kind)
        done.append((op, res.kind, bool(st["uuid"])))
        if not res.ok:
            if op == "categorize":
                return  # judged by C15
            continue  # judged by C16, C17
        at, var = attrs(out)
        ctx.log(hashlib.sha256(repr(sorted((x, str(y)) for x, y in at.items())).encode()).hexdigest()[:12])
        r.identity(op, res, st["uuid"], at)
        {"categorize": check_cat, "epsilon": check_epsilon, "l3": check_l3}.get(op, check_product)(r, op, at, var, files, src, cat)
        common(r, op, at, src["radar"])
        if ctx.violations:
            return
        if op == "categorize":
            cat = (out, at)
    ctx.state(done, sorted(files), sc["radar_is_mwr"], sc["bad_disdrometer"], [len(sc["prov"][k]["history"] or []) for k in sorted(files)])


def make(op, files, cat, out, u):
    import cloudnetpy.products as p
    from cloudnetpy.categorize import generate_categorize
    from cloudnetpy.model_evaluation.products.product_resampling import process_L3_day_product

    if op == "categorize":
        return generate_categorize(files, out, u)
    if op == "epsilon":
        return p.generate_epsilon_from_radar(files["radar"], files["model"], out, u)
    if op == "l3":
        model = out + ".model.nc"
        l3_model(files["model"], model)
        return process_L3_day_product("ecmwf", "cf", model, cat, out, u)
    return getattr(p, f"generate_{op}")(cat, out, u)


def l3_model(src, dst):
    """The same model file with the fields the evaluation needs."""
    import shutil

    import netCDF4

    shutil.copy(src, dst)
    with netCDF4.Dataset(dst, "r+") as nc:
        shape = nc["temperature"].shape
        for k, val in (("cloud_fraction", 0.3), ("qi", 1e-5), ("ql", 1e-5)):
            v = nc.createVariable(k, "f8", ("time", "level"))
            v.units = "1"
            v[:] = np.full(shape, val)
        v = nc.createVariable("horizontal_resolution", "f8", ())
        v.units = "km"
        v[:] = 9.0


def common(r, op, at, radar):
    for k in ("year", "month", "day", "location"):
        if str(at.get(k)) != str(radar[k]):
            r.ctx.violate("attribute", f"{op}:{k}", f"{at.get(k)!r} instead of {radar[k]!r}")
    want = {"categorize": "categorize", "epsilon": "epsilon-radar", "l3": "l3-cf"}.get(op, op)
    if at.get("cloudnet_file_type") != want:
        r.ctx.violate("attribute", f"{op}:type", f"{at.get('cloudnet_file_type')!r}")


def uuids(r, op, at, want):
    if sorted(at.get("source_file_uuids", "").split(", ")) != sorted(set(want)):
        r.ctx.violate("sources", f"{op}:uuids", f"source_file_uuids {at.get('source_file_uuids')!r} instead of {sorted(set(want))}")


def lines_of(a, model=False):
    if "history" not in a:
        return []
    h = a["history"].split("\n")
    return h[-1:] if model else h


def used(r, files):
    return [k for k in files if not (k == "disdrometer" and r.sc["bad_disdrometer"])]


def check_cat(r, op, at, var, files, src, cat):
    ctx = r.ctx
    ctx.probe("categorize")
    use = used(r, files)
    uuids(r, op, at, [src[k]["file_uuid"] for k in use])
    r.history(op, at, [lines_of(src[k], k == "model") for k in use])
    want = sorted({x for k in use for x in src[k]["source"].split("\n")})
    if sorted(at.get("source", "").split("\n")) != want:
        ctx.violate("sources", f"{op}:source", f"{at.get('source')!r} instead of {want}")
    pids = sorted({src[k]["instrument_pid"] for k in use if "instrument_pid" in src[k]})
    if sorted(at["source_instrument_pids"].split("\n") if "source_instrument_pids" in at else []) != pids:
        ctx.violate("sources", f"{op}:pids", f"{at.get('source_instrument_pids')!r} instead of {pids}")
    owner = {"Z": "radar", "v": "radar", "width": "radar", "ldr": "radar", "beta": "lidar", "lwp": "mwr", "rainfall_rate": "disdrometer" if "disdrometer" in use else "radar", "temperature": "model", "uwind": "model", "pressure": "model", "radar_frequency": "radar", "lidar_wavelength": "lidar"}
    for v, k in owner.items():
        if v not in var or k not in use:
            continue
        if var[v].get("source") != src[k]["source"]:
            ctx.violate("variable-source", v, f"{v} says {var[v].get('source')!r}, it comes from {src[k]['source']!r}")
        if var[v].get("source_instrument_pid") != src[k].get("instrument_pid"):
            ctx.violate("variable-source", f"{v}:pid", f"{v} says {var[v].get('source_instrument_pid')!r}, the instrument is {src[k].get('instrument_pid')!r}")


def check_product(r, op, at, var, files, src, cat):
    r.ctx.probe("products")
    uuids(r, op, at, [cat[1]["file_uuid"]])
    r.history(op, at, [lines_of(cat[1])])
    for k in ("source", "source_instrument_pids"):
        if at.get(k) != cat[1].get(k):
            r.ctx.violate("sources", f"{op}:{k}", f"{at.get(k)!r} instead of {cat[1].get(k)!r}")


def check_epsilon(r, op, at, var, files, src, cat):
    r.ctx.probe("epsilon")
    uuids(r, op, at, [src["radar"]["file_uuid"], src["model"]["file_uuid"]])
    r.history(op, at, [lines_of(src["radar"]), lines_of(src["model"], True)])
    want = sorted({x for k in ("radar", "model") for x in src[k]["source"].split("\n")})
    if sorted(at.get("source", "").split("\n")) != want:
        r.ctx.violate("sources", f"{op}:source", f"{at.get('source')!r} instead of {want}")
    if at.get("instrument_pid") != src["radar"].get("instrument_pid"):
        r.ctx.violate("sources", f"{op}:pid", f"{at.get('instrument_pid')!r}")


def check_l3(r, op, at, var, files, src, cat):
    r.ctx.probe("l3")
    uuids(r, op, at, [src["model"]["file_uuid"], cat[1]["file_uuid"]])
    r.history(op, at, [lines_of(src["model"], True), lines_of(cat[1])])
    names = [os.path.basename(cat[0]), f"{op}"]
    if names[0] not in at.get("source", "").split("\n"):
        r.ctx.violate("sources", f"{op}:source", f"{at.get('source')!r} does not name {names[0]}")
    if at.get("source_instrument_pids") != cat[1].get("source_instrument_pids"):
        r.ctx.violate("sources", f"{op}:pids", f"{at.get('source_instrument_pids')!r}")
