"""Operations of the library as scenario data: the same operation can be run in any process, any number of times.

An operation is plain JSON with the raw material (records, scene, files), is prepared once
(writes its input files) and then executed by `execute`, which returns what a user sees:
the outcome kind and the content of the output file.
"""

import hashlib
import os

import numpy as np
from numpy import ma

from dst import attribution as at
from dst import chain
from dst.core import SIM_EPOCH, derive
from dst.devices.registry import devices

GROUPS = ("ws", "gauge", "disdro", "ncremote", "textremote", "binremote")
PRODUCTS = ("classification", "iwc", "ier", "lwc", "der")


def warmup():
    import cloudnetpy.categorize
    import cloudnetpy.concat_lib
    import cloudnetpy.instruments
    import cloudnetpy.model_evaluation.products.product_resampling
    import cloudnetpy.products
    import cloudnetpy.products.epsilon_lidar
    import cloudnetpy.products.epsilon_radar  # noqa: F401


def usable():
    return {k: d for k, d in devices(*GROUPS).items() if not d.reader}


# ------------------------------------------------------------- generation

def gen_device(rng, tier, name=None):
    devs = usable()
    name = os.environ.get("DST_DEVICE") or name or rng.cycle(sorted(devs))
    dev = devs[name]
    n = rng.choice([3, 4, 6, 9])
    recs = at.gen_records(rng, dev, n, [])
    if getattr(dev, "one_record_files", False):
        files = [{"recs": [r]} for r in recs]
    else:
        files = at.split_files(rng, recs, dev.multi, 3)
    opts = dev.gen_opts(rng, recs) if hasattr(dev, "gen_opts") else {}
    op = {"op": "device", "device": name, "opts": opts, "files": files, "day_shift": 0, "site": rng.randrange(3)}
    if rng.random() < 0.3:  # another day
        op["day_shift"] = rng.choice([-2, 1, 30])
        for f in files:
            for r in f["recs"]:
                r["t"] += 86400 * op["day_shift"]
    r = rng.random()
    if r < 0.12:
        op["day_shift"] = rng.choice([-3, 5])  # a day without data: refused
    elif r < 0.22:
        op["junk"] = {"i": rng.randrange(len(files)), "kind": rng.choice(["empty", "garbage", "truncated"])}
    return op


def gen_chain(rng, tier):
    sc = chain.gen_scene(rng, tier, max_minutes=12)
    if rng.random() < 0.5:
        sc["use"] = sorted({*sc["use"], "mwr"})
    return {"op": "chain", "scene": sc, "product": rng.choice([*["categorize"] * 5, *PRODUCTS])}


def gen_concat(rng, tier):
    from dst.props import c05

    while True:
        sc = c05.gen(rng, tier)
        if sc["op"] != "text":
            break
    sc["io"] = None
    return {"op": sc["op"], "scene": sc}


def gen_l3(rng, tier):
    from dst.props import c17

    sc = c17.gen(rng, tier)
    sc["old"] = None
    return {"op": "l3", "scene": sc}


def gen_epsilon(rng, tier):
    from dst.props import c18

    return {"op": "epsilon", "scene": c18.gen(rng, tier)}


def gen_op(rng, tier, weights=(0.68, 0.2, 0.12)):
    r = rng.random()
    if r < 0.05:
        return gen_l3(rng, tier)
    if r < 0.08:
        return gen_epsilon(rng, tier)
    r = rng.random()
    if r < weights[0]:
        return gen_device(rng, tier)
    if r < weights[0] + weights[1]:
        return gen_chain(rng, tier)
    return gen_concat(rng, tier)


def label(op):
    if op["op"] == "device":
        return op["device"]
    if op["op"] == "chain":
        return op["product"]
    if op["op"] == "epsilon":
        return f"epsilon-{op['scene']['kind']}"
    return op["op"]


# ------------------------------------------------------------- preparation

def prepare(ctx, op, k):
    """Write the inputs of operation number k; returns a plain dict that execute understands."""
    base = f"op{k}"
    os.makedirs(ctx.path(base, "raw", "x")[:-2], exist_ok=True)
    if op["op"] == "device":
        dev = usable()[op["device"]]
        if hasattr(dev, "configure"):
            dev.configure(op["opts"])
        paths = []
        for i, f in enumerate(op["files"]):
            p = ctx.path(base, "raw", dev.file_name(i, f["recs"]))
            dev.write(p, f["recs"], f.get("opts", {}))
            paths.append(p)
        if op.get("junk") and paths:
            _damage(paths[op["junk"]["i"] % len(paths)], op["junk"]["kind"])
        return {"paths": paths, "dir": ctx.path(base, "raw", "x")[:-2]}
    if op["op"] == "chain":
        sc = {**op["scene"], "seed": derive(ctx.sc["seed"], k, op.get("salt", 0)) % 2**62}
        for i in sc["inst"].values():
            i["blank"] = [b for b in i["blank"] if b in i["t"]]
        files = chain.write_inputs(sc, lambda n: ctx.path(base, "raw", n))
        prep = {"paths": list(files.values()) if isinstance(files, dict) else list(files), "files": files, "dir": ctx.path(base, "raw", "x")[:-2]}
        if op["product"] != "categorize":
            cat = ctx.path(base, "raw", "categorize.nc")
            code, res = ctx.in_child(_make_categorize, files, cat)
            prep["cat"] = cat
            prep["paths"] = [cat]
            prep["no_cat"] = not os.path.exists(cat)
        return prep
    if op["op"] == "l3":
        from dst.props import c17

        obs, mod = ctx.path(base, "raw", "obs.nc"), ctx.path(base, "raw", "model.nc")
        c17.write_obs(op["scene"], obs)
        c17.write_model(op["scene"], mod)
        return {"paths": [obs, mod], "dir": ctx.path(base, "raw", "x")[:-2]}
    if op["op"] == "epsilon":
        from dst.props import c18

        sc = {**op["scene"], "seed": derive(ctx.sc["seed"], k, op.get("salt", 0)) % 2**62}
        radar = sc["kind"] == "radar"
        vel, wind = ctx.path(base, "raw", "velocity.nc"), ctx.path(base, "raw", "wind.nc")
        (c18.write_radar if radar else c18.write_lidar)(sc, vel, True)
        (c18.write_model if radar else c18.write_wind)(sc, wind, True)
        return {"paths": [vel, wind], "dir": ctx.path(base, "raw", "x")[:-2]}
    from dst.props import c05

    sc = {**op["scene"], "seed": derive(ctx.sc["seed"], k, op.get("salt", 0)) % 2**62}
    paths = []
    for f in sc["files"]:
        p = ctx.path(base, "raw", f["name"])
        c05.write(sc, f, p)
        paths.append(p)
    return {"paths": paths, "dir": ctx.path(base, "raw", "x")[:-2]}


def _make_categorize(files, out):
    from cloudnetpy.categorize import generate_categorize

    try:
        generate_categorize(files, out)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__
    return "ok"


def _damage(path, kind):
    if kind == "empty":
        open(path, "wb").close()
        return
    with open(path, "rb") as f:
        blob = f.read()
    with open(path, "wb") as f:
        f.write(blob[: len(blob) // 3] if kind == "truncated" else b"\x00garbage" * 40)


# ------------------------------------------------------------- execution

def call(ctx, op, prep, out, uuid=None):
    """Execute the operation (raises what the library raises)."""
    if op["op"] == "device":
        import datetime

        dev = usable()[op["device"]]
        if hasattr(dev, "configure"):
            dev.configure(op["opts"])
        day = dev.day + datetime.timedelta(days=op["day_shift"])
        site = dev.site
        dev.site = {**site, "latitude": site["latitude"] + op["site"], "altitude": site["altitude"] + 10 * op["site"]}
        try:
            return dev.convert(prep["paths"], out, day, uuid)
        finally:
            dev.site = site
    if op["op"] == "chain":
        if op["product"] == "categorize":
            from cloudnetpy.categorize import generate_categorize

            return generate_categorize(prep["files"], out, uuid)
        import cloudnetpy.products as p

        return getattr(p, f"generate_{op['product']}")(prep["cat"], out, uuid)
    if op["op"] == "l3":
        from cloudnetpy.model_evaluation.products.product_resampling import process_L3_day_product

        obs, mod = prep["paths"]
        return process_L3_day_product("ecmwf", op["scene"]["product"], mod, obs, out, uuid, overwrite=True)
    if op["op"] == "epsilon":
        import cloudnetpy.products as p

        make = p.generate_epsilon_from_radar if op["scene"]["kind"] == "radar" else p.generate_epsilon_from_lidar
        return make(*prep["paths"], out, uuid)
    from cloudnetpy.concat_lib import bundle_netcdf_files, concatenate_files

    from dst.props import c05

    sc = op["scene"]
    if op["op"] == "bundle":
        r = bundle_netcdf_files(prep["paths"], c05.DAY, out)
    else:
        r = concatenate_files(prep["paths"], out, variables=sc["keep"], ignore=sc["ignore"], new_attributes={"stamp": "sim"})
    return [os.path.basename(str(x)) for x in r]


def at_moment(ctx, k):
    """Same simulated moment and same randomness for operation k wherever it runs."""
    import random

    seed = derive(ctx.sc["seed"], "op", k)
    ctx.os.clock(SIM_EPOCH + k * 977)
    ctx.os.random(seed)
    random.seed(seed)
    np.random.seed(seed % 2**32)


def execute(ctx, op, prep, out, k, uuid=None):
    at_moment(ctx, k)
    if prep.get("no_cat"):
        return {"kind": "skipped"}
    o = ctx.attempt(call, ctx, op, prep, out, uuid)
    return {"kind": o.kind, "msg": "" if o.ok else str(o.exc)[:300], "tb": (o.tb or "")[-900:], "content": content(out) if o.ok and os.path.exists(out) else None, "exists": os.path.exists(out)}


def _attr(v):
    return v if isinstance(v, str) else np.asarray(v).tolist()


def content(path):
    """Everything a reader can see in a netCDF file."""
    import netCDF4

    with netCDF4.Dataset(path) as nc:
        nc.set_auto_maskandscale(False)
        res = {
            "dims": {k: len(d) for k, d in nc.dimensions.items()},
            "attrs": {k: _attr(nc.getncattr(k)) for k in nc.ncattrs()},
            "vars": {},
        }
        for k, v in nc.variables.items():
            a = v[:]
            res["vars"][k] = {
                "dtype": str(v.dtype),
                "dims": v.dimensions,
                "attrs": {x: _attr(v.getncattr(x)) for x in v.ncattrs()},
                "sha": hashlib.sha256(np.ascontiguousarray(ma.getdata(a)).tobytes()).hexdigest()[:16],
                "head": np.asarray(ma.getdata(a)).ravel()[:4].tolist(),
            }
    return res


def first_difference(a, b):
    """(key, text) of the first difference between two contents or None."""
    for part in ("dims", "attrs", "vars"):
        x, y = a[part], b[part]
        if part != "attrs" and sorted(x) != sorted(y):
            only = sorted(set(x) ^ set(y))
            return f"{part}", f"only in one of the files: {only[:6]}"
        for k in sorted({*x, *y}):
            if k not in x or k not in y:
                return f"attrs:{k}", f"global attribute {k} only in one of the files"
            if part == "vars":
                for f in ("dtype", "dims", "attrs", "sha"):
                    if repr(x[k][f]) != repr(y[k][f]):
                        return f"{k}:{'data' if f == 'sha' else f}", f"{k} {f}: {(x[k]['head'] if f == 'sha' else x[k][f])!r} / {(y[k]['head'] if f == 'sha' else y[k][f])!r}"
            elif repr(x[k]) != repr(y[k]):
                return f"{part}:{k}", f"{k}: {x[k]!r} / {y[k]!r}"
    return None


def digest_dir(path):
    res = {}
    if path is None:
        return res
    for root, _, names in os.walk(path):
        for n in names:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                res[os.path.relpath(p, path)] = hashlib.sha256(f.read()).hexdigest()[:16]
    return res
