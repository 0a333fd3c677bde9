"""C04: a corrupt raw file costs at most its own records."""

import os

from dst import attribution as at
from dst.core import derive
from dst.devices.registry import devices

ID = "C04"
LEVEL = "exploration"
RULE = "a run counts when at least one of several raw files was damaged and its event log is new"
QUICK_RUNS = 2200
THOROUGH_RUNS = 40000
REAL = ["cloudnetpy *2nc converters for instruments that deliver several files a day, concat_lib, netCDF4/HDF5"]
STUB = ["instruments (scenario-driven raw file writers)", "rpgpy binary reader (RPG cloud radar only)", "wall clock", "kernel randomness", "directory listing order"]
STATE_MEASURE = "device x number of files x damaged positions x damage kinds x delivery order"
SHRINK = ["files.*.recs"]
DEVICES = ("mira", "mira_folder", "copernicus", "galileo", "mrr", "mrr_list", "chm15k", "cl61d", "da10", "pollyxt", "wr", "hatpro", "rpg", "cl31", "cl51", "cs135")
NETCDF = ("mira", "mira_folder", "copernicus", "galileo", "mrr", "mrr_list", "chm15k", "cl61d", "da10", "pollyxt")
STRUCTURE = ("foreign_netcdf", "lost_variable", "empty_netcdf")
BINARY = ("empty", "truncated", "garbage", "html", "bitrot", "bitrot", "bitrot")
#: bit rot is only detectable where the format carries checksums
NO_ROT = ("hatpro", "cl31", "cl51", "cs135", "wr", "rpg")


def warmup():
    import cloudnetpy.instruments  # noqa: F401


def usable():
    d = devices("ncremote", "textremote", "binremote")
    return {k: d[k] for k in DEVICES}


def gen(rng, tier):
    devs = usable()
    name = os.environ.get("DST_DEVICE") or rng.cycle(sorted(devs))
    dev = devs[name]
    nfiles = rng.choice([2, 3, 3, 4, 5])
    per = 1 if getattr(dev, "one_record_files", False) else rng.choice([2, 3, 4])
    start = rng.randrange(0, (86400 - nfiles * per * dev.dt) // dev.dt) * dev.dt
    files = []
    k = 0
    for i in range(nfiles):
        recs = [{"t": start + (k + j) * dev.dt, "id": k + j + 1} for j in range(per)]
        k += per
        files.append({"recs": recs})
    kinds = [x for x in BINARY if not (x == "bitrot" and name in NO_ROT)]
    if name in NETCDF and rng.random() < 0.4:
        kinds = list(STRUCTURE) if name == "pollyxt" else ["foreign_netcdf", "empty_netcdf"]
    for i in rng.sample(range(nfiles), rng.choice([1, 1, 1, 2]) if nfiles > 2 else 1):
        files[i]["damage"] = rng.choice(kinds)
        files[i]["where"] = round(rng.random(), 6)
    opts = dev.gen_opts(rng, [r for f in files for r in f["recs"]]) if hasattr(dev, "gen_opts") else {}
    order = list(range(nfiles))
    if rng.random() < 0.5:
        rng.shuffle(order)
    return {"device": name, "opts": opts, "files": files, "order": order, "time_last": rng.random() < 0.5, "listing": rng.choice([0, rng.randrange(1, 2**31)])}


def restructure(path, kind, where, timed):
    """The file is a readable netCDF file, but not what the instrument writes."""
    import netCDF4

    if kind == "lost_variable":
        with netCDF4.Dataset(path, "a") as nc:
            if "SNR_1064nm" in nc.variables:
                nc.renameVariable("SNR_1064nm", "renamed")
        return
    with netCDF4.Dataset(path, "w") as nc:
        if kind == "foreign_netcdf":
            nc.title = "Model output"
            nc.createDimension("lat", 3)
            nc.createVariable("lat", "f4", ("lat",))[:] = [1, 2, 3]
            if where > 0.5 and timed:
                nc.createDimension("time", None)
                v = nc.createVariable("time", "f8", ("time",))
                v.units = "hours since 2025-02-09 00:00:00"
                v[:] = [1, 2, 3]
                nc.createVariable("tas", "f4", ("time", "lat"))[:] = 280.0


def damage(path, kind, where, seed, timed=True):
    if kind in STRUCTURE:
        restructure(path, kind, where, timed)
        return
    with open(path, "rb") as f:
        blob = f.read()
    rnd = bytes(derive(seed, i) & 0xFF for i in range(300))
    if kind == "empty":
        blob = b""
    elif kind == "truncated":
        blob = blob[: max(1, int(len(blob) * where * 0.98))]
    elif kind == "garbage":
        blob = rnd
    elif kind == "html":
        blob = b"<html><head><title>502 Bad Gateway</title></head><body>502</body></html>\n"
    elif kind == "bitrot":
        blob = rot(blob, where)
    with open(path, "wb") as f:
        f.write(blob)


def rot(blob, where):
    """Garble the stored data of one chunk (files are written with checksums)."""
    hits = [k for k in range(len(blob) - 40) if blob[k : k + 2] in (b"\x78\x5e", b"\x78\x9c", b"\x78\x01")]
    a = hits[int(where * len(hits)) % len(hits)] + 6 if hits else int(len(blob) * (0.3 + 0.65 * where))
    return blob[:a] + bytes(b ^ 0xA5 for b in blob[a : a + 8]) + blob[a + 8 :]


def siblings(dev, path):
    """All physical files behind one delivery unit."""
    stem = os.path.splitext(path)[0]
    out = [path]
    if dev.name == "hatpro":
        out = [p for p in (stem + ".LWP", stem + ".IWV") if os.path.exists(p)]
    if dev.name == "pollyxt":
        out = [path, path.replace("att_bsc", "vol_depol")]
    return out


def run(ctx, sc):
    dev = usable()[sc["device"]]
    if hasattr(dev, "configure"):
        dev.configure(sc["opts"])
    dev.checksummed = any(f.get("damage") == "bitrot" for f in sc["files"])
    dev.time_last = sc.get("time_last", False)
    key = dev.name
    ctx.os.listing(sc["listing"])
    paths = []
    for i, f in enumerate(sc["files"]):
        p = ctx.path("raw", dev.file_name(i, f["recs"]))
        dev.write(p, f["recs"], {})
        paths.append(p)
    recs, good = [], 0
    for i, f in enumerate(sc["files"]):
        if not f["recs"]:
            continue
        kind = f.get("damage")
        if kind:
            ctx.fault(f"file_{kind}")
            sib = siblings(dev, paths[i])
            if kind == "lost_variable":
                sib = sib[:1]
            for p in sib if f["where"] < 0.5 else sib[-1:]:
                damage(p, kind, f["where"], sc["seed"], getattr(dev, "time_dim", "time") != "profile")
            recs += [{**r, "f": "file"} for r in f["recs"]]
        else:
            good += 1
            recs += f["recs"]
    if not good:
        return
    order = [k for k in sc["order"] if k < len(paths)]
    if order != sorted(order):
        ctx.fault("delivery_reorder")
    if sc["listing"]:
        ctx.fault("listing_shuffle")
    out = ctx.path("out", f"{dev.name}.nc")
    o = ctx.attempt(dev.convert, [paths[k] for k in order], out, dev.day)
    ctx.log("convert", dev.name, o.kind)
    ctx.state(dev.name, [f.get("damage") for f in sc["files"]], order, o.kind)
    ctx.sim_s += len(recs) * dev.dt
    if not o.ok:
        ctx.probe("refused")
        intact = [r for r in recs if not r.get("f")]
        # damage inside the container of the leading file may be refused (loudly)
        names = [(os.path.basename(paths[i]), f.get("damage")) for i, f in enumerate(sc["files"]) if f.get("damage") in (None, "bitrot")]
        rot_first = (min(names)[1] == "bitrot" or key == "pollyxt") and "HDF error" in str(o.exc)
        if len(intact) >= max(2, dev.min_records) and not rot_first:
            ctx.violate("not-isolated", f"{key}:{o.kind}", f"one damaged file made the whole day fail: {o!r}\n{(o.tb or '')[-900:]}")
        return
    ctx.probe("converted")
    names = list(dev.expected(recs[0])) + list(getattr(dev, "axes", dict)())
    prod = at.read_product(out, names)
    at.check_product(ctx, dev, prod, recs, key)
    ctx.log("product", [round(float(t) * 3600, 1) for t in prod["time"]])


def simplify(sc):
    import copy

    for i, f in enumerate(sc["files"]):
        if f.get("damage") and sum(1 for g in sc["files"] if g.get("damage")) > 1:
            c = copy.deepcopy(sc)
            del c["files"][i]["damage"]
            yield c
    if sc.get("order") != sorted(sc.get("order", [])):
        yield {**copy.deepcopy(sc), "order": sorted(sc["order"])}
