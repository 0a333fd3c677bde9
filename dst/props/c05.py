"""C05: concatenating files is lossless and keeps heights, units and order."""

import datetime
import os

import numpy as np
from numpy import ma

from dst import simos
from dst.core import derive

ID = "C05"
LEVEL = "exploration"
RULE = "a run counts when a configuration change between files, a delivery fault or an I/O fault was injected and its event log is new"
QUICK_RUNS = 4000
THOROUGH_RUNS = 120000
REAL = ["cloudnetpy.concat_lib (concatenate_files, bundle_netcdf_files, concatenate_text_files)", "netCDF4/HDF5"]
STUB = ["instrument that writes the files (scenario-driven)", "wall clock", "disk (injected read and write errors)"]
STATE_MEASURE = "operation x variables x per-file configuration pattern x delivery order x I/O fault kind x outcome"
SHRINK = ["files", "vars"]
DAY = datetime.date(2025, 2, 10)
DTYPES = ["f4", "f8", "i4", "i2"]
SHAPES = [("time",), ("time", "range"), ("time", "range", "chan"), ("time", "chan", "range"), ("time", "chan"), (), ("range",), ("chan",)]


def warmup():
    import cloudnetpy.concat_lib  # noqa: F401
    import netCDF4  # noqa: F401


def gen(rng, tier):
    op = rng.choice(["concat", "concat", "concat", "bundle", "text"])
    n = rng.choice([1, 2, 2, 3, 4, 6])
    if op == "text":
        files = [{"name": f"t{rng.randrange(1000)}_{i}.txt", "size": rng.choice([0, 1, 7, 100, 5000, 70000]), "nl": rng.random() < 0.7} for i in range(n)]
        rng.shuffle(files)
        return {"op": op, "files": files, "io": _io(rng)}
    vars_ = []
    for i in range(rng.randrange(1, 6)):
        dims = rng.choice(SHAPES)
        packed = bool(dims) and "time" in dims and rng.random() < 0.35
        vars_.append({
            "name": f"v{i}",
            "dims": list(dims),
            "dtype": "i4" if packed else rng.choice(DTYPES),
            "packed": packed,
            "fill": rng.choice([None, -999, -32000]),
            "holes": rng.random() < 0.4,
        })
    kinds = rng.sample(["axis_size", "axis_values", "packing", "missing", "epoch", "fill", "static_change"], rng.randrange(0, 4))
    base = {"n": rng.choice([3, 4, 5, 8]), "start": rng.choice([0, 15, 100]), "step": rng.choice([5, 10, 30])}
    files = []
    t = rng.choice([0, 30, 3600])
    names = rng.sample(range(1000), n)
    if rng.random() < 0.7:
        names.sort()
    for i in range(n):
        m = rng.choice([1, 1, 2, 3, 5])
        day = 0
        if op == "bundle" and rng.random() < 0.3:
            day = rng.choice([-1, 1, 30])
        f = {"name": f"f{names[i]:04d}.nc", "day": day, "times": [t + 30 * j for j in range(m)], "range": dict(base), "pack": 0, "fill": 0, "missing": [], "epoch": 0, "static": 0}
        if op == "bundle" and rng.random() < 0.1:
            f["times"] = [86400 - 30 * (m - j) if j < m - 1 else 86400 + 30 * j for j in range(m)]
        t += 30 * m
        if i and kinds and rng.random() < 0.7:
            if "axis_size" in kinds:
                f["range"]["n"] = rng.choice([2, 3, 5, 6, 9])
            if "axis_values" in kinds:
                f["range"]["start"] += rng.choice([-10, 5, 7, 60])
                f["range"]["step"] = rng.choice([5, 10, 20, 30])
            f["pack"] = rng.choice([1, 2]) if "packing" in kinds else 0
            f["fill"] = 1 if "fill" in kinds else 0
            f["static"] = rng.choice([0, 1, 2]) if "static_change" in kinds else 0
            f["epoch"] = rng.choice([1, 30]) if "epoch" in kinds else 0
            f["missing"] = [v["name"] for v in vars_ if rng.random() < 0.4] if "missing" in kinds else []
        files.append(f)
    if rng.random() < 0.6:
        rng.shuffle(files)
    if rng.random() < 0.3:  # delivered into several folders
        for f in files:
            f["dir"] = rng.choice(["a", "b", "c"])
    sc = {"op": op, "vars": vars_, "files": files, "io": _io(rng), "keep": None, "ignore": None}
    if op == "concat" and rng.random() < 0.25:
        sc["keep"] = [v["name"] for v in vars_ if rng.random() < 0.6]
    if op == "concat" and rng.random() < 0.25:
        sc["ignore"] = [v["name"] for v in vars_ if rng.random() < 0.3]
    if rng.random() < 0.1:
        sc["junk"] = {"name": f"f{rng.randrange(1000):04d}x.nc", "kind": rng.choice(["empty", "garbage", "no_time"])}
    return sc


def _io(rng):
    if rng.random() < 0.6:
        return None
    if rng.random() < 0.5:
        return {"w": rng.choice([1, 5, 6]), "w_at": rng.randrange(0, 60), "r": 0, "r_at": 0}
    return {"w": 0, "w_at": 0, "r": rng.choice([1, 1, 2, 3]), "r_at": rng.randrange(0, 120)}


PACK = [(0.01, 0.0), (0.005, 10.0), (0.02, -40.0)]
FILLS = {None: [None, -31000], -999: [-999, -31111], -32000: [-32000, -999]}


def phys(sc, f, v, shape):
    """The physical values the instrument measured (multiples of 0.02, or integers)."""
    seed = derive(sc["seed"], f["name"] if "time" in v["dims"] else f["static"], v["name"])
    r = np.random.default_rng(seed % 2**63)
    a = r.integers(1, 4000, size=shape)
    vals = ma.array(a * 0.02 if (v["packed"] or v["dtype"][0] == "f") else a, mask=np.zeros(shape, bool))
    if v["holes"] and "time" in v["dims"]:
        vals[r.random(shape) < 0.2] = ma.masked
    return vals


def axis(f):
    return f["range"]["start"] + f["range"]["step"] * np.arange(f["range"]["n"], dtype=float)


def size(f, d):
    return {"time": len(f["times"]), "range": f["range"]["n"], "chan": 3}[d]


def ref_date(f):
    return DAY + datetime.timedelta(days=f["day"] - f["epoch"])


def write(sc, f, path):
    import netCDF4

    with netCDF4.Dataset(path, "w", format="NETCDF4" if sc["seed"] % 2 else "NETCDF4_CLASSIC") as nc:
        nc.createDimension("time", None)
        nc.createDimension("range", f["range"]["n"])
        nc.createDimension("chan", 3)
        t = nc.createVariable("time", "f8", ("time",))
        t.units = f"seconds since {ref_date(f)} 00:00:00"
        t[:] = np.array(f["times"], float) + 86400.0 * f["epoch"]
        r = nc.createVariable("range", "f4", ("range",))
        r.units = "m"
        r[:] = axis(f)
        nc.title = f"file {f['name']}"
        for v in sc["vars"]:
            if v["name"] in f["missing"]:
                continue
            fill = FILLS[v["fill"]][f["fill"]]
            x = nc.createVariable(v["name"], v["dtype"], tuple(v["dims"]), fill_value=fill, zlib=bool(v["dims"]))
            x.long_name = f"variable {v['name']}"
            if v["packed"]:
                x.scale_factor, x.add_offset = PACK[f["pack"]]
            val = phys(sc, f, v, tuple(size(f, d) for d in v["dims"]))
            x[:] = val


def expected(sc, order, v):
    """Reference model: list over profiles of arrays (masked) on the axis of the first file."""
    first = order[0]
    dims = [d for d in v["dims"] if d != "time"]
    shape = tuple(size(first, d) for d in dims)
    out = []
    for f in order:
        m = len(f["times"])
        if v["name"] in f["missing"]:
            out += [(None, None, ma.masked_all(shape))] * m
            continue
        val = phys(sc, f, v, tuple(size(f, d) for d in v["dims"]))
        for j in range(m):
            p = val[j] if "time" in v["dims"] else val
            out.append((f, j, p))
    return out, shape, dims


def nearest(x, target):
    """All acceptable source gates of a target gate ([] = outside the measured range)."""
    if target < x.min() - 1e-3 or target > x.max() + 1e-3:
        return []
    d = np.abs(x - target)
    return list(np.where(d <= d.min() + 1e-3)[0])


def check_profile(got, f, p, first, dims, tol):
    """True if got (on first's axis) is p (on f's axis) moved to the nearest gates."""
    got = ma.masked_array(got)
    if f is None or "range" not in dims:
        return _same(got, p, tol)
    ax = dims.index("range")
    x, target = axis(f), axis(first)
    gotr = ma.array(np.moveaxis(got.filled(np.nan if got.dtype.kind == "f" else -1), ax, 0), mask=np.moveaxis(ma.getmaskarray(got), ax, 0))
    pr = ma.array(np.moveaxis(ma.getdata(p), ax, 0), mask=np.moveaxis(ma.getmaskarray(p), ax, 0))
    for k, tk in enumerate(target):
        cands = nearest(x, tk)
        if not cands:
            if not ma.getmaskarray(gotr[k]).all():
                return False
            continue
        if not any(_same(gotr[k], pr[c], tol) for c in cands):
            return False
    return True


def _same(a, b, tol):
    ma_, mb = ma.getmaskarray(ma.masked_array(a)), ma.getmaskarray(ma.masked_array(b))
    if ma_.shape != mb.shape or not (ma_ == mb).all():
        return False
    d = np.abs(np.asarray(ma.getdata(a), float) - np.asarray(ma.getdata(b), float))
    return bool((d[~ma_] <= tol).all()) if d.ndim else bool(ma_ or d <= tol)


def run(ctx, sc):
    if not sc["files"]:
        return
    (run_text if sc["op"] == "text" else run_nc)(ctx, sc)


def run_text(ctx, sc):
    paths = []
    for f in sc["files"]:
        r = np.random.default_rng(derive(sc["seed"], f["name"]) % 2**63)
        data = r.integers(0, 256, f["size"]).astype(np.uint8).tobytes() + (b"\r\n" if f["nl"] else b"")
        p = ctx.path("in", f["name"])
        with open(p, "wb") as fh:
            fh.write(data)
        paths.append((p, data))
    out = ctx.path("out", "all.txt")
    ctx.fault("delivery_order")

    def go():
        from cloudnetpy.concat_lib import concatenate_text_files

        return concatenate_text_files([p for p, _ in paths], out)

    kind, val = with_io(ctx, sc, go)
    ctx.log("text", kind)
    ctx.state("text", len(paths), sc["io"] and (sc["io"]["w"], sc["io"]["r"]), kind)
    if kind == "ok":
        with open(out, "rb") as fh:
            got = fh.read()
        if got != b"".join(d for _, d in paths):
            ctx.violate("text-bytes", "concatenate_text_files", f"output of {len(got)} bytes is not the files one after the other ({sum(len(d) for _, d in paths)} bytes)")
    elif not sc["io"]:
        ctx.violate("refused", f"text:{kind}", f"concatenation failed: {val}")


def with_io(ctx, sc, fn):
    """Run in a child process with the scenario's I/O fault armed."""
    io = sc["io"]

    def child():
        so = simos.get()
        if io:
            so.arm(io["w"], io["w_at"], 50, io["r"], io["r_at"], None)
        try:
            r = ("ok", fn())
        except Exception as e:  # noqa: BLE001
            r = (type(e).__name__, str(e)[:300])
        hit = so.fired()
        so.disarm()
        return (*r, hit)

    code, res = ctx.in_child(child)
    if res is None:
        ctx.log("died", str(code))
        return "died", f"exit status {code}"
    if res[0] == "harness":
        from dst.core import HarnessError

        raise HarnessError(res[1])
    kind, val, hit = res[1]
    if io and hit:
        ctx.fault({1: "disk_full", 5: "short_write", 6: "write_eio"}[io["w"]] if io["w"] else {1: "read_eio", 2: "open_eio", 3: "sticky_read_eio"}[io["r"]])
        return kind, val
    sc["io"] = None
    return kind, val


def run_nc(ctx, sc):
    paths = {}
    for f in sc["files"]:
        p = ctx.path("in", *([f["dir"]] if f.get("dir") else []), f["name"])
        write(sc, f, p)
        paths[p] = f
        if f.get("dir"):
            ctx.fault("delivery_folders")
    plist = list(paths)
    if sc.get("junk"):
        junk = ctx.path("in", sc["junk"]["name"])
        write_junk(sc, junk)
        plist.insert(derive(sc["seed"], "junk") % (len(plist) + 1), junk)
        ctx.fault(f"junk_file_{sc['junk']['kind']}")
    names = [f["name"] for f in sc["files"]]
    if names != sorted(names):
        ctx.fault("delivery_order")
    base = min(sc["files"], key=lambda f: f["name"])
    for f in sc["files"]:
        for k in ("range", "pack", "epoch", "fill", "static"):
            if f[k] != base[k]:
                ctx.fault(f"change_{k}")
        if f["missing"]:
            ctx.fault("missing_variable")
    out = ctx.path("out", "all.nc")
    bundle = sc["op"] == "bundle"

    def go():
        from cloudnetpy.concat_lib import bundle_netcdf_files, concatenate_files

        if bundle:
            r = bundle_netcdf_files(plist, DAY, out)
        else:
            r = concatenate_files(plist, out, variables=sc["keep"], ignore=sc["ignore"], new_attributes={"stamp": "sim"})
        return [os.path.basename(str(x)) for x in r]

    single_copy = bundle and len(plist) == 1
    faulted = sc["io"]
    kind, val = with_io(ctx, sc, go)
    faulted = sc["io"]
    has_day = [f for f in sc["files"] if not bundle or any(0 <= t + 86400 * f["day"] < 86400 for t in f["times"])]
    ctx.log(sc["op"], kind, val if kind == "ok" else None)
    ctx.state(sc["op"], [v["dims"] for v in sc["vars"]], [(f["pack"], f["epoch"], f["range"] != base["range"], bool(f["missing"])) for f in sc["files"]], names != sorted(names), faulted and (faulted["w"], faulted["r"]), kind)
    if kind != "ok":
        if faulted:
            ctx.probe("failed_loudly")
            return
        if not has_day and kind == "ValidTimeStampError":
            ctx.probe("nothing_to_concatenate")
            return
        junk_first = sc.get("junk") and sc["junk"]["kind"] == "no_time"
        if junk_first:
            return
        ctx.violate("refused", f"{sc['op']}:{kind}", f"concatenation of intact files failed: {kind} {val}")
        return
    ctx.probe("concatenated")
    by_name = {f["name"]: f for f in sc["files"]}
    if single_copy:
        with open(out, "rb") as a, open(plist[0], "rb") as b:
            if a.read() != b.read():
                ctx.violate("copy", "bundle:single", "bundling one file did not copy it")
        return
    listed = [by_name[n] for n in val if n in by_name]
    if len(set(val)) != len(val) or any(n not in by_name for n in val):
        ctx.violate("returned-list", sc["op"], f"returned files {val}, intact files {sorted(by_name)}")
        return
    if not faulted and {f["name"] for f in listed} != {f["name"] for f in has_day}:
        ctx.violate("returned-list", sc["op"], f"returned {val}, files with data {[f['name'] for f in has_day]}")
        return
    order = sorted(listed, key=lambda f: f["name"])
    compare(ctx, sc, out, order)


def write_junk(sc, path):
    import netCDF4

    k = sc["junk"]["kind"]
    if k == "no_time":
        with netCDF4.Dataset(path, "w") as nc:
            nc.createDimension("time", None)
            nc.createDimension("range", 20000)
            nc.createVariable("time", "f8", ("time",)).units = f"seconds since {DAY} 00:00:00"
            nc.createVariable("range", "f4", ("range",))[:] = 0
        return
    with open(path, "wb") as fh:
        fh.write(b"" if k == "empty" else b"\x00garbage" * 400)


def compare(ctx, sc, out, order):
    import netCDF4

    if not order:
        ctx.violate("returned-list", sc["op"], "success, but no file was concatenated")
        return
    with netCDF4.Dataset(out) as nc:
        got = {k: (nc[k][:], nc[k].dimensions) for k in nc.variables}
        units = nc["time"].units
        attrs = {k: nc.getncattr(k) for k in nc.ncattrs()}
        longs = {k: getattr(nc[k], "long_name", None) for k in nc.variables}
    first = order[0]
    if units != f"seconds since {ref_date(first)} 00:00:00":
        ctx.violate("time-units", sc["op"], units)
        return
    ref = datetime.datetime.combine(ref_date(first), datetime.time())
    def absolute(f):
        return [(datetime.datetime.combine(ref_date(f), datetime.time()) - ref).total_seconds() + t + 86400.0 * f["epoch"] for t in f["times"]]
    want = [t for f in order for t in absolute(f)]
    times = [float(t) for t in got["time"][0]]
    if times != want:
        ctx.violate("time-axis", sc["op"], f"time axis {times} instead of {want}")
        return
    if not np.array_equal(ma.getdata(got["range"][0]), axis(first).astype("f4")):
        ctx.violate("range-axis", sc["op"], f"{got['range'][0]} instead of {axis(first)}")
    if attrs.get("title") != f"file {first['name']}":
        ctx.violate("attributes", sc["op"], f"global attributes {attrs}")
    if sc["op"] == "concat" and attrs.get("stamp") != "sim":
        ctx.violate("attributes", "new_attributes", f"new attribute missing: {attrs}")
    for v in sc["vars"]:
        k = v["name"]
        wanted = k not in first["missing"]
        if sc["keep"] is not None and k not in sc["keep"] and "time" in v["dims"]:
            wanted = False
        if sc["ignore"] and k in sc["ignore"]:
            wanted = False
        if wanted != (k in got):
            ctx.violate("variables", k if wanted else "unwanted", f"variable {k} {'missing from' if wanted else 'present in'} the output; keep={sc['keep']} ignore={sc['ignore']}")
            continue
        if not wanted:
            continue
        if longs[k] != f"variable {k}":
            ctx.violate("attributes", "variable", f"{k}: long_name {longs[k]!r}")
        exp, shape, dims = expected(sc, order, v)
        arr, gd = got[k]
        if tuple(gd) != ("time", *dims) or arr.shape != (len(want), *shape):
            ctx.violate("shape", "x".join(v["dims"]) or "scalar", f"{k}: dimensions {gd} {arr.shape}")
            continue
        tol = 0.0101 if v["packed"] else (1e-3 if v["dtype"] == "f4" else 1e-9)
        for i, (f, j, p) in enumerate(exp):
            if not check_profile(arr[i], f, p, first, dims, tol):
                same_axis = f is None or f["range"] == first["range"]
                what = "missing" if f is None else "packed" if v["packed"] and f["pack"] != first["pack"] else "axis" if not same_axis and "range" in dims else "plain"
                ctx.violate("values", f"{what}:{'x'.join(v['dims']) or 'scalar'}", f"{k} profile {i} ({f and f['name']}[{j}]): {arr[i]} instead of {p}; axes {f and axis(f)} -> {axis(first)}")
                return
    ctx.log("checked", len(want), [f["name"] for f in order])
    ctx.sim_s += 30.0 * len(want)


def simplify(sc):
    import copy

    for k in ("io", "keep", "ignore", "junk"):
        if sc.get(k):
            yield {**copy.deepcopy(sc), k: None}
    for i, f in enumerate(sc["files"]):
        for k in ("pack", "fill", "epoch", "static", "day", "dir"):
            if f.get(k):
                c = copy.deepcopy(sc)
                c["files"][i][k] = 0
                yield c
