"""C17: model evaluation compares every model cell with the observations of that cell only."""

import datetime
import hashlib
import os

import numpy as np
from numpy import ma

from dst.devices.base import hint

ID = "C17"
LEVEL = "exploration"
RULE = "a run counts when an outage, a gap of the model, missing values, a missing variable or an existing file was injected and its event log is new"
QUICK_RUNS = 1500
THOROUGH_RUNS = 40000
REAL = ["process_L3_day_product (cf, iwc, lwc)", "netCDF4/HDF5", "output writer"]
STUB = ["observation and model files (scenario-driven writers)", "wall clock", "kernel randomness"]
STATE_MEASURE = "product x observation outage pattern x model times present x levels kept x missing-value kinds x existing-file case"
PROBES = ["cells", "cells_empty", "cells_partly_missing", "adv_cells", "levels_cut", "mountain", "refused_exists", "refused_model", "refused_obs", "replaced", "wind_missing", "cirrus"]
SHRINK = ["obs.t", "model.times", "model.levels", "model.no_wind", "drop_model", "drop_obs"]
DAY = datetime.date(2025, 2, 9)
OFF = 0.37 / 3600
RS = 287.058
MODEL_VARS = {"cf": ["cloud_fraction"], "iwc": ["qi", "pressure", "temperature"], "lwc": ["ql", "pressure", "temperature"]}


def warmup():
    import cloudnetpy.model_evaluation
    import cloudnetpy.model_evaluation.products.product_resampling  # noqa: F401


def gen(rng, tier):
    product = rng.choice(["cf", "cf", "iwc", "lwc"])
    step = rng.choice([1, 1, 1, 3])
    span = rng.choice([2, 4, 7]) * step
    first = rng.choice([0, 0, rng.randrange(0, 24 - span + 1), 24 - span])
    times = list(range(first, first + span + 1, step))
    if rng.random() < 0.25 and len(times) > 3:  # hours that the model run did not deliver
        times = sorted(rng.sample(times, rng.randrange(2, len(times))))
    half = rng.random() < 0.2  # model valid at half hours
    dt = rng.choice([30, 60, 120, 300, 900])
    a = max(0, (first - rng.choice([0, 0, 1, 2])) * 3600)
    b = min(86400, (first + span + rng.choice([0, 0, 1, 2])) * 3600)
    n = (b - a) // dt
    if n > 420:
        b = a + 420 * dt
    t = list(range(a, b, dt))
    outages = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        x = rng.randrange(a, b)
        outages.append([x, x + rng.choice([300, 1800, 3600, 5400, 10800])])
    if rng.random() < 0.15:
        outages.append([a, a + (b - a) // 2])
    t2 = [x for x in t if not any(p <= x < q for p, q in outages)]
    if len(t2) < 2:
        t2, outages = t, []
    nlev = rng.choice([4, 7, 10])
    top = rng.choice([3000, 9000, 20000, 30000])
    levels = sorted({round(10 + top * ((k + 1) / nlev) ** 1.7) for k in range(nlev)})
    n_h = rng.choice([6, 15, 30])
    return {
        "product": product,
        "obs": {"t": t2, "dt": dt, "outages": outages, "n": n_h, "step": rng.choice([40, 100, 300, 700]), "first": rng.choice([50, 120, 400]), "miss": rng.choice([0, 0, 0.1, 0.5, 0.95]), "nan": rng.random() < 0.2, "cloudy": rng.choice([0.05, 0.3, 0.7]), "freq": rng.choice([35.5, 94.0, None, "masked"]), "sens": rng.random() < 0.85},
        "altitude": rng.choice([0.0, 100.0, 100.0, 650.0, 2670.0]),
        "model": {
            "times": times, "half": half, "levels": levels, "wobble": rng.random() < 0.6, "km": rng.random() < 0.1, "sfc": rng.choice([None, None, "sfc_height", "sfc_geopotential"]), "sfc_off": rng.choice([-60.0, 0.0, 240.0]),
            "res": rng.choice([2.5, 9.0, 25.0, 80.0]), "res_dim": rng.random() < 0.5, "loc_dim": rng.random() < 0.2, "wind": rng.choice([1.0, 6.0, 25.0]),
            "no_wind": sorted({rng.randrange(span + 1) for _ in range(rng.choice([0, 0, 0, 1, 2]))}), "miss": rng.choice([0, 0, 0.1]), "snow": [k for k in ("qs", "qg") if rng.random() < 0.4], "dry": rng.random() < 0.1,
        },
        "drop_model": [rng.choice(["height", "uwind", "horizontal_resolution", *MODEL_VARS[product]])] if rng.random() < 0.08 else [],
        "bad_res": rng.choice(["two", "negative"]) if rng.random() < 0.04 else None,
        "drop_obs": [rng.choice({"cf": ["category_bits"], "iwc": ["iwc", "iwc_retrieval_status"], "lwc": ["lwc"]}[product])] if rng.random() < 0.06 else [],
        "old": rng.choice([None, None, None, "keep", "replace"]),
    }


# ------------------------------------------------------------------ scenario

def u(name, *key):
    return hint(0, 10**6, name, *key) / 10**6


def obs_heights(sc):
    o = sc["obs"]
    return sc["altitude"] + o["first"] + o["step"] * np.arange(o["n"], dtype=float)


def obs_field(sc):
    """The measured field; bits for cf, (value, status) for iwc, value for lwc."""
    o = sc["obs"]
    out = []
    for x in o["t"]:
        row = []
        for g in range(o["n"]):
            r = u("f", x, g)
            if sc["product"] == "cf":
                bits = 0
                if r < o["cloudy"]:
                    bits = [1, 2, 2 | 4, 1 | 2, 1 | 2 | 4, 4 | 1][hint(0, 5, "b", x, g)]
                elif r > 0.93:
                    bits = [16, 32, 48, 16 | 1, 32 | 2 | 4, 2][hint(0, 5, "a", x, g)]
                row.append(bits)
            else:
                row.append((1e-6 * (1 + 500 * r), hint(0, 7, "s", x, g) if u("q", x, g) < 0.5 else [1, 3][hint(0, 1, "s3", x, g)], u("m", x, g) < o["miss"], o["nan"] and u("n", x, g) < 0.05))
        out.append(row)
    return out


def cloud_of(bits):
    """Hogan: a pixel is cloud if it has droplets or falling ice, and is no aerosol or insect."""
    dro, fal, fre, aer, ins = bits & 1, bits & 2, bits & 4, bits & 16, bits & 32
    return bool((dro or (fal and fre)) and not aer and not ins)


def model_levels(sc):
    """Heights above ground, (time, level)."""
    m = sc["model"]
    h = np.array(m["levels"], float)
    out = []
    for k, x in enumerate(m["times"]):
        out.append(h * (1 + (0.01 * ((x % 5) - 2) if m["wobble"] else 0)))
    return np.array(out)


def model_time(sc):
    return np.array(sc["model"]["times"], float) + (0.5 if sc["model"]["half"] else 0)


def surface(sc):
    m = sc["model"]
    return sc["altitude"] if m["sfc"] is None else sc["altitude"] + m["sfc_off"]


def model_fields(sc):
    m = sc["model"]
    nt, nl = len(m["times"]), len(m["levels"])
    f = {}
    h = model_levels(sc)
    f["temperature"] = ma.array(285 - 0.0065 * np.minimum(h, 11000))
    f["pressure"] = ma.array(101000 * np.exp(-h / 8000))
    for k, scale in (("cloud_fraction", 1.0), ("qi", 3e-5), ("ql", 1e-4), ("qs", 2e-5), ("qg", 1e-5)):
        a = np.array([[u(k, x, j) for j in range(nl)] for x in m["times"]])
        a = np.where(a < 0.3, 0, a) * scale
        f[k] = ma.array(a * (0 if m["dry"] else 1))
        if m["miss"] and k in ("cloud_fraction", "qi", "ql"):
            f[k][np.array([[u(k + "m", x, j) < m["miss"] for j in range(nl)] for x in m["times"]])] = ma.masked
    f["uwind"] = ma.array(m["wind"] * (1 + h / 9000) * np.array([[0.5 + u("u", x, j) for j in range(nl)] for x in m["times"]]))
    f["vwind"] = ma.array(0.3 * m["wind"] * np.array([[u("v", x, j) for j in range(nl)] for x in m["times"]]))
    for i, x in enumerate(m["times"]):
        if x - m["times"][0] in m["no_wind"]:
            f["uwind"][i, ::2] = ma.masked
    return f


def write_obs(sc, path):
    import netCDF4

    o = sc["obs"]
    h = obs_heights(sc)
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        nc.createDimension("time", len(o["t"]))
        nc.createDimension("height", len(h))
        nc.year, nc.month, nc.day = "2025", "02", "09"
        nc.file_uuid = "00000001-0000-4000-8000-000000000001"
        nc.location = "Simsite"
        nc.history = "2025-02-10 01:00:00 +00:00 - categorize file created"
        nc.cloudnet_file_type = "categorize" if sc["product"] == "cf" else sc["product"]
        v = nc.createVariable("time", "f8", ("time",))
        v.units = "hours since 2025-02-09 00:00:00 +00:00"
        v[:] = np.array(o["t"]) / 3600 + OFF
        v = nc.createVariable("height", "f8", ("height",))
        v.units = "m"
        v[:] = h
        v = nc.createVariable("altitude", "f4", ())
        v.units = "m"
        v[:] = sc["altitude"]
        if o["freq"] is not None and sc["product"] == "cf":
            v = nc.createVariable("radar_frequency", "f4", ())
            v.units = "GHz"
            v[:] = 35.5 if o["freq"] == "masked" else o["freq"]
        if o["sens"] and sc["product"] == "cf":
            v = nc.createVariable("Z_sensitivity", "f4", ("height",), fill_value=-999.0)
            z = ma.array(-60 + 20 * np.log10(np.maximum(h, 50) / 50))
            if o["freq"] == "masked":
                z[: len(z) // 3] = ma.masked
            v[:] = z
        field = obs_field(sc)
        if sc["product"] == "cf":
            if "category_bits" not in sc["drop_obs"]:
                nc.createVariable("category_bits", "i4", ("time", "height"))[:] = np.array(field)
            nc.createVariable("quality_bits", "i4", ("time", "height"))[:] = 0
            return
        a = ma.array([[p[0] for p in row] for row in field])
        a[np.array([[p[2] for p in row] for row in field])] = ma.masked
        a[np.array([[p[3] for p in row] for row in field])] = np.nan
        if sc["product"] not in sc["drop_obs"]:
            nc.createVariable(sc["product"], "f4", ("time", "height"), fill_value=9.96921e36)[:] = a
        if sc["product"] == "iwc" and "iwc_retrieval_status" not in sc["drop_obs"]:
            nc.createVariable("iwc_retrieval_status", "i4", ("time", "height"))[:] = [[p[1] for p in row] for row in field]


def write_model(sc, path):
    import netCDF4

    m = sc["model"]
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        nc.createDimension("time", len(m["times"]))
        nc.createDimension("level", len(m["levels"]))
        nc.year, nc.month, nc.day = "2025", "02", "09"
        nc.file_uuid = "00000005-0000-4000-8000-000000000005"
        nc.location = "Simsite"
        nc.source = "ECMWF"
        nc.history = "2025-02-10 05:00:00 +00:00 - model file created"

        def var(name, dims, data, units):
            if name in sc["drop_model"]:
                return
            v = nc.createVariable(name, "f8", dims, fill_value=9.96921e36)
            v.units = units
            v[:] = data

        var("time", ("time",), model_time(sc), "hours since 2025-02-09 00:00:00 +00:00")
        var("level", ("level",), np.arange(len(m["levels"])), "1")
        d = ("time",) if m["loc_dim"] else ()
        var("latitude", d, 50.0, "degree_north")
        var("longitude", d, 10.0, "degree_east")
        res = np.full(len(m["times"]), m["res"])
        if sc["bad_res"] == "two":
            res[0] += 1
        elif sc["bad_res"] == "negative":
            res[:] = -1
        var("horizontal_resolution", ("time",) if m["res_dim"] or sc["bad_res"] else (), res if m["res_dim"] or sc["bad_res"] else m["res"], "km")
        var("forecast_time", ("time",), model_time(sc), "hours")
        var("height", ("time", "level"), model_levels(sc), "m")
        for k, a in model_fields(sc).items():
            if k in ("qs", "qg") and k not in m["snow"]:
                continue
            var(k, ("time", "level"), a, {"temperature": "K", "pressure": "Pa", "uwind": "m s-1", "vwind": "m s-1"}.get(k, "1"))
        if m["sfc"]:
            var(m["sfc"], ("time",), np.full(len(m["times"]), surface(sc) * (9.80665 if m["sfc"] == "sfc_geopotential" else 1)), "m")


# -------------------------------------------------------------------- oracle

def mids(x):
    """Every model time owns the time that is nearer to it than to any other."""
    c = (x[1:] + x[:-1]) / 2
    return np.concatenate(([x[0] - (x[1] - x[0]) / 2], c, [x[-1] + (x[-1] - x[-2]) / 2]))


def level_edges(h):
    c = (h[1:] + h[:-1]) / 2
    return np.concatenate(([h[0] - (h[1] - h[0])], c, [h[-1] + (h[-1] - h[-2])]))


def near(x, edges, tol):
    return any(np.any(np.abs(x - e) < tol) for e in edges)


def cell_value(sc, sel, pix):
    """Expected value(s) of a cell with pixel selection `sel` ((time, height) index arrays): {suffix: value or None}."""
    it, ih = sel
    if sc["product"] == "cf":
        if len(it) == 0 or len(ih) == 0:
            return {"_V": None, "_A": None}
        w = pix[np.ix_(it, ih)]
        return {"_V": float(w.mean()), "_A": float(w.any(axis=1).mean())}
    w = pix[np.ix_(it, ih)]
    w = w[np.isfinite(w)]
    return {"": float(w.mean()) if w.size else None}


def pixels(sc):
    f = obs_field(sc)
    if sc["product"] == "cf":
        return np.array([[cloud_of(b) for b in row] for row in f])
    a = np.array([[np.float32(p[0]) if not p[2] and not p[3] and (sc["product"] != "iwc" or p[1] in (1, 3)) else np.nan for p in row] for row in f], float)
    return a


def run(ctx, sc):
    from cloudnetpy.model_evaluation.products.product_resampling import process_L3_day_product

    m = sc["model"]
    if len(sc["obs"]["t"]) < 1 or len(m["times"]) < 2 or len(m["levels"]) < 2:
        return
    if sc["model"]["km"] and "height" not in sc["drop_model"]:
        sc = {**sc, "model": {**m, "km": False}}  # the harmonised files have metres
    obs, mod, out = ctx.path("in", f"{sc['product']}.nc"), ctx.path("in", "model.nc"), ctx.path("out", "l3.nc")
    write_obs(sc, obs)
    write_model(sc, mod)
    old = b"an earlier product"
    if sc["old"]:
        with open(out, "wb") as f:
            f.write(old)
    for k, n in (("observation_outage", len(sc["obs"]["outages"])), ("model_times_missing", int(len(np.unique(np.diff(m["times"]))) > 1)), ("observations_missing", int(sc["obs"]["miss"] > 0)), ("nan_values", int(sc["obs"]["nan"])), ("model_values_missing", int(m["miss"] > 0)), ("wind_missing", len(m["no_wind"])), ("model_variable_missing", len(sc["drop_model"])), ("observation_variable_missing", len(sc["drop_obs"])), ("bad_resolution", int(bool(sc["bad_res"]))), ("existing_output", int(bool(sc["old"])))):
        ctx.fault(k, n)
    ctx.sim_s += max(sc["obs"]["t"]) - min(sc["obs"]["t"])
    res = ctx.attempt(process_L3_day_product, "ecmwf", sc["product"], mod, obs, out, None, None, None, overwrite=sc["old"] == "replace")
    ctx.log("l3", res.kind, sc["product"])
    ctx.state(sc["product"], np.diff(sc["obs"]["t"]).max(initial=0) // 600, len(sc["obs"]["t"]), m["times"], len(m["levels"]), sorted(m["no_wind"]), sc["old"], sc["drop_model"], sc["drop_obs"], sc["obs"]["miss"], m["sfc"])

    def refused(want, why):
        if res.ok:
            ctx.violate("accepted", why, f"{want} expected ({why}), but the run succeeded")
        elif want and res.kind != want:
            ctx.violate("wrong-error", f"{why}:{res.kind}", f"{want} expected ({why}), got {res}")
        have = open(out, "rb").read() if os.path.exists(out) else None
        if have != (old if sc["old"] else None):
            ctx.violate("left-behind", why, "a refused run changed the output path")
        extra = sorted(set(os.listdir(os.path.dirname(out))) - {"l3.nc"})
        if extra:
            ctx.violate("litter", why, f"{extra}")

    if sc["old"] == "keep":
        ctx.probe("refused_exists")
        return refused("FileExistsError", "exists")
    if sc["drop_obs"]:
        ctx.probe("refused_obs")
        return refused(None, "observation variable")
    if sc["drop_model"] or sc["bad_res"]:
        ctx.probe("refused_model")
        return refused("ModelDataError" if sc["drop_model"] != ["uwind"] else None, f"model:{sc['drop_model'] or sc['bad_res']}")
    if not res.ok:
        tail = [ln for ln in (res.tb or "").splitlines() if "cloudnetpy" in ln][-1:]
        ctx.violate("crash", f"{res.kind}:{tail[0].split('in ')[-1] if tail else ''}", f"{res}")
        return
    if sc["old"]:
        ctx.probe("replaced")
    check(ctx, sc, out)


def check(ctx, sc, out):
    import netCDF4

    p, m = sc["product"], sc["model"]
    with netCDF4.Dataset(out) as nc:
        v = {k: ma.masked_array(nc[k][:]) for k in nc.variables}
        date = (str(nc.year), str(nc.month), str(nc.day))
        units = nc["time"].units
    ctx.log({k: hashlib.sha256(ma.filled(a.astype(float), -9).tobytes()).hexdigest()[:12] for k, a in v.items()})
    if date != ("2025", "02", "09") or "2025-02-09" not in units:
        ctx.violate("date", "date", f"{date} {units}")
    mt, mh = model_time(sc), model_levels(sc)
    keep = int((mh < 22000).any(axis=0).sum())
    ctx.probe("levels_cut", int(keep < mh.shape[1]))
    ctx.probe("mountain", int(surface(sc) > 500))
    mh = mh[:, :keep]
    if v["time"].shape != mt.shape or np.abs(v["time"] - mt).max() > 1e-4:
        ctx.violate("axis", "time", f"{v['time']} instead of {mt}")
        return
    if v["model_height"].shape != mh.shape or np.abs(v["model_height"] - mh).max() > 0.01 * mh.max() * 1e-3 + 0.01:
        ctx.violate("axis", "height", "model_height is not the height of the model file")
        return
    model_side(ctx, sc, v, keep)
    t = np.array(sc["obs"]["t"]) / 3600 + OFF
    h = obs_heights(sc)
    pix = pixels(sc)
    f = model_fields(sc)
    wind = np.sqrt(f["uwind"] ** 2 + f["vwind"] ** 2)[:, :keep]
    te = mids(mt)
    names = {"cf": ["cf_V", "cf_A"], "iwc": ["iwc"], "lwc": ["lwc"]}[p]
    for n in [*names, *(x + "_adv" for x in names)]:
        if n not in v or v[n].shape != mh.shape:
            ctx.violate("missing-variable", n, f"{n} is missing or has a wrong shape")
            return
    for i in range(len(mt)):
        ti = np.flatnonzero((te[i] <= t) & (t < te[i + 1]))
        he = level_edges(mh[i]) + surface(sc)
        if near(t, te[i : i + 2], 1e-6):
            continue
        for j in range(keep):
            hi = np.flatnonzero((he[j] <= h) & (h < he[j + 1]))
            if near(h, he[j : j + 2], 0.05):
                continue
            ctx.probe("cells")
            compare(ctx, sc, v, i, j, cell_value(sc, (ti, hi), pix), p, "")
            if wind[i, j] is ma.masked:
                adv = np.array([], int)
                ctx.probe("wind_missing")
            else:
                w = min(m["res"] * 1000 / float(wind[i, j]) / 3600, 1.0)
                if near(t, [mt[i] - w / 2, mt[i] + w / 2], 1e-6):
                    continue
                adv = np.flatnonzero((mt[i] - w / 2 <= t) & (t < mt[i] + w / 2))
            ctx.probe("adv_cells", int(len(adv) > 0 and len(hi) > 0))
            compare(ctx, sc, v, i, j, cell_value(sc, (adv, hi), pix), p, "_adv")
            if ctx.violations:
                return


def compare(ctx, sc, v, i, j, want, p, suffix):
    for s, w in want.items():
        name = f"{p}{s}{suffix}"
        got = v[name][i, j]
        if w is None:
            ctx.probe("cells_empty")
            if got is not ma.masked:
                ctx.violate("invented", name, f"{name}[{i},{j}] = {got} although nothing was observed in the cell")
        elif got is ma.masked:
            ctx.violate("lost", name, f"{name}[{i},{j}] is missing, {w} was observed")
        elif not np.isclose(float(got), w, rtol=2e-4, atol=1e-12):
            ctx.violate("value", name, f"{name}[{i},{j}] = {got} instead of {w}")


def model_side(ctx, sc, v, keep):
    p, m = sc["product"], sc["model"]
    f = {k: a[:, :keep] for k, a in model_fields(sc).items()}
    if p == "cf":
        want, limit = f["cloud_fraction"], 0.05
    else:
        q = f["qi" if p == "iwc" else "ql"]
        if p == "iwc":
            for k in m["snow"]:
                q = q + f[k]
        want, limit = q * f["pressure"] / (RS * f["temperature"]), {"iwc": 1e-7, "lwc": 1e-5}[p]
    mask = ma.getmaskarray(want) | (ma.filled(want, 0) < limit)
    vague = np.abs(ma.filled(want, 0) / limit - 1) < 1e-3
    got = v[f"model_{p}"]
    if got.shape != want.shape:
        ctx.violate("model-field", "shape", f"{got.shape} instead of {want.shape}")
        return
    bad = (ma.getmaskarray(got) != mask) & ~vague
    bad |= ~mask & ~ma.getmaskarray(got) & ~np.isclose(ma.filled(got, 0), ma.filled(want, 0), rtol=1e-3)
    if bad.any():
        x = tuple(int(k[0]) for k in np.nonzero(bad))
        ctx.violate("model-field", f"model_{p}", f"model_{p}{x} = {got[x]} instead of {ma.array(want, mask=mask)[x]}")
    if "model_cf_cirrus" in v:
        c = v["model_cf_cirrus"]
        ctx.probe("cirrus")
        over = ~ma.getmaskarray(c) & (ma.getmaskarray(got) | (ma.filled(c, 0) > ma.filled(got, 0) * 1.001 + 1e-6))
        if c.shape != got.shape or over.any():
            ctx.violate("cirrus", "cirrus", "the cirrus-filtered model cloud fraction exceeds the cloud fraction")
