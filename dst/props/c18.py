"""C18: turbulence products use continuous velocities of their own window, gate and wind, and nothing else."""

import datetime
import hashlib
import os

import numpy as np
from numpy import ma

from dst.core import derive

ID = "C18"
LEVEL = "exploration"
RULE = "a run counts when an outage, missing velocities or missing winds were injected and its event log is new"
QUICK_RUNS = 1200
THOROUGH_RUNS = 30000
REAL = ["generate_epsilon_from_radar", "generate_epsilon_from_lidar with the doppy turbulence code", "netCDF4/HDF5", "output writer"]
STUB = ["radar, Doppler lidar, wind and model files (scenario-driven writers)", "wall clock", "kernel randomness"]
STATE_MEASURE = "instrument x sampling x outage pattern x missing velocities x missing winds x outcome"
PROBES = ["radar", "lidar", "values", "window_intact", "window_interrupted", "wind_missing", "refused", "complete_data", "mountain", "measured_wind"]
SHRINK = ["outages", "blocks", "wind.blank", "wind.holes"]
DAY = datetime.date(2025, 2, 9)
OFF = 0.37


def warmup():
    import cloudnetpy.products.epsilon_lidar
    import cloudnetpy.products.epsilon_radar  # noqa: F401


def gen(rng, tier):
    kind = rng.choice(["radar", "radar", "lidar"])
    dt = rng.choice([1, 2, 3, 5, 10]) if kind == "radar" else rng.choice([2, 5, 10, 20])
    minutes = rng.choice([8, 14, 20])
    start = rng.choice([0, rng.randrange(0, 1380) * 60 + rng.randrange(30), 86400 - minutes * 60])
    end = start + minutes * 60
    outages = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        a = rng.randrange(start, end)
        outages.append([a, a + rng.choice([dt, 3 * dt, 20, 60, 200, 400])])
    blocks = []  # missing velocities: gate, from, to
    n = rng.choice([2, 3, 5])
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        a = rng.randrange(start, end)
        blocks.append([rng.randrange(n), a, a + rng.choice([dt, 2 * dt, 15, 40, 120, 600])])
    return {
        "kind": kind, "dt": dt, "start": start, "end": end, "outages": outages, "blocks": blocks, "n": n,
        "speckle": rng.choice([0, 0, 0.01, 0.05]),
        "altitude": rng.choice([0.0, 120.0, 1800.0]), "first": rng.choice([150, 400]), "step": rng.choice([30, 120, 500]),
        "wind": {
            "base": rng.choice([4.0, 9.0, 18.0]), "shear": rng.choice([0.0, 0.002]), "veer": rng.choice([0.0, 0.5]), "every": rng.choice([1, 1, 3]) if kind == "radar" else rng.choice([300, 900]),
            "blank": sorted({rng.randrange(0, 8) for _ in range(rng.choice([0, 0, 1, 2, 8]))}), "holes": [[rng.randrange(8), rng.randrange(6)] for _ in range(rng.choice([0, 0, 0, 2, 5]))], "km": False,
            "part": rng.choice(["both", "both", "u", "v"]),
            "rough": rng.choice([0, 0.3, 0.6]) if kind == "lidar" else 0,
            "sfc": rng.choice([None, None, "sfc_height", "sfc_geopotential"]), "sfc_off": rng.choice([-70.0, 0.0, 300.0]),
        },
        "units": rng.choice(["hours", "seconds"]) if kind == "lidar" else "hours",
    }


# ------------------------------------------------------------------ scenario

def times(sc):
    return np.arange(sc["start"], min(sc["end"], 86400 - 1), sc["dt"]).astype(float) + OFF


def velocity(sc, gate, n):
    """A velocity series with an inertial subrange."""
    r = np.random.RandomState(derive(sc["seed"], "v", gate) % 2**32)
    f = np.fft.rfftfreq(n)
    amp = np.zeros(len(f))
    amp[1:] = f[1:] ** (-5 / 6) * np.exp(0.2 * r.standard_normal(len(f) - 1))
    x = np.fft.irfft(amp * np.exp(2j * np.pi * r.random_sample(len(f))), n)
    return 0.5 * x / (x.std() + 1e-30) - 0.3


def field(sc, damaged):
    """(time, velocity masked array (time, gate))."""
    t = times(sc)
    v = ma.array(np.array([velocity(sc, g, len(t)) for g in range(sc["n"])]).T)
    if not damaged:
        return t, v
    r = np.random.RandomState(derive(sc["seed"], "speckle") % 2**32)
    for g, a, b in sc["blocks"]:
        v[(t >= a) & (t < b), g % sc["n"]] = ma.masked
    if sc["speckle"]:
        v[r.random_sample(v.shape) < sc["speckle"]] = ma.masked
    keep = ~np.any([(t >= a) & (t < b) for a, b in sc["outages"]], axis=0) if sc["outages"] else np.ones(len(t), bool)
    return t[keep], v[keep]


def heights(sc):
    return sc["altitude"] + sc["first"] + sc["step"] * np.arange(sc["n"], dtype=float)


def wind_at(sc, t, h):
    """Horizontal wind speed at time t (s) and height h (m above sea level): linear in both."""
    w = sc["wind"]
    return w["base"] + w["shear"] * (h - sc["altitude"]) + w["veer"] * t / 3600 * 0.3


def head(nc, kind, source):
    nc.Conventions = "CF-1.8"
    nc.cloudnet_file_type = kind
    nc.file_uuid = {"radar": "00000001-0000-4000-8000-000000000001", "model": "00000005-0000-4000-8000-000000000005", "doppler-lidar": "00000007-0000-4000-8000-000000000007", "doppler-lidar-wind": "00000008-0000-4000-8000-000000000008"}[kind]
    nc.year, nc.month, nc.day = "2025", "02", "09"
    nc.location = "Simsite"
    nc.source = source
    nc.history = f"2025-02-10 01:00:00 +00:00 - {kind} file created"


def var(nc, name, dims, data, units, fill=9.96921e36):
    v = nc.createVariable(name, "f8", dims, fill_value=fill)
    v.units = units
    v.long_name = name
    v.standard_name = name
    v[:] = data
    return v


def write_time(nc, sc, t, units="hours"):
    nc.createDimension("time", len(t))
    v = nc.createVariable("time", "f8", ("time",))
    v.units = f"{units} since 2025-02-09 00:00:00 +00:00"
    v.calendar = "standard"
    v[:] = t / 3600 if units == "hours" else t


def write_radar(sc, path, damaged):
    import netCDF4

    t, v = field(sc, damaged)
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        head(nc, "radar", "METEK MIRA-35")
        write_time(nc, sc, t)
        nc.createDimension("range", sc["n"])
        var(nc, "height", ("range",), heights(sc), "m")
        var(nc, "range", ("range",), heights(sc) - sc["altitude"], "m")
        for k, x, u in (("latitude", 50.0, "degree_north"), ("longitude", 10.0, "degree_east"), ("altitude", sc["altitude"], "m")):
            var(nc, k, (), x, u)
        var(nc, "v", ("time", "range"), v, "m s-1")
    return t, v


def components(sc, speed):
    """East and north wind; where the wind is missing, one or both components are."""
    u, v = 0.6 * speed, -0.8 * speed
    part = sc["wind"].get("part", "both")
    if part == "u":
        v = -0.8 * ma.array(speed.data)
    elif part == "v":
        u = 0.6 * ma.array(speed.data)
    return u, v


def surface(sc):
    w = sc["wind"]
    return sc["altitude"] if w["sfc"] is None else sc["altitude"] + w["sfc_off"]


def model_hours(sc):
    return np.arange(0, 25, sc["wind"]["every"])


def write_model(sc, path, damaged):
    import netCDF4

    hours = model_hours(sc)
    h = np.array([10.0, 300, 900, 2000, 5000, 9000])
    agl = np.array([h * (1 + 0.002 * (k % 4)) for k in range(len(hours))])
    speed = ma.array([wind_at(sc, 3600.0 * k, a + surface(sc)) for k, a in zip(hours, agl)])
    bad = missing_winds(sc, hours) if damaged else np.zeros(speed.shape, bool)
    speed[bad] = ma.masked
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        head(nc, "model", "ECMWF")
        write_time(nc, sc, 3600.0 * hours)
        nc.createDimension("level", len(h))
        var(nc, "height", ("time", "level"), agl, "m")
        u, v = components(sc, speed)
        var(nc, "uwind", ("time", "level"), u, "m s-1")
        var(nc, "vwind", ("time", "level"), v, "m s-1")
        if sc["wind"]["sfc"]:
            var(nc, sc["wind"]["sfc"], ("time",), np.full(len(hours), surface(sc) * (9.80665 if sc["wind"]["sfc"] == "sfc_geopotential" else 1)), "1")


def near_hours(sc, hours):
    """Indices of the model steps around the measurement, for placing the gaps."""
    i = int(np.searchsorted(hours, sc["start"] / 3600))
    return [x % len(hours) for x in range(i - 4, i + 4)]


def missing_winds(sc, hours):
    bad = np.zeros((len(hours), 6), bool)
    ix = near_hours(sc, hours)
    for b in sc["wind"]["blank"]:
        bad[ix[b]] = True
    if len(sc["wind"]["blank"]) >= 6:
        bad[:] = True
    for b, lev in sc["wind"]["holes"]:
        bad[ix[b], lev] = True
    return bad


def write_lidar(sc, path, damaged):
    import netCDF4

    t, v = field(sc, damaged)
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        head(nc, "doppler-lidar", "HALO Photonics StreamLine")
        write_time(nc, sc, t, sc["units"])
        nc.createDimension("height", sc["n"])
        var(nc, "height", ("height",), heights(sc), "m")
        for k, x, u in (("latitude", 50.0, "degree_north"), ("longitude", 10.0, "degree_east"), ("altitude", sc["altitude"], "m")):
            var(nc, k, (), x, u)
        var(nc, "ray_accumulation_time", (), min(1.0, sc["dt"] / 2), "s")
        var(nc, "v", ("time", "height"), v, "m s-1")
    return t, v


def wind_grid(sc):
    """Wind profile times (s) and heights of the Doppler lidar wind file: wider than the measurement."""
    e = sc["wind"]["every"]
    t = np.arange(sc["start"] - 2 * e, sc["end"] + 3 * e, e, dtype=float)
    h = sc["altitude"] + np.linspace(sc["first"] - 100, sc["first"] + sc["step"] * sc["n"] + 200, 6)
    return t, h


def lidar_wind(sc):
    """Wind speed at each node of the wind grid; measured winds are not a smooth function."""
    t, h = wind_grid(sc)
    speed = wind_at(sc, t[:, None], h[None, :])
    r = np.random.RandomState(derive(sc["seed"], "wind") % 2**32)
    return speed * (1 + sc["wind"].get("rough", 0) * (2 * r.random_sample(speed.shape) - 1))


def write_wind(sc, path, damaged):
    import netCDF4

    t, h = wind_grid(sc)
    speed = ma.array(lidar_wind(sc))
    if damaged:
        for b in sc["wind"]["blank"]:
            speed[b % len(t)] = ma.masked
        if len(sc["wind"]["blank"]) >= 6:
            speed[:] = ma.masked
        for b, lev in sc["wind"]["holes"]:
            speed[b % len(t), lev] = ma.masked
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        head(nc, "doppler-lidar-wind", "HALO Photonics StreamLine")
        write_time(nc, sc, t)
        nc.createDimension("height", len(h))
        var(nc, "height", ("height",), h, "m")
        u, v = components(sc, speed)
        var(nc, "uwind", ("time", "height"), u, "m s-1")
        var(nc, "vwind", ("time", "height"), v, "m s-1")
    return ma.getmaskarray(speed)


# -------------------------------------------------------------------- oracle

BANDS = [(a * s, b * s) for s, prs in ((1, [(5e-3, 1.5e-2), (5e-3, 3e-2), (5e-3, 5e-2), (8e-3, 2e-2), (8e-3, 4e-2), (8e-3, 6e-2)]),) for a, b in prs]
BANDS += [(a * 10.0**k, b * 10.0**k) for k in range(4) for a, b in ((2e-2, 7e-2), (2e-2, 1e-1), (2e-2, 1.5e-1), (3e-2, 1e-1), (3e-2, 2e-1), (3e-2, 3e-1), (5e-2, 1.5e-1), (5e-2, 3e-1), (5e-2, 5e-1), (8e-2, 2e-1), (8e-2, 4e-1), (8e-2, 6e-1))]
BANDS = [b for b in BANDS if b[0] <= 8.0 + 1e-9]


def reference_epsilon(vel, dt, wind):
    """Dissipation rate of one complete window; None: rejected; False: too close to call."""
    n = len(vel)
    dx = dt * wind
    p = (dx / n) * np.abs(np.fft.rfft(vel)[1:]) ** 2 / np.pi
    k = 2 * np.pi * np.arange(1, n // 2 + 1) / (n * dx)
    eps = []
    for lo, hi in BANDS:
        if np.any(np.abs(k / lo - 1) < 1e-6) or np.any(np.abs(k / hi - 1) < 1e-6):
            return False
        m = (k > lo) & (k < hi) & (p > 0)
        if m.sum() < 2:
            continue
        x, y = np.log10(k[m]), np.log10(p[m])
        sl = ((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum()
        if min(abs(sl + 2.0), abs(sl + 1.33)) < 1e-4:
            return False
        if -2.0 < sl < -1.33:
            eps.append((10 ** (y.mean() - sl * x.mean()) / 0.5) ** 1.5)
    return float(np.mean(eps)) if eps else None


def read(path):
    import netCDF4

    with netCDF4.Dataset(path) as nc:
        return {k: ma.masked_array(nc[k][:]) for k in nc.variables}


def run(ctx, sc):
    w = sc["wind"]
    ctx.fault("outage", len(sc["outages"]))
    ctx.fault("missing_velocities", len(sc["blocks"]) + int(sc["speckle"] > 0))
    ctx.fault("missing_winds", len(w["blank"]) + len(w["holes"]))
    ctx.sim_s += sc["end"] - sc["start"]
    ctx.probe(sc["kind"])
    ctx.probe("mountain", int(sc["altitude"] > 1000))
    t, _ = field(sc, True)
    if len(t) < 4:
        return
    {"radar": run_radar, "lidar": run_lidar}[sc["kind"]](ctx, sc)


def crash(ctx, what, res):
    tail = [ln for ln in (res.tb or "").splitlines() if "cloudnetpy" in ln or "doppy" in ln][-1:]
    ctx.violate("crash", f"{what}:{res.kind}:{tail[0].split('in ')[-1] if tail else ''}", f"{res}\n{(res.tb or '')[-400:]}")


def run_radar(ctx, sc):
    from cloudnetpy.products import generate_epsilon_from_radar

    rad, mod, out = ctx.path("in", "radar.nc"), ctx.path("in", "model.nc"), ctx.path("out", "eps.nc")
    t, v = write_radar(sc, rad, True)
    write_model(sc, mod, True)
    hours = model_hours(sc)
    bad = missing_winds(sc, hours)
    res = ctx.attempt(generate_epsilon_from_radar, rad, mod, out)
    ctx.log("epsilon", res.kind)
    ctx.state("radar", sc["dt"], sc["outages"], sc["blocks"], sc["speckle"], bad.any(axis=1).sum(), res.kind)
    if (~bad).sum(axis=1).astype(bool).sum() < 2:
        ctx.probe("refused")
        if res.ok:
            if not ma.getmaskarray(read(out)["epsilon"]).all():
                ctx.violate("invented", "no-wind", "epsilon retrieved although the model has no wind")
        elif os.path.exists(out):
            ctx.violate("left-behind", "radar", "an output file exists although the product failed")
        return
    if not res.ok:
        crash(ctx, "radar", res)
        return
    r = read(out)
    ctx.log({k: hashlib.sha256(ma.filled(a.astype(float), -9).tobytes()).hexdigest()[:12] for k, a in r.items()})
    grid = np.arange(2880) * 30.0 + 15
    want = np.array([x for x in grid if np.any((t > x) & (t <= x + 300))])
    pt = np.asarray(r["time"]) * 3600
    if len(pt) != len(want) or np.abs(pt - want).max() > 0.01:
        ctx.violate("axis", "time", f"time axis has {len(pt)} steps, {len(want)} expected")
        return
    if np.abs(np.asarray(r["height"]) - heights(sc)).max() > 0.01:
        ctx.violate("axis", "height", "height differs from the radar's")
        return
    eps = r["epsilon"]
    full = 300 // sc["dt"]
    tm = 3600.0 * hours
    for i, x in enumerate(want):
        k = (t > x) & (t <= x + 300)
        a = int(np.searchsorted(tm, x, "right")) - 1
        around = [max(a, 0), min(a + 1, len(tm) - 1)]
        for g in range(sc["n"]):
            seg = v[k, g]
            valid = int(seg.count())
            got = eps[i, g]
            if valid < 0.8 * full:
                ctx.probe("window_interrupted")
                if got is not ma.masked:
                    ctx.violate("invented", "radar", f"epsilon at {x} s, gate {g} from {valid} of {full} velocities")
                    return
                continue
            if valid < len(seg) or len(seg) < full:
                continue
            ctx.probe("window_intact")
            if bad[around].any():
                # the wind of a neighbouring profile or height may stand in
                ctx.probe("wind_missing")
                if got is not ma.masked and sc["wind"]["shear"] == 0 and sc["wind"]["veer"] == 0:
                    ref = reference_epsilon(np.asarray(seg), sc["dt"], sc["wind"]["base"])
                    if ref is not False and (ref is None or not np.isclose(float(got), ref, rtol=0.02)):
                        ctx.violate("value", "radar:wind-gap", f"epsilon at {x} s, gate {g} is {got}, {ref} expected with the wind of the model")
                        return
                continue
            # the wind of the lowest model level also stands for gates below it
            h = max(heights(sc)[g], surface(sc) + 10)
            ref = reference_epsilon(np.asarray(seg), sc["dt"], wind_at(sc, x, h))
            if ref is False:
                continue
            ctx.probe("values")
            if (ref is None) != (got is ma.masked):
                ctx.violate("lost" if ref is not None else "invented", "radar", f"epsilon at {x} s, gate {g} is {got}, {ref} expected")
                return
            # band membership moves with the wind interpolation, so a small tolerance
            if ref is not None and not np.isclose(float(got), ref, rtol=0.02):
                ctx.violate("value", "radar", f"epsilon at {x} s, gate {g} is {got}, {ref} expected")
                return


def doppy_epsilon(sc, t, v):
    """Epsilon by doppy from the measured velocities and the winds the scenario defines, without CloudnetPy."""
    from doppy.product.turbulence import HorizontalWind, Options, Turbulence, VerticalWind

    day = np.datetime64(DAY, "us")
    us = lambda x: day + np.round(np.asarray(x) * 1e6).astype("timedelta64[us]")  # noqa: E731
    m = ma.getmaskarray(v)
    wt, wh = wind_grid(sc)
    turb = Turbulence.from_winds(
        VerticalWind(time=us(t), height=heights(sc), w=ma.filled(v, np.nan), mask=m),
        HorizontalWind(time=us(wt), height=wh, V=lidar_wind(sc)),
        Options(ray_accumulation_time=min(1.0, sc["dt"] / 2), period=180),
    )
    return ma.array(turb.turbulent_kinetic_energy_dissipation_rate, mask=turb.mask)


def run_lidar(ctx, sc):
    from cloudnetpy.products import generate_epsilon_from_lidar

    lid, win, out, clean = ctx.path("in", "lidar.nc"), ctx.path("in", "wind.nc"), ctx.path("out", "eps.nc"), ctx.path("ref", "eps.nc")
    t, v = write_lidar(sc, lid, True)
    bad = write_wind(sc, win, True)
    res = ctx.attempt(generate_epsilon_from_lidar, lid, win, out)
    ctx.log("epsilon", res.kind)
    ctx.state("lidar", sc["dt"], sc["outages"], sc["blocks"], sc["speckle"], int(bad.sum()), res.kind)
    wt, wh = wind_grid(sc)
    few = len(np.unique(np.nonzero(~bad)[0])) < 3 or len(np.unique(np.nonzero(~bad)[1])) < 3
    if few:
        ctx.probe("refused")
        if res.ok or res.kind != "ValidTimeStampError":
            ctx.violate("accepted", "lidar", f"ValidTimeStampError expected without usable winds, got {res}")
        if os.path.exists(out):
            ctx.violate("left-behind", "lidar", "an output file exists although the product failed")
        return
    if not res.ok:
        if v.count() == 0:
            ctx.probe("refused")
            return
        crash(ctx, "lidar", res)
        return
    if not ma.getmaskarray(v).any():
        ctx.probe("complete_data")
    r = read(out)
    ctx.log({k: hashlib.sha256(ma.filled(a.astype(float), -9).tobytes()).hexdigest()[:12] for k, a in r.items()})
    unit = 3600
    if r["time"].shape != t.shape or np.abs(np.asarray(r["time"]) * unit - t).max() > 0.01:
        ctx.violate("axis", "lidar:time", f"time axis differs: {r['time'][:3]} for {t[:3]}")
        return
    if r["height"].shape != (sc["n"],) or np.abs(np.asarray(r["height"]) - heights(sc)).max() > 0.01:
        ctx.violate("axis", "lidar:height", "height differs from the lidar's")
        return
    eps = r["epsilon"]
    over = ~ma.getmaskarray(eps) & ma.getmaskarray(v)
    if over.any():
        ctx.violate("invented", "lidar", f"{int(over.sum())} values where no velocity was measured")
        return
    # the same measurement without any damage
    t0, v0 = write_lidar(sc, lid, False)
    write_wind(sc, win, False)
    ref = ctx.attempt(generate_epsilon_from_lidar, lid, win, clean)
    if not ref.ok:
        crash(ctx, "lidar", ref)
        return
    e0 = read(clean)["epsilon"]
    flat = sc["wind"]["shear"] == 0 and sc["wind"]["veer"] == 0 and not sc["wind"].get("rough")
    direct = doppy_epsilon(sc, t, v)
    for i, x in enumerate(t):
        i0 = int(np.argmin(np.abs(t0 - x)))
        k = np.abs(t - x) <= 90 + sc["dt"] * 1.5
        k0 = np.abs(t0 - x) <= 90 + sc["dt"] * 1.5
        same_t = int(k.sum()) == int(k0.sum())
        w = np.abs(wt - x) <= 90 + sc["wind"]["every"]
        wind_ok = flat or not bad[max(0, np.flatnonzero(w)[0] - 1) : np.flatnonzero(w)[-1] + 2].any()
        for g in range(sc["n"]):
            a, b = eps[i, g], direct[i, g]
            if wind_ok:
                ctx.probe("measured_wind")
                if (a is ma.masked) != (b is ma.masked) or (a is not ma.masked and not np.isclose(float(a), float(b), rtol=2e-3)):
                    ctx.violate("value", "lidar", f"epsilon at {x} s, gate {g} is {a}, but {b} with the measured winds")
                    return
            if not same_t or ma.getmaskarray(v[k, g]).any() or not wind_ok:
                continue
            ctx.probe("window_intact")
            if bad.any():
                ctx.probe("wind_missing")
            a, b = eps[i, g], e0[i0, g]
            ctx.probe("values")
            if (a is ma.masked) != (b is ma.masked) or (a is not ma.masked and not np.isclose(float(a), float(b), rtol=1e-3)):
                ctx.violate("not-local", "lidar", f"epsilon at {x} s, gate {g} is {a}, but {b} without damage elsewhere")
                return
