"""Simulated Level 1b inputs of the Level 2 processing chain.

Every instrument runs on its own clock over the same scene, with outages; each
profile carries values that identify it, so a later product can be checked
against the profiles it may come from.
"""

import datetime

import numpy as np

from dst.devices.base import hint

DAY = datetime.date(2025, 2, 9)
SITE = ("Simsite", 50.0, 10.0, 100.0)
UUID = {k: f"{i:08d}-0000-4000-8000-{i:012d}" for i, k in enumerate(["radar", "lidar", "mwr", "disdrometer", "model", "mwr2"], 1)}
CREATED = {"radar": "2025-02-10 01:00:00 +00:00", "lidar": "2025-02-10 02:00:00 +00:00", "mwr": "2025-02-10 03:00:00 +00:00", "disdrometer": "2025-02-10 04:00:00 +00:00", "model": "2025-02-10 05:00:00 +00:00"}


MODEL_H = [10.0, 100, 300, 800, 1500, 3000, 6000, 9000, 13000]
OFF = 0.37  # s; keeps samples off the edges of the 30 s grid


def gen_scene(rng, tier="quick", max_minutes=40):
    """Times are seconds from 00:00 of the day."""
    minutes = rng.choice([4, 8, 15, 25, max_minutes])
    start = rng.choice([0, rng.randrange(0, 1380) * 60, 86400 - minutes * 60])
    end = min(86400, start + minutes * 60)
    dts = {"radar": rng.choice([3, 10, 30, 45]), "lidar": rng.choice([10, 30, 60, 110]), "mwr": rng.choice([5, 60, 200]), "disdrometer": rng.choice([60, 30, 90])}
    inst = {}
    for k, dt in dts.items():
        t = list(range(start + rng.randrange(0, dt), end, dt))
        inst[k] = {"dt": dt, "t": t}
        n_out = rng.choice([0, 0, 1, 1, 2])
        outs = []
        for _ in range(n_out):
            a = rng.randrange(start, end)
            outs.append([a, a + rng.choice([45, 90, 130, 400, 1200])])
        r = rng.random()
        if r < 0.12:
            outs.append([start, start + (end - start) // 2])
        elif r < 0.2:
            outs.append([start + (end - start) // 3, end])
        elif r < 0.23:
            outs = [[start, end]] if k not in ("radar",) else outs
        inst[k]["outages"] = outs
        inst[k]["t"] = [x for x in t if not any(a <= x < b for a, b in outs)]
        # profiles delivered but without valid data
        inst[k]["blank"] = sorted({x for x in inst[k]["t"] if rng.random() < (0.15 if rng.random() < 0.3 else 0)})
        if rng.random() < 0.25:
            a = rng.randrange(start, end)
            b = a + rng.choice([40, 100, 300])
            inst[k]["blank"] = sorted({*inst[k]["blank"], *(x for x in inst[k]["t"] if a <= x < b)})
        if not inst[k]["t"]:
            inst[k]["t"], inst[k]["blank"] = [t[0]], []
    model = {"step": rng.choice([1, 3]), "blank": [], "first": 0, "last": 24}
    if rng.random() < 0.2:
        h = start // 3600
        model["blank"] = sorted({max(0, min(24, h + rng.choice([-1, 0, 1, 2]))) for _ in range(rng.randrange(1, 3))})
    if rng.random() < 0.1:
        model["first"], model["last"] = sorted(rng.sample(range(0, 25), 2))
    if rng.random() < 0.3:  # the levels follow the pressure, and the model has its own orography
        model["wobble"] = rng.choice([0.0, 0.01, 0.03])
        model["sfc"] = rng.choice([None, "sfc_height", "sfc_geopotential"])
        model["sfc_off"] = rng.choice([-70.0, 150.0])
    if rng.random() < 0.2:  # single missing values
        h = start // 3600
        model["holes"] = [[rng.choice(["temperature", "pressure", "q", "uwind", "all"]), max(0, min(24, h + rng.choice([0, 0, 1, 2]))), rng.randrange(len(MODEL_H))] for _ in range(rng.randrange(1, 5))]
    return {
        "day": 0,
        "unit": rng.choice(["", "-2", "-3"]),  # which unit of the same model
        "no_pid": [k for k in ("radar", "lidar", "mwr", "disdrometer", "model") if rng.random() < 0.2],
        "inst": inst,
        "model": model,
        "radar_heights": {"n": rng.choice([12, 20, 30]), "first": rng.choice([100, 150]), "step": rng.choice([30, 30, 50, 100, 250])},
        "lidar_heights": {"n": rng.choice([15, 25, 60]), "first": rng.choice([10, 75]), "step": rng.choice([10, 30, 30, 60, 150])},
        "use": [k for k in ("mwr", "disdrometer") if rng.random() < 0.7],
        "source": rng.choice(["METEK MIRA-35", "METEK MIRA-35", "RPG-Radiometer Physics RPG-FMCW-94", "BASTA"]),
        "altitude": rng.choice([0.0, 100.0, 320.0]),
        "warm": rng.random() < 0.5,
        "synop": rng.random() < 0.5,
        "nyquist": rng.choice(["scalar", "grid", "chirp"]),
        "radar_rain": rng.random() < 0.5,
        "moving": rng.random() < 0.25,
        "lwp_flag": rng.random() < 0.3,
        "layer": rng.choice([0.5, 0.7, 0.9, 0.98, 1.0]),
        "cut": rng.choice([1.0, 1.0, 1.0, 0.7, 0.3]),
        "dry": rng.random() < 0.3,
    }


def date(sc):
    return DAY + datetime.timedelta(days=sc.get("day", 0))


def heights(sc, k):
    h = sc[f"{k}_heights"]
    return h["first"] + h["step"] * np.arange(h["n"], dtype=float)


# --------------------------------------------------------- measured values

def z_of(sc, t):
    """Reflectivity profile (dBZ): an ice cloud above a liquid layer above drizzle."""
    n = sc["radar_heights"]["n"]
    g = np.arange(n)
    base = -25 + 12 * np.sin(g * 0.7) + hint(0, 60, "z", t) * 0.1
    z = np.ma.array(base)
    z[no_echo(sc)] = np.ma.masked
    return z


def no_echo(sc):
    n = sc["radar_heights"]["n"]
    g = np.arange(n)
    return ((g % 9) == 8) | (g >= sc.get("cut", 1.0) * n)


def v_of(sc, t):
    n = sc["radar_heights"]["n"]
    return np.ma.array(-0.8 - 0.05 * (np.arange(n) % 5) - 0.01 * hint(0, 20, "v", t), mask=no_echo(sc))


def beta_of(sc, t):
    h = heights(sc, "lidar")
    g = np.arange(len(h))
    b = np.ma.array(1e-7 * (1 + hint(0, 900, "b", t) * 1e-3) * (1 + (g % 13)))
    if sc.get("cloud") != "ice":
        # liquid layer
        top = min(h[-1], heights(sc, "radar")[-1])
        h0 = max(250.0, min(sc.get("layer", 0.6) * top, 1500.0)) + 10 * hint(0, 3, "h0", t)
        b += 2e-4 * np.exp(-(((h - h0) / 70) ** 2))
    if sc.get("cloud") != "liquid":
        b[(g % 7) == 6] = np.ma.masked
    return b


def lwp_of(sc, t):
    return 0.02 + 0.0002 * hint(0, 900, "lwp", t)


def rain_of(sc, t):
    return 0.0 if sc.get("dry") else 1e-9 * hint(0, 900, "rr", t)


def radar_rain_of(sc, t):
    return 0.0 if sc.get("dry") else 1e-8 * hint(0, 900, "rrr", t)


def flag_of(sc, t):
    return int(sc.get("lwp_flag", False) and hint(0, 4, "lf", t) == 0)


def lat_of(sc, t):
    return SITE[1] + 1e-4 * (t // 10)


def npart_of(sc, t):
    return float(hint(0, 200, "np", t))


def temp_of(sc, hour, h):
    return (288.0 if sc["warm"] else 268.0) - 0.0065 * h + 0.05 * hour


# ------------------------------------------------------------- L1b writers

def _head(nc, sc, kind, source):
    d = date(sc)
    nc.Conventions = "CF-1.8"
    nc.cloudnet_file_type = kind
    nc.file_uuid = UUID[kind]
    nc.year, nc.month, nc.day = f"{d.year}", f"{d.month:02d}", f"{d.day:02d}"
    nc.location = SITE[0]
    nc.source = source
    nc.history = f"{CREATED[kind]} - {kind} file created"
    nc.title = f"{kind} file"
    if kind not in sc.get("no_pid", []):
        nc.instrument_pid = f"https://hdl.handle.net/21.12132/3.{kind}{sc.get('unit', '')}"


def _var(nc, name, dims, data, units="1", dtype="f4"):
    v = nc.createVariable(name, dtype, dims, fill_value=(None if dtype[0] == "S" else -999.0 if dtype[0] == "f" else -99), zlib=True)
    v.units = units
    v.long_name = name
    v[:] = data
    return v


def _common(nc, sc, n_time, heights_=None, t=None):
    nc.createDimension("time", n_time)
    for k, val, u in (("latitude", SITE[1], "degree_north"), ("longitude", SITE[2], "degree_east"), ("altitude", sc["altitude"], "m")):
        if t is not None and sc.get("moving"):
            _var(nc, k, ("time",), [lat_of(sc, x) for x in t] if k == "latitude" else [val] * len(t), u)
        else:
            _var(nc, k, (), val, u)
    if heights_ is not None:
        nc.createDimension("range", len(heights_))
        _var(nc, "range", ("range",), heights_, "m")
        _var(nc, "height", ("range",), heights_ + sc["altitude"], "m")


def _time(nc, sc, t):
    v = nc.createVariable("time", "f8", ("time",))
    v.units = f"hours since {date(sc)} 00:00:00 +00:00"
    v[:] = (np.array(t, float) + OFF) / 3600


def write_radar(sc, path):
    import netCDF4

    i = sc["inst"]["radar"]
    t = i["t"]
    z = np.ma.array([z_of(sc, x) for x in t])
    v = np.ma.array([v_of(sc, x) for x in t])
    for k, x in enumerate(t):
        if x in i["blank"]:
            z[k] = np.ma.masked
            v[k] = np.ma.masked
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        _head(nc, sc, "radar", sc["source"])
        _common(nc, sc, len(t), heights(sc, "radar"), t)
        _time(nc, sc, t)
        _var(nc, "Zh", ("time", "range"), z, "dBZ")
        _var(nc, "v", ("time", "range"), v, "m s-1")
        _var(nc, "width", ("time", "range"), np.ma.array(0.2 + 0 * z), "m s-1")
        if "MIRA" in sc["source"]:
            _var(nc, "ldr", ("time", "range"), np.ma.array(-25 + 0 * z), "dB")
        ny = sc.get("nyquist", "scalar")
        if ny == "scalar":
            _var(nc, "nyquist_velocity", (), 10.0, "m s-1")
        elif ny == "grid":
            _var(nc, "nyquist_velocity", ("time", "range"), np.full(z.shape, 10.0), "m s-1")
        else:
            nc.createDimension("chirp_sequence", 2)
            _var(nc, "nyquist_velocity", ("chirp_sequence",), [10.0, 8.0], "m s-1")
            _var(nc, "chirp_start_indices", ("chirp_sequence",), [0, z.shape[1] // 2], "1", "i4")
        if sc.get("radar_rain"):
            rr = np.ma.array([radar_rain_of(sc, x) for x in t])
            rr[[x in i["blank"] for x in t]] = np.ma.masked
            _var(nc, "rainfall_rate", ("time",), rr, "m s-1")
        _var(nc, "radar_frequency", (), 35.5 if "MIRA" in sc["source"] else 94.0, "GHz")


def write_lidar(sc, path):
    import netCDF4

    i = sc["inst"]["lidar"]
    t = i["t"]
    b = np.ma.array([beta_of(sc, x) for x in t])
    for k, x in enumerate(t):
        if x in i["blank"]:
            b[k] = np.ma.masked
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        _head(nc, sc, "lidar", "Lufft CHM 15k")
        _common(nc, sc, len(t), heights(sc, "lidar"))
        _time(nc, sc, t)
        _var(nc, "beta", ("time", "range"), b, "sr-1 m-1")
        _var(nc, "wavelength", (), 1064.0, "nm")


def write_mwr(sc, path):
    import netCDF4

    i = sc["inst"]["mwr"]
    t = i["t"]
    lwp = np.ma.array([lwp_of(sc, x) for x in t])
    for k, x in enumerate(t):
        if x in i["blank"]:
            lwp[k] = np.ma.masked
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        _head(nc, sc, "mwr", "RPG-Radiometer Physics HATPRO")
        _common(nc, sc, len(t))
        _time(nc, sc, t)
        _var(nc, "lwp", ("time",), lwp, "kg m-2")
        if sc.get("lwp_flag"):
            _var(nc, "lwp_quality_flag", ("time",), [flag_of(sc, x) for x in t], "1", "i4")


def write_disdrometer(sc, path):
    import netCDF4

    i = sc["inst"]["disdrometer"]
    t = i["t"]
    rr = np.ma.array([rain_of(sc, x) for x in t])
    for k, x in enumerate(t):
        if x in i["blank"]:
            rr[k] = np.ma.masked
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        _head(nc, sc, "disdrometer", "OTT HydroMet Parsivel2")
        _common(nc, sc, len(t))
        _time(nc, sc, t)
        _var(nc, "rainfall_rate", ("time",), rr, "m s-1")
        _var(nc, "n_particles", ("time",), [npart_of(sc, x) for x in t], "1")
        if sc["synop"]:
            _var(nc, "synop_WaWa", ("time",), [hint(50, 70, "ww", x) for x in t], "1", "i4")


def model_hours(sc):
    m = sc["model"]
    hours = list(range(0, 25, m["step"]))
    return [h for h in hours if m["first"] <= h <= m["last"]] or hours[:2]


def model_surface(sc):
    """Altitude of the model's surface (m)."""
    m = sc["model"]
    return sc["altitude"] + (m.get("sfc_off", 0) if m.get("sfc") else 0)


def model_heights(sc):
    """Heights of the model levels above its surface (time, level)."""
    w = sc["model"].get("wobble", 0)
    return np.array([np.array(MODEL_H) * (1 + w * (hh % 3)) for hh in model_hours(sc)])


def write_model(sc, path):
    import netCDF4

    hours = model_hours(sc)
    m = sc["model"]
    h = np.array(MODEL_H)
    n = len(hours)
    agl = model_heights(sc)
    amsl = agl + model_surface(sc)
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        _head(nc, sc, "model", "ECMWF Integrated Forecast System (IFS)")
        nc.createDimension("time", n)
        nc.createDimension("level", len(h))
        _time(nc, sc, np.array(hours, float) * 3600 - OFF)
        _var(nc, "latitude", (), SITE[1], "degree_north")
        _var(nc, "longitude", (), SITE[2], "degree_east")
        _var(nc, "height", ("time", "level"), agl, "m")
        if m.get("sfc") == "sfc_height":
            _var(nc, "sfc_height", ("time",), np.full(n, model_surface(sc)), "m")
        elif m.get("sfc") == "sfc_geopotential":
            _var(nc, "sfc_geopotential", ("time",), np.full(n, model_surface(sc) * 9.80665), "m2 s-2")
        temp = np.ma.array([temp_of(sc, hh, z - sc["altitude"]) for hh, z in zip(hours, amsl)])
        pres = np.ma.array(np.tile(101000 * np.exp(-h / 8000), (n, 1)))
        rh = np.ma.array(np.full((n, len(h)), 0.7))
        q = np.ma.array(np.tile(0.005 * np.exp(-h / 2500), (n, 1)))
        u = np.ma.array(np.tile(5 + h / 1000, (n, 1)))
        w = np.ma.array(np.tile(-2 + h / 2000, (n, 1)))
        for k, hh in enumerate(hours):
            if hh in sc["model"]["blank"]:
                for a in (temp, pres, rh, q, u, w):
                    a[k] = np.ma.masked
        for name, hh, lev in m.get("holes", []):
            if hh in hours:
                for key, a in (("temperature", temp), ("pressure", pres), ("q", q), ("uwind", u)):
                    if name in (key, "all"):
                        a[hours.index(hh), lev] = np.ma.masked
        for name, a, un in (("temperature", temp, "K"), ("pressure", pres, "Pa"), ("rh", rh, "1"), ("q", q, "1"), ("uwind", u, "m s-1"), ("vwind", w, "m s-1")):
            _var(nc, name, ("time", "level"), a, un, "f8")


def write_inputs(sc, path_of):
    """Returns the input mapping of generate_categorize."""
    files = {}
    write = {"radar": write_radar, "lidar": write_lidar, "mwr": write_mwr, "disdrometer": write_disdrometer}
    for k in ("radar", "lidar", *sc["use"]):
        files[k] = path_of(f"{k}.nc")
        write[k](sc, files[k])
    files["model"] = path_of("20250209_simsite_ecmwf.nc")
    write_model(sc, files["model"])
    return files


def add_lwp(sc, path):
    """A radar with its own passive channel: liquid water path on the radar's time axis."""
    import netCDF4

    t = sc["inst"]["radar"]["t"]
    with netCDF4.Dataset(path, "r+") as nc:
        _var(nc, "lwp", ("time",), np.array([lwp_of(sc, x) for x in t]), "kg m-2")
