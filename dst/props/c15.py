"""C15: categorize gridding neither fills outages nor moves data in time or height."""

import hashlib
import os

import numpy as np
from numpy import ma

from dst import chain

ID = "C15"
LEVEL = "exploration"
RULE = "a run counts when an outage, blank profiles or a model gap was injected and its event log is new"
QUICK_RUNS = 700
THOROUGH_RUNS = 20000
REAL = ["generate_categorize and everything below it", "netCDF4/HDF5", "output writer"]
STUB = ["instruments and model (scenario-driven Level 1b writers)", "wall clock", "kernel randomness"]
STATE_MEASURE = "instruments used x outage pattern of each instrument on the 30 s grid (run lengths) x outcome"
PROBES = ["time_steps", "z_pixels", "beta_pixels", "lwp_steps", "lwp_masked", "rain_steps", "rain_masked", "refused_overlap", "refused_model"]
SHRINK = ["inst.radar.t", "inst.lidar.t", "inst.mwr.t", "inst.disdrometer.t", "inst.radar.blank", "inst.lidar.blank", "inst.mwr.blank", "inst.disdrometer.blank", "model.blank", "use"]
HALF = 15.0


def warmup():
    import cloudnetpy.categorize
    import cloudnetpy.products  # noqa: F401


def gen(rng, tier):
    return chain.gen_scene(rng, tier, max_minutes=40 if tier == "quick" else 240)


def expected_steps(sc):
    """(grid indices that must be kept, number of valid model profiles)."""
    k = np.arange(2880)
    c = 30.0 * k + HALF
    rt = np.array(sc["inst"]["radar"]["t"], float) + chain.OFF
    has_radar = np.isin(k, (rt // 30).astype(int))
    li = sc["inst"]["lidar"]
    lt = np.array([t for t in li["t"] if t not in set(li["blank"])], float) + chain.OFF
    has_lidar = np.array([len(lt) > 0 and np.abs(lt - x).min() <= 60 for x in c])
    hours = np.array(chain.model_hours(sc), float)
    ok = np.array([h not in sc["model"]["blank"] for h in hours])
    if ok.sum() < 2:
        return None, int(ok.sum())
    good = hours[ok] * 3600
    near = np.array([ok[np.argmin(np.abs(hours * 3600 - x))] for x in c])
    has_model = near & (c >= good[0]) & (c <= good[-1])
    return k[has_radar & has_lidar & has_model], int(ok.sum())


def runs_of(mask):
    out, last = [], None
    for m in mask:
        if m == last:
            out[-1][1] += 1
        else:
            out.append([bool(m), 1])
            last = m
    return out


def check_file(ctx, sc, path, steps):
    import netCDF4

    with netCDF4.Dataset(path) as nc:
        nc.set_auto_mask(True)
        v = {k: nc[k][:] for k in nc.variables}
    t = np.asarray(v["time"]) * 3600
    want = 30.0 * steps + HALF
    if len(t) != len(want) or np.abs(t - want).max() > 0.5:
        extra = sorted({int(x // 30) for x in t} - set(steps.tolist()))[:5]
        lost = sorted(set(steps.tolist()) - {int(x // 30) for x in t})[:5]
        ctx.violate("time-steps", "filled" if extra else "lost" if lost else "moved", f"{len(t)} steps instead of {len(want)}; not expected {extra}, missing {lost}")
        return
    for name, a in v.items():
        if nc_dims_bad(a, name, len(t), sc):
            ctx.violate("shape", name, f"{name} has shape {np.shape(a)}")
            return
    ctx.probe("time_steps", len(t))
    ctx.log("content", {k: hashlib.sha256(ma.filled(ma.masked_array(a), 0).tobytes()).hexdigest()[:12] for k, a in v.items()})
    h = chain.heights(sc, "radar") + sc["altitude"]
    if not np.allclose(np.asarray(v["height"]), h, atol=0.5):
        ctx.violate("height-axis", "height", f"{v['height']} instead of {h}")
        return
    radar(ctx, sc, v, steps)
    lidar(ctx, sc, v, want, h)
    series(ctx, sc, v, want, "mwr", "lwp", chain.lwp_of, 120.0, "lwp")
    series(ctx, sc, v, want, "disdrometer", "rainfall_rate", chain.rain_of, 60.0, "rain")
    model(ctx, sc, v)
    location(ctx, sc, v, want)


def nc_dims_bad(a, name, nt, sc):
    s = np.shape(a)
    n = sc["radar_heights"]["n"]
    if name in ("Z", "v", "beta", "category_bits", "quality_bits", "Tw", "width", "v_sigma", "Z_error", "insect_prob", "radar_gas_atten", "radar_liquid_atten", "radar_rain_atten", "radar_melting_atten"):
        return s != (nt, n)
    if name in ("lwp", "lwp_error", "rainfall_rate", "rain_detected", "time"):
        return s != (nt,)
    return False


def near_hole(sc, hour):
    """Whether the model misses a value its specific attenuation depends on, within a model step."""
    step = max(sc["model"]["step"], 1) + 0.5
    return any(name != "uwind" and abs(hh - hour) <= step for name, hh, _ in sc["model"].get("holes", []))


def radar(ctx, sc, v, steps):
    i = sc["inst"]["radar"]
    by = {}
    for t in i["t"]:
        by.setdefault(int((t + chain.OFF) // 30), []).append(t)
    atten = sum(ma.filled(ma.masked_array(v[f"radar_{k}_atten"], dtype=float), 0) for k in ("gas", "liquid", "rain", "melting"))
    z = ma.masked_array(v["Z"], dtype=float)
    mask = ma.getmaskarray(z)
    noisy = len(steps) < 300 and not any(k in sc["source"].lower() for k in ("rpg", "basta"))
    for n, k in enumerate(steps.tolist()):
        ts = [t for t in by[k] if t not in set(i["blank"])]
        if ts:
            lin = ma.mean(ma.power(10.0, ma.array([chain.z_of(sc, t) for t in ts]) / 10), axis=0)
            exp = 10 * ma.log10(lin)
            vel = ma.mean(ma.array([chain.v_of(sc, t) for t in ts]), axis=0)
        else:
            exp = ma.masked_all(z.shape[1])
            vel = exp
        em = ma.getmaskarray(exp)
        lost = mask[n] & ~em
        if lost.any() and near_hole(sc, (k * 30 + 15) / 3600):
            # attenuation is unknown (and Z withheld) where the model misses what it depends on
            lost &= ~ma.getmaskarray(ma.masked_array(v["radar_gas_atten"]))[n]
            ctx.probe("z_without_attenuation", int((mask[n] & ~em).sum() - lost.sum()))
        if (~mask[n] & em).any() or (noisy and lost.any()):
            ctx.violate("radar-mask", "filled" if (~mask[n] & em).any() else "lost", f"step {k} ({len(ts)} profiles): Z valid at {np.flatnonzero(~mask[n])[:6]} instead of {np.flatnonzero(~em)[:6]}")
            return
        ok = ~mask[n]
        d = np.abs(z.data[n] - atten[n] - ma.filled(exp, 0))[ok]
        if d.size and d.max() > 0.02:
            ctx.violate("radar-values", "Z", f"step {k}: Z without attenuation {(z.data[n] - atten[n])[ok][:4]} instead of {ma.filled(exp, 0)[ok][:4]} ({len(ts)} profiles)")
            return
        vv = ma.masked_array(v["v"][n], dtype=float)
        d = np.abs(ma.filled(vv - vel, 0))
        if d.max() > 0.02:
            ctx.violate("radar-values", "v", f"step {k}: v {vv[:4]} instead of {vel[:4]}")
            return
        ctx.probe("z_pixels", int(ok.sum()))


def lidar(ctx, sc, v, centres, h):
    i = sc["inst"]["lidar"]
    good = np.array([t for t in i["t"] if t not in set(i["blank"])])
    lh = chain.heights(sc, "lidar") + sc["altitude"]
    b = ma.masked_array(v["beta"], dtype=float)
    mask = ma.getmaskarray(b)
    gd = np.abs(lh[None, :] - h[:, None])
    for n, c in enumerate(centres):
        t = good[np.argmin(np.abs(good + chain.OFF - c))]
        prof = chain.beta_of(sc, int(t))
        for g in range(len(h)):
            near = np.flatnonzero(gd[g] <= gd[g].min() + 1e-6)
            in_range = lh[0] - 1e-6 <= h[g] <= lh[-1] + 1e-6 and gd[g].min() <= 100 + 1e-6
            edge = abs(gd[g].min() - 100) < 1e-3 or abs(h[g] - lh[0]) < 1e-3 or abs(h[g] - lh[-1]) < 1e-3
            opts = [prof[k] for k in near] if in_range else [ma.masked]
            if edge or not good[0] <= c - chain.OFF <= good[-1]:
                opts = [*opts, ma.masked]
            if mask[n, g]:
                if not any(o is ma.masked for o in opts):
                    ctx.violate("lidar", "lost", f"step at {c} s, {h[g]} m: beta missing instead of {opts}")
                    return
                continue
            vals = [o for o in opts if o is not ma.masked]
            if not vals:
                ctx.violate("lidar", "filled", f"step at {c} s, {h[g]} m: beta {b[n, g]} where the nearest valid profile ({t} s) has none")
                return
            if min(abs(b[n, g] / x - 1) for x in vals) > 1e-4:
                ctx.violate("lidar", "value", f"step at {c} s, {h[g]} m: beta {b[n, g]} instead of {vals} of the profile at {t} s")
                return
            ctx.probe("beta_pixels")


def series(ctx, sc, v, centres, key, name, fun, limit, probe):
    if key not in sc["use"]:
        if key == "disdrometer" and sc.get("radar_rain"):
            radar_rain(ctx, sc, v, centres)
        elif name in v and not ma.getmaskarray(ma.masked_array(v[name])).all():
            ctx.violate(name, "invented", f"{name} without {key}")
        return
    i = sc["inst"][key]
    ts = np.array([t for t in i["t"] if t not in set(i["blank"]) and not (key == "mwr" and chain.flag_of(sc, t))], float) + chain.OFF
    a = ma.masked_array(v[name], dtype=float)
    m = ma.getmaskarray(a)
    vals = np.array([fun(sc, int(t)) for t in ts])
    for n, c in enumerate(centres):
        near = np.abs(ts - c).min() if len(ts) else np.inf
        if near > limit:
            if not m[n]:
                ctx.violate(name, "filled", f"step at {c} s: {name} {a[n]} although the nearest sample is {near} s away")
                return
            ctx.probe(f"{probe}_masked")
            continue
        if m[n]:
            ctx.violate(name, "lost", f"step at {c} s: no {name} although a sample is {near} s away")
            return
        exp = np.interp(c, ts, vals)
        if abs(a[n] - exp) > 1e-4 * max(abs(exp), 1e-12) + 1e-12:
            ctx.violate(name, "value", f"step at {c} s: {name} {a[n]} instead of {exp}")
            return
        ctx.probe(f"{probe}_steps")


def radar_rain(ctx, sc, v, centres):
    i = sc["inst"]["radar"]
    a = ma.masked_array(v["rainfall_rate"], dtype=float)
    for n, c in enumerate(centres):
        ts = [t for t in i["t"] if abs(t + chain.OFF - c) < HALF and t not in set(i["blank"])]
        if not ts:
            if a[n] is not ma.masked:
                ctx.violate("radar-rain", "filled", f"step at {c} s: rainfall rate {a[n]} although the radar measured none")
                return
            ctx.probe("radar_rain_masked")
            continue
        exp = np.mean([chain.radar_rain_of(sc, t) for t in ts])
        if a[n] is ma.masked or abs(a[n] - exp) > 1e-4 * exp + 1e-13:
            ctx.violate("radar-rain", "value", f"step at {c} s: rainfall rate {a[n]} instead of {exp}")
            return
        ctx.probe("radar_rain_steps")


def location(ctx, sc, v, centres):
    lat = np.asarray(v["latitude"], float)
    if not sc.get("moving"):
        if np.abs(lat - chain.SITE[1]).max() > 2e-5:
            ctx.violate("location", "value", f"latitude {lat} instead of {chain.SITE[1]}")
        return
    ts = np.array(sc["inst"]["radar"]["t"]) + chain.OFF
    if lat.shape != centres.shape:
        ctx.violate("location", "shape", f"latitude has shape {lat.shape}")
        return
    for n, c in enumerate(centres):
        d = np.abs(ts - c)
        opts = [chain.lat_of(sc, int(t)) for t in ts[d <= d.min() + 1e-3]]
        if min(abs(lat[n] - o) for o in opts) > 2e-5:
            ctx.violate("location", "value", f"step at {c} s: latitude {lat[n]} instead of {opts}")
            return


def model(ctx, sc, v):
    hours = chain.model_hours(sc)
    if not np.allclose(np.asarray(v["model_time"], float), hours, atol=1e-3):
        ctx.violate("model", "time", f"{v['model_time']} instead of {hours}")
        return
    t = ma.masked_array(v["temperature"], dtype=float)
    h = np.asarray(v["model_height"], float) - sc["altitude"]
    if np.abs(h - (chain.model_heights(sc).mean(axis=0) + chain.model_surface(sc) - sc["altitude"])).max() > 0.5:
        ctx.violate("model", "height", f"model heights {v['model_height']} above sea level")
        return
    for n, hh in enumerate(hours):
        if hh in sc["model"]["blank"]:
            if not ma.getmaskarray(t)[n].all():
                ctx.violate("model", "filled", f"temperature at {hh} h although the model gave none")
                return
        elif np.abs(ma.filled(t[n], 0) - chain.temp_of(sc, hh, h)).max() > 0.01:
            ctx.violate("model", "value", f"temperature at {hh} h: {t[n]} instead of {chain.temp_of(sc, hh, h)}")
            return


def faults(ctx, sc):
    for k in ("radar", "lidar", *sc["use"]):
        i = sc["inst"][k]
        ctx.fault(f"{k}_outage", len(i["outages"]))
        ctx.fault(f"{k}_blank_profiles", len(i["blank"]))
    ctx.fault("model_gap", len(sc["model"]["blank"]))
    ctx.fault("model_missing_values", len(sc["model"].get("holes", [])))
    ctx.fault("model_short", int((sc["model"]["first"], sc["model"]["last"]) != (0, 24)))


def run(ctx, sc):
    from cloudnetpy.categorize import generate_categorize

    for i in sc["inst"].values():
        if not i["t"]:
            return
        i["blank"] = [b for b in i["blank"] if b in i["t"]]
    files = chain.write_inputs(sc, lambda n: ctx.path("in", n))
    faults(ctx, sc)
    ctx.sim_s += max(sc["inst"]["radar"]["t"]) - min(sc["inst"]["radar"]["t"])
    steps, n_model = expected_steps(sc)
    out = ctx.path("out", "categorize.nc")
    res = ctx.attempt(generate_categorize, files, out)
    ctx.log("categorize", res.kind, sorted(sc["use"]), None if steps is None else steps.tolist())
    if steps is None or len(steps) < 2:
        want = "ModelDataError" if steps is None else "ValidTimeStampError"
        ctx.probe("refused_model" if steps is None else "refused_overlap")
        if res.ok:
            ctx.violate("not-refused", want, f"{0 if steps is None else len(steps)} usable steps, {n_model} model profiles, but a product was written")
        elif res.kind not in (want, "ModelDataError" if n_model < 2 else want):
            ctx.violate("wrong-error", f"{want}:{res.kind}", f"{want} expected, got {res}")
        if os.path.exists(out):
            ctx.violate("left-behind", want, "an output file exists although categorize failed")
    elif not res.ok:
        ctx.violate("crash", f"{res.kind}:{last_site(res.tb)}", f"{len(steps)} usable steps but {res}")
    else:
        check_file(ctx, sc, out, steps)
    k = np.zeros(2880, bool)
    if steps is not None:
        k[steps] = True
    ctx.state(sc["use"], runs_of(k), res.kind)


def last_site(tb):
    import re

    m = re.findall(r'File "[^"]*/cloudnetpy/([^"]+)", line \d+, in (\w+)', tb or "")
    return f"{m[-1][0]}:{m[-1][1]}" if m else "?"
