"""C16: every Level 2 product stays aligned with its categorize file under outages."""

import hashlib
import os

import numpy as np
from numpy import ma

from dst import chain
from dst.props import c15

ID = "C16"
LEVEL = "exploration"
RULE = "a run counts when an outage, blank profiles or a model gap was injected and its event log is new"
QUICK_RUNS = 600
THOROUGH_RUNS = 20000
REAL = ["generate_categorize, generate_classification, generate_iwc, generate_ier, generate_lwc, generate_der", "netCDF4/HDF5", "output writer"]
STUB = ["instruments and model (scenario-driven Level 1b writers)", "wall clock", "kernel randomness"]
STATE_MEASURE = "instruments used x radar type x outage pattern on the 30 s grid x products x status values met"
PROBES = ["iwc_pixels", "lwc_pixels", "lwc_columns", "lwc_missing_lwp", "der_pixels", "ier_pixels", "cloud_profiles", "model_gap_steps"]
SHRINK = c15.SHRINK
warmup = c15.warmup
PRODUCTS = ("classification", "iwc", "ier", "lwc", "der")
K2 = {"Ka": 0.878, "W": 0.669}
# Hogan et al. (2006) / Griesche et al. (2020): (ZT, T, Z, c)
COEF = {
    ("iwc", "Ka"): (0.000242, -0.0186, 0.0699, -1.63),
    ("iwc", "W"): (0.000580, -0.00706, 0.0923, -0.992),
    ("ier", "Ka"): (-0.000205, -0.0015, 0.0016, -1.52),
    ("ier", "W"): (-0.000296, -0.00193, -0.000, -1.502),
}


def gen(rng, tier):
    sc = chain.gen_scene(rng, tier, max_minutes=30 if tier == "quick" else 120)
    if rng.random() < 0.6:
        sc["use"] = sorted({*sc["use"], "mwr"})
    sc["cloud"] = rng.choice(["mixed", "liquid", "ice"])
    if rng.random() < 0.15:
        sc["model"]["blank"] = [sc["inst"]["radar"]["t"][0] // 3600 + rng.choice([0, 1])]
        sc["model"]["step"] = 1
    return sc


def read(path):
    import netCDF4

    with netCDF4.Dataset(path) as nc:
        v = {k: ma.masked_array(nc[k][:]) for k in nc.variables}
        dims = {k: nc[k].dimensions for k in nc.variables}
        at = {k: getattr(nc, k) for k in nc.ncattrs()}
    return v, dims, at


def bit(a, n):
    return (np.asarray(a, np.int64) >> n & 1).astype(bool)


def run(ctx, sc):
    import cloudnetpy.products as p
    from cloudnetpy.categorize import generate_categorize

    for i in sc["inst"].values():
        if not i["t"]:
            return
        i["blank"] = [b for b in i["blank"] if b in i["t"]]
    steps, _ = c15.expected_steps(sc)
    if steps is None or len(steps) < 2:
        return
    files = chain.write_inputs(sc, lambda n: ctx.path("in", n))
    c15.faults(ctx, sc)
    cat = ctx.path("out", "categorize.nc")
    res = ctx.attempt(generate_categorize, files, cat)
    if not res.ok:
        ctx.log("categorize", res.kind)
        ctx.probe("categorize_failed")  # judged by C15
        return
    ctx.sim_s += max(sc["inst"]["radar"]["t"]) - min(sc["inst"]["radar"]["t"])
    c, _, cat_at = read(cat)
    seen = []
    for name in PRODUCTS:
        out = ctx.path("out", f"{name}.nc")
        r = ctx.attempt(getattr(p, f"generate_{name}"), cat, out)
        ctx.log(name, r.kind)
        if name in ("lwc", "der") and "mwr" not in sc["use"]:
            if r.ok or r.kind != "InvalidSourceFileError":
                ctx.violate("no-lwp", name, f"InvalidSourceFileError expected without a microwave radiometer, got {r}")
            if os.path.exists(out):
                ctx.violate("left-behind", name, "an output file exists although the product failed")
            continue
        if not r.ok:
            ctx.violate("crash", f"{name}:{r.kind}:{c15.last_site(r.tb)}", f"{r}")
            continue
        v, dims, at = read(out)
        ctx.log(name, {k: hashlib.sha256(ma.filled(a, 0).tobytes()).hexdigest()[:12] for k, a in v.items()})
        common(ctx, sc, name, c, v, dims, cat_at, at)
        {"classification": classification, "iwc": ice, "ier": ice, "lwc": lwc, "der": der}[name](ctx, sc, name, c, v, steps)
        seen.append((name, sorted({int(x) for k in v if k.endswith("status") for x in np.unique(v[k].compressed())})))
        if ctx.violations:
            return
    k = np.zeros(2880, bool)
    k[steps] = True
    ctx.state(sc["use"], sc["source"], c15.runs_of(k), seen)


def common(ctx, sc, name, c, v, dims, cat_at, at):
    for ax in ("time", "height"):
        if v[ax].shape != c[ax].shape or not np.array_equal(np.asarray(v[ax]), np.asarray(c[ax])):
            ctx.violate("axis", f"{name}:{ax}", f"{ax} of {name} differs from categorize")
            return
    nt, nh = len(c["time"]), len(c["height"])
    for k, a in v.items():
        want = tuple({"time": nt, "height": nh}.get(d) for d in dims[k])
        if a.shape != want:
            ctx.violate("shape", f"{name}:{k}", f"{k} {dims[k]} has shape {a.shape} instead of {want}")
    for k in ("year", "month", "day", "location"):
        if at.get(k) != cat_at.get(k):
            ctx.violate("attribute", f"{name}:{k}", f"{k} {at.get(k)!r} instead of {cat_at.get(k)!r}")
    if at.get("cloudnet_file_type") != name:
        ctx.violate("attribute", f"{name}:type", f"{at.get('cloudnet_file_type')!r}")


def differ(ctx, cls, key, what, got, want):
    g, w = ma.masked_array(got), ma.masked_array(want)
    bad = ma.getmaskarray(g) != ma.getmaskarray(w)
    bad |= ~np.isclose(np.asarray(ma.filled(g, 0), float), np.asarray(ma.filled(w, 0), float), rtol=2e-3, atol=0) & ~ma.getmaskarray(g) & ~ma.getmaskarray(w)
    if bad.any():
        ix = tuple(int(x[0]) for x in np.nonzero(bad))
        ctx.violate(cls, key, f"{what} at {ix}: {g[ix]} instead of {w[ix]} ({int(bad.sum())} of {bad.size} wrong)")
        return True
    return False


def classification(ctx, sc, name, c, v, steps):
    cb, qb = c["category_bits"], c["quality_bits"]
    dro, fal, fre, mel, aer, ins = (bit(cb, k) for k in range(6))
    clutter = bit(qb, 2)
    want = np.zeros(cb.shape, int)
    want[dro & ~fal] = 1
    want[~dro & fal] = 2
    want[dro & fal] = 3
    want[~dro & fal & fre] = 4
    want[dro & fal & fre] = 5
    want[mel] = 6
    want[mel & dro] = 7
    want[aer] = 8
    want[ins & ~clutter] = 9
    want[aer & ins & ~clutter] = 10
    want[clutter & ~aer] = 0
    if differ(ctx, "classification", "target", "target class", v["target_classification"], want):
        return
    rad, lid = bit(qb, 0), bit(qb, 1)
    src = np.where(rad & lid, 1, np.where(rad, 2, np.where(lid, 3, 0)))
    if differ(ctx, "classification", "source", "signal source", v["signal_source_status"], src):
        return
    if differ(ctx, "classification", "radar-bit", "radar echo bit", rad, ~ma.getmaskarray(c["Z"])) or differ(ctx, "classification", "lidar-bit", "lidar echo bit", lid, ~ma.getmaskarray(c["beta"])):
        return
    if differ(ctx, "classification", "rain", "rain_detected", v["rain_detected"], c["rain_detected"]):
        return
    h = np.asarray(c["height"], float)
    cloud = np.isin(want, (1, 3, 4, 5))
    for n in range(len(steps)):
        b, t = v["cloud_base_height_amsl"][n], v["cloud_top_height_amsl"][n]
        if (b is ma.masked) != (t is ma.masked):
            ctx.violate("classification", "cloud", f"step {n}: base {b}, top {t}")
            return
        if b is ma.masked:
            continue
        ctx.probe("cloud_profiles")
        ib, it = int(np.argmin(np.abs(h - b))), int(np.argmin(np.abs(h - t)))
        if abs(h[ib] - b) > 1 or abs(h[it] - t) > 1 or not cloud[n, ib] or not cloud[n, it] or b > t:
            ctx.violate("classification", "cloud", f"step {n}: base {b}, top {t} but cloud at {h[cloud[n]]}")
            return
        agl = v["cloud_base_height_agl"][n]
        if abs(b - agl - sc["altitude"]) > 1:
            ctx.violate("classification", "agl", f"step {n}: base {b} amsl, {agl} agl, site at {sc['altitude']}")
            return


def temperature(sc, c):
    """Model temperature at each pixel (K); linear in time and height by construction."""
    mh = np.asarray(c["model_height"], float)
    t = np.asarray(c["time"], float)[:, None]
    # beyond the lowest and the highest level the model's last value holds
    h = np.clip(np.asarray(c["height"], float), mh.min(), mh.max())[None, :] - sc["altitude"]
    return chain.temp_of(sc, t, h)


def ice(ctx, sc, name, c, v, steps):
    dro, fal, fre, mel, aer, ins = (bit(c["category_bits"], k) for k in range(6))
    q = c["quality_bits"]
    unc = (bit(q, 4) & ~bit(q, 5)) | (bit(q, 6) & ~bit(q, 7)) | (bit(q, 8) & ~bit(q, 9))
    is_ice = fal & fre & ~mel & ~ins
    band = "Ka" if float(c["radar_frequency"]) < 50 else "W"
    zt, t_, z_, k_ = COEF[name, band]
    tc = temperature(sc, c) - 273.15
    z = ma.masked_array(c["Z"], dtype=float) + 10 * np.log10(K2[band] / 0.93)
    val = 10 ** (zt * z * tc + t_ * tc + z_ * z + k_)
    val = val * (1e-3 if name == "iwc" else 3 / (2 * 917))
    val = ma.masked_where(~is_ice | unc | ma.getmaskarray(c["Z"]), val)
    if differ(ctx, "ice", name, name, v[name], val):
        return
    valid = ~ma.getmaskarray(v[name])
    ctx.probe(f"{name}_pixels", int(valid.sum()))
    st = np.asarray(v[f"{name}_retrieval_status"])
    # clear_above_rain (6) may override nothing that is ice
    if differ(ctx, "ice-status", name, "retrieved", np.isin(st, (1, 3)), valid):
        return
    if differ(ctx, "ice-status", f"{name}:uncorrected", "uncorrected", st == 2, is_ice & unc):
        return
    differ(ctx, "ice-status", f"{name}:lidar-only", "lidar only", st == 4, is_ice & ~unc & ma.getmaskarray(c["Z"]))


def lwc(ctx, sc, name, c, v, steps):
    dro = bit(c["category_bits"], 0)
    rain = np.asarray(c["rain_detected"]).astype(bool)
    lwp = ma.masked_array(v["lwp"], dtype=float)
    if differ(ctx, "lwc", "lwp", "lwp", v["lwp"], c["lwp"]):
        return
    no_lwp = ma.getmaskarray(lwp)
    a = ma.masked_array(v["lwc"], dtype=float)
    val = ~ma.getmaskarray(a) & (ma.filled(a, 0) != 0)
    st = np.asarray(v["lwc_retrieval_status"])
    dz = np.diff(np.asarray(c["height"], float) - sc["altitude"], prepend=0)
    for n in range(len(steps)):
        pix = dro[n]
        if (val[n] & ~pix).any():
            ctx.violate("lwc", "filled", f"step {n}: lwc at {np.flatnonzero(val[n] & ~pix)[:5]} where there are no droplets")
            return
        if no_lwp[n] or rain[n]:
            if val[n].any():
                ctx.violate("lwc", "invented", f"step {n}: lwc {a[n].compressed()[:4]} although lwp {lwp[n]}, rain {rain[n]}")
                return
            if pix.any():
                ctx.probe("lwc_missing_lwp" if no_lwp[n] else "lwc_rain")
                if (st[n][pix] != 4).any():
                    ctx.violate("lwc-status", "missing" if no_lwp[n] else "rain", f"step {n}: status {st[n][pix][:6]} although lwp {lwp[n]}, rain {rain[n]}")
                    return
            if no_lwp[n] and np.isin(st[n], (1, 2, 3)).any():
                ctx.violate("lwc-status", "missing", f"step {n}: status {st[n]} although there is no lwp")
                return
        elif pix.any() and lwp[n] > 0:
            ctx.probe("lwc_pixels", int(pix.sum()))
            if (pix & ~val[n]).any():
                ctx.violate("lwc", "lost", f"step {n}: no lwc at {np.flatnonzero(pix & ~val[n])[:5]} although lwp {lwp[n]}")
                return
            total = float((ma.filled(a[n], 0) * dz).sum())
            if abs(total / lwp[n] - 1) > 1e-3:
                ctx.violate("lwc", "integral", f"step {n}: lwc integrates to {total} but lwp is {lwp[n]}")
                return
            if not np.isin(st[n][pix], (1, 2)).all():
                ctx.violate("lwc-status", "retrieved", f"step {n}: status {st[n][pix][:6]} of retrieved pixels")
                return
            ctx.probe("lwc_columns")


def der(ctx, sc, name, c, v, steps):
    dro = bit(c["category_bits"], 0)
    has_z = ~ma.getmaskarray(c["Z"])
    no_lwp = ma.getmaskarray(c["lwp"])
    want = dro & has_z
    z = ma.filled(ma.masked_array(c["Z"], dtype=float), -200)
    val = ma.masked_where(~want, 0.5 * (10 ** (z / 10) / 200e6) ** (1 / 6) * np.exp(-0.5 * 0.35**2) * 1e-3)
    if differ(ctx, "der", "der", "der", v["der"], val):
        return
    ctx.probe("der_pixels", int(want.sum()))
    lwp = ma.filled(ma.masked_array(c["lwp"], dtype=float), 0)
    differ(ctx, "der", "scaled", "der_scaled exists", ~ma.getmaskarray(v["der_scaled"]), want & ~no_lwp[:, None] & (lwp > 0)[:, None])
    st = np.asarray(v["der_retrieval_status"])
    differ(ctx, "der-status", "retrieved", "retrieved", np.isin(st, (1, 2, 3)), want)
