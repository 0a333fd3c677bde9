"""C12: a run of the command line tool delivers the requested products from the right inputs, whatever the timing."""

import os

import numpy as np

from dst import attribution as at
from dst import ops, portal
from dst.core import HarnessError, derive

ID = "C12"
QUICK_RUNS = 450
THOROUGH_RUNS = 12000
LEVEL = "exploration"
RULE = "a run counts when the scheduler switched threads at least once and its event log is new"
REAL = ["cloudnetpy.cli.run and everything it calls (converters, concatenation, generate_categorize, products)", "netCDF4/HDF5", "file system"]
STUB = ["data portal, API client and network (dst.portal.Client)", "concurrent.futures thread pool (seeded scheduler, one worker at a time, switches at network operations and source lines)", "rpgpy binary reader", "keyboard input", "wall clock", "kernel randomness"]
STATE_MEASURE = "order in which the scheduler ran the download threads x requested products x files present"
PROBES = ["inputs_checked", "raw_product_checked", "raw_files_checked"]
SHRINK = ["runs", "world.raw", "world.l1", "world.raw.*.files", "world.raw.*.files.*.recs", "runs.*.products"]


def warmup():
    ops.warmup()
    import cloudnetpy.cli  # noqa: F401


def gen_products(rng, world):
    """What the user asks for."""
    res = []
    for p in sorted({r["product"] for r in world["raw"]}):
        if rng.random() < 0.75:
            res.append(p)
    r = rng.random()
    if r < 0.6:
        res.append("categorize")
    if r < 0.75 or (world["categorize"] and rng.random() < 0.7):
        res += rng.sample(ops.PRODUCTS, rng.choice([0, 1, 1, 2]))
    if not res:
        res = ["categorize"]
    if rng.random() < 0.2:
        rng.shuffle(res)
    return res


def gen_run(rng, world):
    run = {"products": gen_products(rng, world), "answer": 1, "force": rng.random() < 0.2, "sched": rng.randrange(2**40)}
    prefs = []
    for p in ("radar", "lidar"):
        iids = [e for e in world["l1"] if e["as"] == p]
        if iids and rng.random() < 0.3:
            e = rng.choice(iids)
            val = rng.choice([e["iid"], portal.pid_of(e["n"])])
            prefs.append(f"{p}:" + (f"no-such-instrument,{val}" if rng.random() < 0.2 else val))
    run["prefs"] = prefs
    if rng.random() < 0.1:
        run["model"] = rng.choice(world["models"]) if world["models"] else None
    run["out"] = rng.choice(["output", "output", "output", "categorize", "data/my categorize"])
    n = len({(r["iid"], r["n"]) for r in world["raw"]})
    run["dl"] = rng.random() < 0.07
    run["answer"] = rng.randrange(1, max(n, 1) + 1)
    return run


def gen(rng, tier):
    world = portal.gen_world(rng, tier)
    runs = [gen_run(rng, world)]
    if rng.random() < 0.4:
        runs.append({**gen_run(rng, world), "out": runs[0]["out"]})
    return {"world": world, "runs": runs}


# ---------------------------------------------------------------- oracle

def chosen_raw(world, run, product):
    """The raw data set the tool has to process, None if there is none, or "ask" if the answer is not usable."""
    prefs = preferences(run).get(product)
    cands = [r for r in world["gen"]["raw"] if r["product"] == product]
    ids = [p for p in prefs or [] if not p.startswith("https://")]
    match = [i for i in ids if any(i == x for p, x, _ in portal.RAW_KINDS if p == product)]
    if match:
        cands = [r for r in cands if r["iid"] in match]
    cands = [r for r in cands if any(usable(world, f, product) for f in world["raw"] if f["k"] == world["gen"]["raw"].index(r))]
    if not cands:
        return None
    if prefs:
        for p in prefs:
            hits = [r for r in cands if r["iid"] == p or portal.pid_of(r["n"]) == p]
            if hits:
                return hits[0] if len(hits) == 1 else hits
    if len(cands) == 1:
        return cands[0]
    cands = sorted(cands, key=lambda r: r["name"])
    if not 1 <= run["answer"] <= len(cands):
        return None
    # equal names: any of them may be meant
    same = [r for r in cands if r["name"] == cands[run["answer"] - 1]["name"]]
    return same[0] if len(same) == 1 else same


def usable(world, f, product):
    return f["status"] in ("uploaded", "processed")


def preferences(run):
    res = {}
    for a in run.get("prefs") or []:
        p, v = a.split(":", 1)
        res.setdefault(p, []).extend(x for x in v.split(",") if x)
    return res


def instrument_file(r):
    return f"instrument/{portal.YMD}_{portal.SITE_ID}_{r['iid']}_{portal.short_pid(r['n'])}.nc"


def portal_file(world, product, source=None):
    fs = [f for f in world["products"] if f["product"] == product]
    if source:
        fs = [f for f in fs if f.get("instrument") and (f["instrument"][0] == source or portal.pid_of(f["instrument"][1]) == source)]
    return fs[0] if fs else None


def place(f):
    return ("geophysical/" if f["product"] in portal.GEOPHYSICAL else "instrument/") + f["name"]


def plan(world, run):
    """Files the tool must leave in the output folder and, for each generated file, the files it must be made of."""
    files, sources, local = {}, {}, {}
    prefs = preferences(run)
    for p in dict.fromkeys(x for x, _, _ in portal.RAW_KINDS):
        if p in run["products"]:
            r = chosen_raw(world, run, p)
            if isinstance(r, list):
                return None  # several instruments fit equally well
            if r is not None:
                files[instrument_file(r)] = ("instrument", r)
                local[p] = instrument_file(r)
    cat = None
    if "categorize" in run["products"]:
        used = {}
        for p in ("radar", "lidar", "disdrometer", "mwr"):
            if p in local:
                used[p] = local[p]
                continue
            f = None
            if p == "mwr":
                for q, s in (("mwr-single", None), ("mwr", None), ("radar", "rpg-fmcw-35"), ("radar", "rpg-fmcw-94")):
                    f = f or portal_file(world, q, s)
            else:
                for s in prefs.get(p, []):
                    f = f or portal_file(world, p, s)
                    if f is None and p == "lidar":
                        f = portal_file(world, "doppler-lidar", s)
                f = f or portal_file(world, p)
            if f is not None:
                used[p] = place(f)
                files.setdefault(place(f), ("portal", f))
        ms = [f for f in world["products"] if f["product"] == "model" and (not run.get("model") or f["model"] == run["model"])]
        if ms:
            used["model"] = place(ms[0])
            files.setdefault(place(ms[0]), ("portal", ms[0]))
        if not {"radar", "lidar", "model"} <= set(used):
            return {"files": files, "sources": sources, "incomplete": True, "used": used}
        cat = f"geophysical/{portal.YMD}_{portal.SITE_ID}_categorize.nc"
        files[cat] = ("made", "categorize")
        sources[cat] = list(dict.fromkeys(used.values()))
    for p in run["products"]:
        if p in ops.PRODUCTS:
            if cat is None:
                f = portal_file(world, "categorize")
                if f is None:
                    break
                cat = place(f)
                files.setdefault(cat, ("portal", f))
            out = f"geophysical/{portal.YMD}_{portal.SITE_ID}_{p}.nc"
            files[out] = ("made", p)
            sources[out] = [cat]
    return {"files": files, "sources": sources, "incomplete": False}


def uuid_of(path):
    import netCDF4

    with netCDF4.Dataset(path) as nc:
        return nc.file_uuid, [x.strip() for x in getattr(nc, "source_file_uuids", "").split(",") if x.strip()], getattr(nc, "cloudnet_file_type", "")


def tree(path):
    res = {}
    for root, _, names in os.walk(path):
        for n in names:
            p = os.path.join(root, n)
            res[os.path.relpath(p, path)] = p
    return res


def look(path):
    if path.endswith(".nc"):
        try:
            return ops.content(path)
        except OSError:
            pass
    with open(path, "rb") as f:
        return f.read()


def differs(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        d = ops.first_difference(a, b)
        return d[1] if d else None
    return None if a == b else "different bytes"


def call(ctx, world, run, root, seed, moment, net=None, disk=None):
    code, res = ctx.in_child(portal.cli_run, ctx, world, run, root, seed, moment, net, disk)
    if res is None:
        return {"kind": "died", "code": code, "msg": f"exit {code}", "hit": True, "counts": {}, "switches": 0, "trace": [], "downloaded": []}
    if res[0] != "ok":
        raise HarnessError(res[1])
    return res[1]


def key_of(run):
    return "+".join(run["products"][:3])


def run(ctx, sc):
    import shutil

    world = portal.build_world(ctx, sc["world"], sc["seed"])
    devs = ops.usable()
    main, ref = ctx.path("main", "x")[:-2], ctx.path("ref", "x")[:-2]
    os.makedirs(main, exist_ok=True)
    for k, r in enumerate(sc["runs"]):
        shutil.rmtree(ref, ignore_errors=True)
        shutil.copytree(main, ref)
        before = set(tree(main))
        a = call(ctx, world, r, ref, None, k)
        b = call(ctx, world, r, main, r["sched"], k)
        ctx.log("run", k, a["kind"], b["kind"], b["trace"], b["switches"])
        ctx.state(b["trace"], r["products"], sorted(before))
        if b["switches"]:
            ctx.fault("thread_switch", b["switches"])
        ctx.probe(f"outcome_{a['kind']}")
        ctx.sim_s += 3600
        # the timing of the downloads changes nothing
        if a["kind"] != b["kind"]:
            ctx.violate("schedule", f"{a['kind']}-{b['kind']}", f"run {k} of {r['products']}: {a['kind']} when the downloads run one after another, {b['kind']} with schedule {r['sched']}: {b['msg']}")
            return
        ta, tb = tree(ref), tree(main)
        if set(ta) != set(tb):
            ctx.violate("schedule", "files", f"run {k}: files differ between schedules: {sorted(set(ta) ^ set(tb))[:6]}")
            return
        for n in sorted(ta):
            d = differs(look(ta[n]), look(tb[n]))
            if d:
                ctx.violate("schedule", f"content:{kind_of(n)}", f"run {k}: {n} depends on the timing of the downloads: {d}")
                return
        if not judge(ctx, world, r, k, b, main, before, devs, sc):
            return
        if b["kind"] != "ok":
            return


def kind_of(n):
    b = os.path.basename(n)
    return b.replace(".nc", "").split("_")[-1] if "geophysical" in n else "instrument" if "instrument" in n else "input"


def judge(ctx, world, r, k, res, root, before, devs, sc):
    out = os.path.join(root, r["out"], portal.SITE_ID, portal.DATE)
    pl = plan(world, r)
    if pl is None:
        ctx.probe("ambiguous_instrument")
        return True
    if res["kind"] != "ok":
        return refusal(ctx, world, r, k, res, pl, devs)
    have = tree(out)
    for n, (how, what) in pl["files"].items():
        if how == "instrument" and not judge_raw(ctx, world, what, os.path.join(root, "input"), n):
            return False
    if r.get("dl"):
        new = [n for n in have if os.path.join(r["out"], portal.SITE_ID, portal.DATE, n) not in before]
        if new:
            ctx.violate("unexpected-file", "download-only", f"run {k} of {r['products']} was to download raw data only but made {new}")
        ctx.probe("download_only")
        return not new
    if pl["incomplete"]:
        ctx.probe("no_sources")
        return True
    for n in pl["files"]:
        if n not in have:
            ctx.violate("missing-product", kind_of(n), f"run {k} of {r['products']} reported success but {n} does not exist; files: {sorted(have)}")
            return False
    extra = [n for n in have if n not in pl["files"] and os.path.join(r["out"], portal.SITE_ID, portal.DATE, n) not in before]
    if extra:
        ctx.violate("unexpected-file", kind_of(extra[0]), f"run {k} of {r['products']} left files nobody asked for: {extra[:5]}")
        return False
    names = {n: uuid_of(p) for n, p in have.items() if p.endswith(".nc")}
    for n, (how, what) in pl["files"].items():
        if how == "made":
            if names[n][2] != what:
                ctx.violate("wrong-product", what, f"{n} is a {names[n][2]!r} file")
            want = {names[s][0] for s in pl["sources"][n]}
            got = set(names[n][1])
            if got != want:
                extra = {v[0]: s for s, v in names.items()}
                ctx.violate("wrong-inputs", what, f"run {k} of {r['products']} (prefs {r['prefs']}): {n} is made of {sorted(extra.get(u, u) for u in got)}, should be {sorted(pl['sources'][n])}")
                return False
            ctx.probe("inputs_checked")
        elif how == "instrument":
            if not judge_instrument(ctx, world, what, have[n], devs):
                return False
    return True


def judge_raw(ctx, world, r, folder, name):
    """Every raw file of the instrument was downloaded and is complete."""
    k = world["gen"]["raw"].index(r)
    folder = os.path.join(folder, portal.SITE_ID, portal.DATE, f"{r['iid']}_{portal.short_pid(r['n'])}")
    for f in world["raw"]:
        if f["k"] != k or not usable(world, f, r["product"]):
            continue
        p = os.path.join(folder, f["name"])
        if not os.path.exists(p):
            ctx.violate("missing-raw-file", r["iid"], f"{f['name']} of {r['iid']} was not downloaded; files: {sorted(os.listdir(folder)) if os.path.isdir(folder) else None}")
            return False
        if look_raw(p) != world["blobs"][f["blob"]]:
            ctx.violate("broken-raw-file", r["iid"], f"{p} differs from the file of the portal")
            return False
        ctx.probe("raw_files_checked")
    return True


def look_raw(p):
    with open(p, "rb") as f:
        return f.read()


def judge_instrument(ctx, world, r, path, devs):
    dev = devs[r["device"]]
    if hasattr(dev, "configure"):
        dev.configure(r["opts"])
    k = world["gen"]["raw"].index(r)
    valid = {f["i"] for f in world["raw"] if f["k"] == k and usable(world, f, r["product"])}
    recs = [x for i, f in enumerate(r["files"]) if i in valid for x in dev.as_written(f["recs"])]
    names = (list(dev.expected(recs[0])) if recs else []) + list(getattr(dev, "axes", dict)())
    prod = at.read_product(path, names)
    n = len(ctx.violations)
    at.check_product(ctx, dev, prod, recs, f"cli:{r['product']}:{r['iid']}")
    ctx.probe("raw_product_checked")
    return len(ctx.violations) == n


def refusal(ctx, world, r, k, res, pl, devs):
    """The run failed without any fault: allowed only if an input really cannot be used."""
    if res["kind"] in ("ValidTimeStampError", "DisdrometerDataError", "RadarDataError", "LidarDataError", "HatproDataError", "InvalidFileError", "InvalidSourceFileError"):
        ctx.probe("refused_data")
        return True
    if res["kind"] == "KeyError" and pl["incomplete"]:
        ctx.probe("refused_no_sources")
        return True
    for n, (how, what) in pl["files"].items():
        if how != "instrument":
            continue
        dev = devs[what["device"]]
        k = world["gen"]["raw"].index(what)
        valid = sorted({f["i"] for f in world["raw"] if f["k"] == k and usable(world, f, what["product"])})
        if what["iid"] == "basta" and len(valid) > 1:
            return True
        files = [dev.as_written(what["files"][i]["recs"]) for i in valid]
        if at.allowed_to_refuse(dev, [x for f in files for x in f], files):
            ctx.probe("refused_data")
            return True
    ctx.violate("failed", f"{res['kind']}:{'+'.join(sorted(world_ids(world, r)))}", f"run {k} of {r['products']} failed although nothing was wrong: {res['msg']}")
    return False


def world_ids(world, r):
    return {x["iid"] for x in world["gen"]["raw"] if x["product"] in r["products"]} or {"-"}
