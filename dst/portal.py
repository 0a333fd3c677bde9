"""Simulated data portal, network and thread scheduler for the command line tool.

The portal holds raw files (written by simulated instruments) and product files (written by the
simulated site of dst.chain).  The API client is a stub with the behaviour of cloudnet_api_client
(size-and-name check of existing files, `.part` files, retries); every chunk of every download and
every executed line of the tool's own download threads is a point where the seeded scheduler may
switch to another download, the network may fail or the process may be killed.
"""

import argparse
import concurrent.futures
import contextlib
import datetime
import os
import random
import shutil
import sys
import tempfile
import threading
import uuid as uuidlib
from pathlib import Path

from dst import chain, ops
from dst.core import SIM_EPOCH, derive

SITE_ID = "simsite"
DATE = "2025-02-09"
YMD = "20250209"

#: (product, instrument id, simulated devices)
RAW_KINDS = [
    ("radar", "mira-35", ["mira"]),
    ("radar", "mira-10", ["mira"]),
    ("radar", "rpg-fmcw-94", ["rpg"]),
    ("radar", "basta", ["basta"]),
    ("radar", "copernicus", ["copernicus"]),
    ("radar", "galileo", ["galileo"]),
    ("lidar", "chm15k", ["chm15k"]),
    ("lidar", "cl61d", ["cl61d"]),
    ("lidar", "cl31", ["cl31"]),
    ("lidar", "cl51", ["cl51"]),
    ("lidar", "ct25k", ["ct25k"]),
    ("lidar", "cs135", ["cs135"]),
    ("lidar", "da10", ["da10"]),
    ("lidar", "pollyxt", ["pollyxt"]),
    ("mwr", "hatpro", ["hatpro"]),
    ("mrr", "mrr-pro", ["mrr_list"]),
    ("disdrometer", "parsivel", ["parsivel_asdo", "parsivel_toa5", "parsivel_logger"]),
    ("disdrometer", "thies-lnm", ["thies_raw", "thies_logger"]),
    ("weather-station", "weather-station", ["ws_palaiseau", "ws_granada", "ws_kenttarova", "ws_hyytiala"]),
]
SOURCES = {
    "iwc": ["categorize"], "lwc": ["categorize"], "ier": ["categorize"], "der": ["categorize"], "classification": ["categorize"], "categorize": ["radar", "lidar", "mwr", "model"],
}
GEOPHYSICAL = {"categorize", "mwr-single", *ops.PRODUCTS}
CHUNK = 6000


class NetworkError(OSError):
    """Stands for aiohttp.ClientError after all retries / requests.ConnectionError."""


# ------------------------------------------------------------- scheduler

class Scheduler:
    """Runs the tool's worker threads one at a time; a seed decides every switch."""

    def __init__(self, seed):
        self.rng = random.Random(seed) if seed is not None else None
        self.tasks = []
        self.switches = 0
        self.trace = []
        self.here = threading.local()

    def yield_point(self, weight=0.5):
        t = getattr(self.here, "task", None)
        if t is None or self.rng is None:
            return
        if self.rng.random() < weight:
            self.switches += 1
            t.pause()

    def pump(self):
        """Main thread only: let one worker run until its next switch. False if none can."""
        ready = [t for t in self.tasks if not t.done and t.admitted()]
        if not ready:
            return False
        t = ready[0] if self.rng is None else self.rng.choice(ready)
        self.trace.append(t.n)
        t.resume()
        return True

    def drain(self, until):
        while not until():
            if not self.pump():
                raise RuntimeError("simulated threads are stuck")

    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith("cloudnetpy/cli.py"):
            return None
        self.yield_point(0.15)
        return self._tracer


class Task:
    def __init__(self, sched, executor, fn, args, kwargs, future):
        self.sched, self.executor, self.future = sched, executor, future
        self.n = len(sched.tasks)
        self.done = False
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.thread = threading.Thread(target=self._run, args=(fn, args, kwargs), daemon=True)
        self.thread.start()

    def admitted(self):
        active = [t for t in self.executor.sim_tasks if not t.done]
        return self in active[: self.executor.sim_workers]

    def _run(self, fn, args, kwargs):
        self.go.acquire()
        self.sched.here.task = self
        if self.sched.rng is not None:
            sys.settrace(self.sched._tracer)
        try:
            if self.future.set_running_or_notify_cancel():
                try:
                    value = fn(*args, **kwargs)
                except BaseException as e:  # noqa: BLE001
                    sys.settrace(None)
                    self.future.set_exception(e)
                else:
                    sys.settrace(None)
                    self.future.set_result(value)
        finally:
            sys.settrace(None)
            self.done = True
            self.back.release()

    def pause(self):
        self.back.release()
        self.go.acquire()

    def resume(self):
        self.go.release()
        self.back.acquire()


def install_scheduler(sched):
    """Replaces the thread pool of concurrent.futures in this (forked) process."""

    class SimFuture(concurrent.futures.Future):
        def result(self, timeout=None):
            sched.drain(self.done)
            return super().result(0)

        def exception(self, timeout=None):
            sched.drain(self.done)
            return super().exception(0)

    class SimExecutor(concurrent.futures.Executor):
        def __init__(self, max_workers=None, *args, **kwargs):
            self.sim_workers = max_workers or 8
            self.sim_tasks = []

        def submit(self, fn, /, *args, **kwargs):
            f = SimFuture()
            t = Task(sched, self, fn, args, kwargs, f)
            self.sim_tasks.append(t)
            sched.tasks.append(t)
            while sched.rng is not None and sched.rng.random() < 0.3 and sched.pump():
                pass
            return f

        def shutdown(self, wait=True, *, cancel_futures=False):
            if cancel_futures:
                for t in self.sim_tasks:
                    t.future.cancel()
            if wait:
                sched.drain(lambda: all(t.done for t in self.sim_tasks))

    def as_completed(fs, timeout=None):
        left = list(dict.fromkeys(fs))
        while left:
            sched.drain(lambda: any(f.done() for f in left))
            ready = [f for f in left if f.done()]
            f = ready[0] if sched.rng is None else sched.rng.choice(ready)
            left.remove(f)
            yield f
            while sched.rng is not None and sched.rng.random() < 0.3 and sched.pump():
                pass

    def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
        fs = set(fs)
        enough = {"FIRST_COMPLETED": any}.get(return_when, all)
        sched.drain(lambda: enough(f.done() for f in fs))
        done = {f for f in fs if f.done()}
        return concurrent.futures._base.DoneAndNotDoneFutures(done, fs - done)

    for m in (concurrent.futures, concurrent.futures.thread):
        m.ThreadPoolExecutor = SimExecutor
    concurrent.futures.as_completed = as_completed
    concurrent.futures.wait = wait
    cli = sys.modules.get("cloudnetpy.cli")
    if cli is not None:
        for name, value in (("ThreadPoolExecutor", SimExecutor), ("as_completed", as_completed), ("wait", wait)):
            if hasattr(cli, name):
                setattr(cli, name, value)


# ---------------------------------------------------------------- portal

def pid_of(n):
    return f"https://hdl.handle.net/21.12132/3.{n:08x}deadbeef"


def short_pid(n):
    return f"{n:08x}"


class Portal:
    """What the data portal holds; built once per run of the simulation, changed between tool runs."""

    def __init__(self, world):
        from cloudnet_api_client import containers as c

        self.c = c
        self.w = world
        self.site = c.Site(
            id=SITE_ID, human_readable_name=world["site"]["name"], station_name=None, latitude=world["site"]["latitude"], longitude=world["site"]["longitude"], altitude=int(world["site"]["altitude"]),
            dvas_id=None, actris_id=None, country="Simland", country_code="SI", country_subdivision_code=None, type=frozenset({"cloudnet"}), gaw=None,
        )

    def instrument(self, iid, n, name):
        return self.c.Instrument(instrument_id=iid, model=iid, type="x", name=name, uuid=uuidlib.UUID(int=n), pid=pid_of(n), owners=("SIM",), serial_number=None)

    def product(self, pid):
        t = "model" if pid == "model" else "geophysical" if pid in GEOPHYSICAL else "instrument"
        inst = frozenset(i for p, i, _ in RAW_KINDS if p == pid)
        return self.c.ExtendedProduct(id=pid, human_readable_name=pid, type=frozenset({t}), experimental=False, source_instrument_ids=inst, source_product_ids=frozenset(SOURCES.get(pid, ())), derived_product_ids=frozenset())

    def _base(self, f):
        created = datetime.datetime(2025, 2, 10, tzinfo=datetime.timezone.utc)
        return dict(
            uuid=uuidlib.UUID(int=f["n"]), checksum="", size=len(self.w["blobs"][f["blob"]]), filename=f["name"], download_url=f"https://cloudnet.fmi.fi/api/download/{f['kind']}/{uuidlib.UUID(int=f['n'])}/{f['name']}",
            measurement_date=datetime.date(2025, 2, 9), created_at=created, updated_at=created, site=self.site,
        )

    def raw_meta(self, f):
        return self.c.RawMetadata(**self._base(f), status=f["status"], instrument=self.instrument(*f["instrument"]), tags=frozenset())

    def product_meta(self, f):
        p = self.product(f["product"])
        inst = self.instrument(*f["instrument"]) if f.get("instrument") else None
        return self.c.ProductMetadata(**self._base(f), product=p, instrument=inst, model=None, volatile=True, legacy=False, pid="", dvas_id=None, error_level=None, coverage=1.0, timeliness="nrt", format="", start_time=None, stop_time=None, s3key=None)


class Client:
    """Stub of cloudnet_api_client.APIClient talking to the simulated portal over a simulated network."""

    def __init__(self, portal, sched, net=None, sim_os=None):
        self.p, self.s, self.net, self.os = portal, sched, net, sim_os
        self.steps = 0  # network operations so far (requests and chunks)
        self.hit = False
        self.downloaded = []

    def _network(self, url="", last=True):
        """One network operation; may fail, stall (let others run) or be the end of the process."""
        self.s.yield_point(0.6)
        k = self.steps
        self.steps += 1
        if self.net and k == self.net["at"]:
            self.hit = True
            if self.net["kind"] == "killed":
                os._exit(99)
            if self.net["kind"] == "once":
                raise _Retry
            raise NetworkError("simulated network failure")
        if self.net and self.net["kind"] == "down" and self.hit:
            raise NetworkError("simulated network failure")

    def _request(self):
        with contextlib.suppress(_Retry):
            self._network()

    def product(self, product_id):
        self._request()
        return self.p.product(product_id)

    def products(self, type=None):
        self._request()
        return [self.p.product(p) for p in [*SOURCES, "radar", "lidar", "mwr", "disdrometer", "mrr", "weather-station", "model", "mwr-single"]]

    def sites(self, type=None):
        self._request()
        return [self.p.site]

    def site(self, site_id):
        self._request()
        return self.p.site

    def models(self):
        self._request()
        return [self.p.c.Model(id="ecmwf", name="ECMWF IFS", optimum_order=1, source_model_id="ecmwf", forecast_start=None, forecast_end=None)]

    def raw_files(self, site_id=None, date=None, instrument_id=None, status=None, **kwargs):
        self._request()
        ids = [instrument_id] if isinstance(instrument_id, str) else instrument_id
        sts = [status] if isinstance(status, str) else status
        if str(date) != DATE or site_id != SITE_ID:
            return []
        return [self.p.raw_meta(f) for f in self.p.w["raw"] if (ids is None or f["instrument"][0] in ids) and (sts is None or f["status"] in sts)]

    def files(self, site_id=None, date=None, product_id=None, model_id=None, instrument_id=None, **kwargs):
        self._request()
        if str(date) != DATE or site_id != SITE_ID:
            return []
        res = [f for f in self.p.w["products"] if f["product"] == product_id]
        if product_id == "model" and model_id is not None:
            res = [f for f in res if f["model"] == model_id]
        elif product_id == "model":
            res = res[:1]  # the portal answers with the best model
        return [self.p.product_meta(f) for f in res]

    def calibration(self, instrument_pid, date):
        from cloudnet_api_client import CloudnetAPIError

        self._request()
        cal = self.p.w["calibration"].get(instrument_pid)
        if cal is None:
            raise CloudnetAPIError("Not found")
        return {"data": dict(cal)}

    def download(self, metadata, output_directory=".", concurrency_limit=5, progress=None, validate_checksum=False):
        metas = list(metadata) if isinstance(metadata, (list, tuple, set, frozenset)) else [metadata]
        folder = Path(output_directory)
        res = []
        for m in metas:
            dest = folder / m.download_url.split("/")[-1]
            res.append(dest)
            if dest.exists() and dest.stat().st_size == m.size:
                continue
            for attempt in range(3):
                try:
                    self._download(m, dest)
                    break
                except _Retry:
                    continue
        return res

    def _download(self, m, dest):
        self._network()
        f = next(x for x in [*self.p.w["raw"], *self.p.w["products"]] if x["n"] == m.uuid.int)
        blob = self.p.w["blobs"][f["blob"]]
        part = dest.with_suffix(f"{dest.suffix}.part")
        try:
            part.parent.mkdir(parents=True, exist_ok=True)
            with part.open("wb") as h:
                step = max(CHUNK, len(blob) // 3 + 1)
                for i in range(0, max(len(blob), 1), step):
                    self._network()
                    h.write(blob[i : i + step])
                    h.flush()
            part.replace(dest)
            self.downloaded.append(f["name"])
        except Exception:
            with contextlib.suppress(OSError):
                part.unlink()
            raise

    async def adownload(self, *args, **kwargs):
        return self.download(*args, **kwargs)


class _Retry(Exception):
    pass


# ----------------------------------------------------------------- world

def gen_world(rng, tier, min_raw=0):
    """Portal content as data."""
    sc = chain.gen_scene(rng, tier, max_minutes=8)
    for i in sc["inst"].values():  # mostly healthy: the subject is the tool
        if rng.random() < 0.8:
            i["blank"] = []
    sc["model"] = {"step": 1, "blank": [], "first": 0, "last": 24}
    raw = []
    devs = ops.usable()
    for k in range(rng.choice([0, 1, 1, 2, 3]) or min_raw):
        product, iid, names = rng.choice(RAW_KINDS)
        if any(r["product"] == product and product in ("weather-station",) for r in raw):
            continue
        name = rng.choice([n for n in names if n in devs])
        op = ops.gen_device(rng, tier, name)
        while op["day_shift"] or op.get("junk"):
            op = ops.gen_device(rng, tier, name)
        raw.append({"product": product, "iid": iid, "n": 0xA0000000 + rng.randrange(2**20) * 16 + k, "device": name, "opts": op["opts"], "files": op["files"], "gz": rng.random() < 0.3, "name": rng.choice(["FMI ", "KIT ", "Sim "]) + iid})
    l1 = []
    for product, iids in (("radar", ["mira-35", "rpg-fmcw-94", "rpg-fmcw-35"]), ("lidar", ["chm15k", "cl61d", "halo-doppler-lidar"]), ("disdrometer", ["parsivel", "thies-lnm"])):
        k = rng.choice([1, 1, 1, 2]) if product != "disdrometer" else rng.choice([0, 1, 1])
        if rng.random() < 0.04:
            k = 0
        for iid in rng.sample(iids, k):
            p = "doppler-lidar" if iid == "halo-doppler-lidar" else product
            l1.append({"product": p, "as": product, "iid": iid, "n": 0xB0000000 + rng.randrange(2**20) * 16 + len(l1)})
    for product in ("mwr-single", "mwr"):
        if rng.random() < 0.5:
            l1.append({"product": product, "as": "mwr", "iid": "hatpro", "n": 0xC0000000 + rng.randrange(2**20) * 16 + len(l1)})
    models = ["ecmwf", "gdas1"][: rng.choice([1, 1, 2])] if rng.random() < 0.95 else []
    return {"scene": sc, "raw": raw, "l1": l1, "models": models, "categorize": rng.random() < 0.35, "calibrated": rng.random() < 0.5}


def product_name(e):
    if e["product"] == "mwr-single":
        return f"{YMD}_{SITE_ID}_mwr-single.nc"
    return f"{YMD}_{SITE_ID}_{e['iid']}_{short_pid(e['n'])}.nc"


def build_world(ctx, gw, seed):
    """Writes the simulated files once and keeps their bytes: the portal's storage."""
    import gzip

    import netCDF4

    devs = ops.usable()
    w = {"raw": [], "products": [], "blobs": {}, "calibration": {}, "site": dict(next(iter(devs.values())).site), "gen": gw}
    w["site"] = {"name": "Simsite", "latitude": 50.0, "longitude": 10.0, "altitude": 100.0}
    stage = ctx.path("stage", "x")[:-2]
    counter = [derive(seed, "n") % 2**30]

    def add(kind, entry, name, blob):
        counter[0] += 1
        key = f"b{counter[0]}"
        w["blobs"][key] = blob
        w["raw" if kind == "raw" else "products"].append({**entry, "kind": kind, "n": counter[0], "name": name, "blob": key})

    for k, r in enumerate(gw["raw"]):
        dev = devs[r["device"]]
        if hasattr(dev, "configure"):
            dev.configure(r["opts"])
        if r["product"] == "weather-station":
            w["site"] = dict(dev.site)
        for i, f in enumerate(r["files"]):
            for name, blob in raw_blobs(ctx, dev, r, i, f, os.path.join(stage, f"r{k}_{i}")):
                if r["gz"]:
                    name, blob = name + ".gz", gzip.compress(blob, mtime=0)
                add("raw", {"status": "uploaded", "instrument": [r["iid"], r["n"], r["name"]], "k": k, "i": i}, name, blob)
        if gw.get("calibrated") or r["iid"] == "pollyxt":
            w["calibration"][pid_of(r["n"])] = {"snr_limit": 2, "range_correction_factor": None, **({"calibration_factor": 3e-12} if r["iid"] == "chm15k" else {})}
    order = random.Random(derive(seed, "listing"))
    order.shuffle(w["raw"])
    scene = gw["scene"]
    write = {"radar": chain.write_radar, "lidar": chain.write_lidar, "mwr": chain.write_mwr, "disdrometer": chain.write_disdrometer}
    os.makedirs(stage, exist_ok=True)
    for e in gw["l1"]:
        p = os.path.join(stage, product_name(e))
        sc = dict(scene)
        if e["as"] == "radar":
            sc["source"] = {"mira-35": "METEK MIRA-35"}.get(e["iid"], "RPG-Radiometer Physics RPG-FMCW-94")
        write[e["as"]](sc, p)
        if e["iid"].startswith("rpg"):
            chain.add_lwp(sc, p)
        with netCDF4.Dataset(p, "r+") as nc:
            nc.file_uuid = str(uuidlib.UUID(int=e["n"]))
        with open(p, "rb") as h:
            add("product", {"product": e["product"], "instrument": [e["iid"], e["n"], f"L1 {e['iid']}"]}, os.path.basename(p), h.read())
    for m in gw["models"]:
        p = os.path.join(stage, f"{YMD}_{SITE_ID}_{m}.nc")
        chain.write_model(scene, p)
        with netCDF4.Dataset(p, "r+") as nc:
            nc.file_uuid = str(uuidlib.UUID(int=derive(seed, m)))
        with open(p, "rb") as h:
            add("product", {"product": "model", "model": m}, os.path.basename(p), h.read())
    if gw["categorize"]:
        p = os.path.join(stage, f"{YMD}_{SITE_ID}_categorize.nc")
        ctx.in_child(_categorize, scene, stage, p)
        if os.path.exists(p):
            with open(p, "rb") as h:
                add("product", {"product": "categorize"}, os.path.basename(p), h.read())
    shutil.rmtree(stage, ignore_errors=True)
    return w


def raw_blobs(ctx, dev, r, i, f, stage):
    os.makedirs(stage, exist_ok=True)
    dev.write(os.path.join(stage, dev.file_name(i, f["recs"])), f["recs"], f.get("opts", {}))
    res = []
    for n in sorted(os.listdir(stage)):
        with open(os.path.join(stage, n), "rb") as h:
            res.append((n, h.read()))
    return res


def _categorize(scene, stage, out):
    from cloudnetpy.categorize import generate_categorize

    d = os.path.join(stage, "cat")
    os.makedirs(d, exist_ok=True)
    with contextlib.suppress(Exception):
        generate_categorize(chain.write_inputs(scene, lambda n: os.path.join(d, n)), out, str(uuidlib.UUID(int=77)))


# -------------------------------------------------------------- one run

def namespace(root, run):
    return argparse.Namespace(
        site=SITE_ID, date=DATE, products=list(run["products"]), model=run.get("model"), instrument=run.get("prefs") or None, input=Path(root) / "input", output=Path(root) / run.get("out", "output"), plot=False, show=False,
        dl=run.get("dl", False), force_download=run.get("force", False), variables=None, max_y=None, options=run.get("options"),
    )


def cli_run(ctx, world, run, root, sched_seed, moment, net=None, disk=None):
    """In a forked child: one invocation of the command line tool."""
    import builtins

    from dst.devices.binremote import install_rpg_stub

    install_rpg_stub()
    from cloudnetpy import cli

    os.makedirs(root, exist_ok=True)
    tmp = os.path.join(ctx.dir, "systmp")
    os.makedirs(tmp, exist_ok=True)
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    sched = Scheduler(sched_seed)
    install_scheduler(sched)
    client = Client(Portal(world), sched, net)
    builtins.input = lambda *a: str(run.get("answer", 1))
    os.chdir(root)
    seed = derive(ctx.sc["seed"], "cli", moment)
    ctx.os.clock(SIM_EPOCH + moment * 977)
    ctx.os.random(seed)
    random.seed(seed)
    args = namespace(".", run)
    c = None
    if disk and disk["kind"] in ("interrupt", "out_of_memory"):
        from dst.faultrun import Countdown

        c = Countdown(disk["at"], KeyboardInterrupt if disk["kind"] == "interrupt" else MemoryError)
    elif disk:
        ctx.os.arm(disk["w"], disk["at"], disk["part"], 0, -1, None)
    else:
        ctx.os.arm(0, -1, 0.0, 0, -1, None)
        from dst.faultrun import Countdown

        c = Countdown(-1, None) if run.get("count") else None
    # the process's own temporary folder, as main() makes it; a killed process leaves it behind
    t = tempfile.mkdtemp(prefix="cli-", dir=tmp)
    try:
        if c:
            sys.setprofile(c)
        try:
            o = ctx.attempt(cli.run, args, t, client)
        except KeyboardInterrupt:
            from dst.core import Outcome

            o = Outcome(False, exc=RuntimeError("KeyboardInterrupt"), tb="")
        finally:
            sys.setprofile(None)
        counts = {"mutations": ctx.os.mutations(), "calls": c.n if c else 0, "steps": client.steps}
        fired = bool(ctx.os.fired())
    finally:
        ctx.os.disarm()
        shutil.rmtree(t, ignore_errors=True)
    return {"kind": o.kind, "msg": f"{o!r}\n{(o.tb or '')[-1500:]}", "counts": counts, "hit": client.hit or bool(c and c.hit) or fired, "switches": sched.switches, "trace": sched.trace[:400], "downloaded": client.downloaded}
