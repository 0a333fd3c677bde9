"""C06: a file that grows by appends holds every newer profile exactly once."""

import os

import numpy as np
from numpy import ma

from dst import simos
from dst.core import HarnessError, derive
from dst.props.c05 import DAY

ID = "C06"
LEVEL = "exploration"
RULE = "a run counts when an overlap, re-delivery, damage, layout change or I/O fault was injected and its event log is new"
QUICK_RUNS = 2200
THOROUGH_RUNS = 120000
REAL = ["cloudnetpy.concat_lib.update_nc", "netCDF4/HDF5"]
STUB = ["instrument that writes the files (scenario-driven)", "disk (injected read errors)", "wall clock"]
STATE_MEASURE = "append kinds x variables x result sequence"
SHRINK = ["ops", "vars"]
SHAPES = [("time",), ("time", "range"), ("range", "time"), ("time", "range", "chan"), ("range",), ()]


def warmup():
    import cloudnetpy.concat_lib  # noqa: F401
    import netCDF4  # noqa: F401


def gen(rng, tier):
    vars_ = [
        {"name": f"v{i}", "dims": list(rng.choice(SHAPES)), "dtype": rng.choice(["f4", "f8", "i4"]), "packed": rng.random() < 0.2, "holes": rng.random() < 0.4}
        for i in range(rng.randrange(1, 5))
    ]
    for v in vars_:
        v["packed"] = v["packed"] and "time" in v["dims"]
    nr = rng.choice([2, 3, 5])
    t = 0
    ops = []
    n = rng.choice([1, 2, 3, 4, 6] if tier == "quick" else [2, 4, 8, 12])
    for i in range(n + 1):
        m = rng.choice([1, 2, 3, 5])
        kind = "base" if i == 0 else rng.choice(["next", "next", "next", "overlap", "overlap", "again", "older", "unsorted"])
        if kind in ("base", "next"):
            t += rng.choice([30, 30, 600])
            times = [t + 30 * j for j in range(m)]
        elif kind == "overlap":
            back = rng.randrange(1, 4)
            times = [t - 30 * (back - 1) + 30 * j for j in range(m + back)]
        elif kind == "again":
            times = list(ops[rng.randrange(len(ops))]["times"])
        elif kind == "older":
            times = [t - 30 * (m - j) - 5 for j in range(m)]
        else:
            times = [t + 30 * (j + 1) for j in range(m)]
            # late-delivered older profiles (held already or never seen) in between
            times += [t - rng.choice([0, 30, 60, 45]) for _ in range(rng.choice([0, 0, 1, 2]))]
            rng.shuffle(times)
        t = max([t, *times])
        op = {"kind": kind, "times": times, "damage": None, "epoch": 0, "missing": [], "range": nr, "pack": 0, "rd": None, "extra": rng.random() < 0.2}
        if i:
            if rng.random() < 0.2:
                op["damage"] = rng.choice(["empty", "truncated", "garbage", "bitrot"])
            elif rng.random() < 0.15:
                op["range"] = rng.choice([1, nr + 2])
            elif rng.random() < 0.2:
                # netCDF-C misreads a short variable whose unlimited dimension is not the first: not tested here
                op["missing"] = [v["name"] for v in vars_ if v["dims"] != ["range", "time"] and rng.random() < 0.5]
            if rng.random() < 0.15:
                op["epoch"] = rng.choice([1, 2])
            if rng.random() < 0.2:
                op["pack"] = 1
            if rng.random() < 0.15:
                op["rd"] = [rng.choice([1, 2, 3]), rng.randrange(0, 60)]
        ops.append(op)
    return {"vars": vars_, "ops": ops}


PACK = [(0.01, 0.0), (0.02, -40.0)]


def shape(v, op, m):
    return tuple({"time": m, "range": op["range"], "chan": 2}[d] for d in v["dims"])


def phys(sc, i, v, op):
    r = np.random.default_rng(derive(sc["seed"], i if "time" in v["dims"] else "static", v["name"]) % 2**63)
    s = shape(v, op, len(op["times"]))
    a = r.integers(1, 4000, size=s)
    vals = ma.array(a * 0.02 if (v["packed"] or v["dtype"][0] == "f") else a, mask=np.zeros(s, bool))
    if v["holes"] and "time" in v["dims"]:
        vals[r.random(s) < 0.2] = ma.masked
    return vals


def write(sc, i, op, path):
    import datetime

    import netCDF4

    with netCDF4.Dataset(path, "w", format="NETCDF4" if sc["seed"] % 2 else "NETCDF4_CLASSIC") as nc:
        nc.createDimension("time", None)
        nc.createDimension("range", op["range"])
        nc.createDimension("chan", 2)
        t = nc.createVariable("time", "f8", ("time",), fletcher32=True)
        t.units = f"seconds since {DAY - datetime.timedelta(days=op['epoch'])} 00:00:00"
        t[:] = np.array(op["times"], float) + 86400.0 * op["epoch"]
        for v in sc["vars"]:
            if v["name"] in op["missing"]:
                continue
            x = nc.createVariable(v["name"], "i4" if v["packed"] else v["dtype"], tuple(v["dims"]), fill_value=-999, fletcher32=bool(v["dims"]))
            if v["packed"]:
                x.scale_factor, x.add_offset = PACK[op["pack"]]
            x[:] = phys(sc, i, v, op)
        if op["extra"]:
            nc.createVariable("extra", "f4", ("time",))[:] = 7


def damage(kind, path, seed):
    with open(path, "rb") as f:
        b = f.read()
    if kind == "empty":
        b = b""
    elif kind == "truncated":
        b = b[: 10 + seed % (len(b) - 20)]
    elif kind == "garbage":
        b = b"<html>502 Bad Gateway</html>" * 20
    else:
        k = len(b) // 2 + seed % (len(b) // 2)
        b = b[:k] + bytes(c ^ 0x5A for c in b[k : k + 24]) + b[k + 24 :]
    with open(path, "wb") as f:
        f.write(b)


def content(path):
    import netCDF4

    with netCDF4.Dataset(path) as nc:
        return {k: nc[k][:] for k in nc.variables}


def _head(sc, k, a, n):
    dims = next((v["dims"] for v in sc["vars"] if v["name"] == k), ["time"])
    return np.take(a, range(n), axis=dims.index("time")) if "time" in dims else a


class Model:
    """What the growing file must hold: one entry per profile."""

    def __init__(self, sc):
        self.sc, self.op0 = sc, sc["ops"][0]
        self.rows = [(0, j) for j in range(len(self.op0["times"]))]

    def newer(self, op):
        newest = max(self.time(r) for r in self.rows)
        return [j for j, t in enumerate(op["times"]) if t > newest]

    def time(self, row):
        return self.sc["ops"][row[0]]["times"][row[1]]

    def append(self, i, js):
        self.rows += [(i, j) for j in js]

    def check(self, ctx, got, key):
        want = [self.time(r) for r in self.rows]
        t = ma.filled(ma.masked_array(got["time"], dtype=float), -1).tolist()
        if t != want:
            ctx.violate("time-axis", key, f"time axis {t} instead of {want}")
            return False
        for v in self.sc["vars"]:
            if v["name"] in self.op0["missing"]:
                continue
            a = got[v["name"]]
            if "time" not in v["dims"]:
                continue
            ax = v["dims"].index("time")
            for k, (i, j) in enumerate(self.rows):
                op = self.sc["ops"][i]
                g = np.take(a, k, axis=ax)
                if v["name"] in op["missing"]:
                    p = ma.masked_all(np.shape(g))
                else:
                    p = np.take(phys(self.sc, i, v, op), j, axis=ax)
                mg, mp = ma.getmaskarray(ma.masked_array(g)), ma.getmaskarray(ma.masked_array(p))
                d = np.abs(np.asarray(ma.getdata(g), float) - np.asarray(ma.getdata(p), float))
                if mg.shape != mp.shape or (mg != mp).any() or (np.where(mg, 0, d) > (0.0101 if v["packed"] else 1e-3)).any():
                    ctx.violate("values", f"{key}:{'x'.join(v['dims'])}", f"{v['name']} profile {k} (append {i}, profile {j}): {g} instead of {p}")
                    return False
        return True


def run(ctx, sc):
    if not sc["ops"] or sc["ops"][0]["kind"] != "base":
        return
    old = ctx.path("daily.nc")
    write(sc, 0, sc["ops"][0], old)
    model = Model(sc)
    seq = []
    for i, op in enumerate(sc["ops"][1:], 1):
        new = ctx.path("in", f"new{i}.nc")
        write(sc, i, op, new)
        intact = True
        if op["damage"]:
            damage(op["damage"], new, derive(sc["seed"], "dmg", i) % 10**6)
            ctx.fault(f"damage_{op['damage']}")
            intact = False
        if op["kind"] in ("overlap", "again", "older", "unsorted"):
            ctx.fault(f"delivery_{op['kind']}")
        if op["range"] != sc["ops"][0]["range"]:
            ctx.fault("layout_change")
        if op["epoch"]:
            ctx.fault("epoch_change")
        if op["missing"]:
            ctx.fault("missing_variable")
        before = content(old)

        def child():
            from cloudnetpy.concat_lib import update_nc

            so = simos.get()
            so.arm(0, -1, 0, *(op["rd"] or (0, -1)), "in/" if op["rd"] else None)
            try:
                r = ("ok", update_nc(old, new))
            except Exception as e:  # noqa: BLE001
                r = (type(e).__name__, str(e)[:200])
            hit = so.fired()
            so.disarm()
            return (*r, hit)

        code, res = ctx.in_child(child)
        if res is None:
            ctx.violate("died", op["kind"], f"update_nc ended the process: {code}")
            return
        if res[0] == "harness":
            raise HarnessError(res[1])
        kind, val, hit = res[1]
        if hit and op["rd"]:
            ctx.fault({1: "read_eio", 2: "open_eio", 3: "sticky_read_eio"}[op["rd"][0]])
            intact = False
        ctx.log("append", i, op["kind"], kind, val if kind == "ok" else None)
        seq.append((op["kind"], op["damage"], kind, val if kind == "ok" else None))
        try:
            after = content(old)
        except Exception as e:  # noqa: BLE001
            ctx.violate("unreadable", op["kind"], f"the file cannot be read after append {i}: {e!r}")
            return
        js = model.newer(op)
        ax_changed = op["range"] != sc["ops"][0]["range"] and any({"time", "range"} <= set(v["dims"]) and v["name"] not in op["missing"] and v["name"] not in sc["ops"][0]["missing"] for v in sc["vars"])
        added = kind == "ok" and val == 1
        if added:
            ctx.probe("appended")
            if not js:
                ctx.violate("return-value", op["kind"], "1 returned although the new file has nothing newer")
                return
            if ax_changed:
                ctx.violate("layout", op["kind"], f"profiles with {op['range']} gates were appended to a file with {sc['ops'][0]['range']} gates")
                return
            if op["damage"]:
                # a damaged file that still opened: what was there before must be untouched
                n = len(before["time"])
                if not (after["time"][:n] == before["time"]).all() or not model.check(ctx, {k: _head(sc, k, a, n) for k, a in after.items()}, f"{op['kind']}:damaged"):
                    ctx.violate("changed", f"{op['kind']}:damaged", "earlier profiles changed")
                return
            model.append(i, js)
        else:
            ctx.probe("nothing_added" if kind == "ok" else "failed_loudly")
            if kind == "ok" and val != 0:
                ctx.violate("return-value", op["kind"], f"returned {val!r}")
            if intact and js and not ax_changed:
                ctx.violate("not-appended", f"{op['kind']}:{kind}", f"{len(js)} newer profiles were not appended: {kind} {val}")
                return
            for k in before:
                if before[k].shape != after[k].shape or not np.array_equal(ma.getmaskarray(before[k]), ma.getmaskarray(after[k])) or not np.array_equal(ma.filled(before[k], 0), ma.filled(after[k], 0)):
                    ctx.violate("changed", f"{op['kind']}:{op['damage'] or ('layout' if ax_changed else 'io' if hit else 'ok')}", f"append {i} failed ({kind} {val}) but {k} changed from shape {before[k].shape} to {after[k].shape}")
                    return
        if not model.check(ctx, after, op["kind"]):
            return
    ctx.state([v["dims"] for v in sc["vars"]], seq)
    ctx.sim_s += max(max(o["times"]) for o in sc["ops"]) + 30.0


def simplify(sc):
    import copy

    for i, op in enumerate(sc["ops"]):
        for k in ("damage", "epoch", "missing", "pack", "rd", "extra"):
            if op.get(k):
                c = copy.deepcopy(sc)
                c["ops"][i][k] = [] if k == "missing" else None if k in ("damage", "rd") else 0
                yield c
