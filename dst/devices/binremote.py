"""Simulated RPG instruments: HATPRO binary files and FMCW cloud radar."""

import datetime
import os
import pickle
import struct

import numpy as np

from dst.devices.base import Device, hint
from dst.devices.ncremote import NcDevice

RPG_EPOCH = datetime.date(2001, 1, 1)


def rpg_seconds(dev, rec):
    return (dev.day - RPG_EPOCH).days * 86400 + rec["t"]


class Hatpro(Device):
    """LWP (and IWV) binary files of one day in a folder."""

    name = "hatpro"
    ext = ".LWP"
    multi = True
    folder = True
    dt = 60
    time_tol = 0.6
    abs_tol = 1e-7
    other_day_files = True
    faults = {"lowq": "mask"}
    code = {"lwp": (934501978, 934501000), "iwv": (594811068, 594811000)}

    def configure(self, opts):
        self.opts = opts

    opts = {"version": 1, "iwv": True}

    def gen_opts(self, rng, recs):
        return {"version": rng.choice([1, 2]), "iwv": rng.random() < 0.7, "late_iwv": rng.random() < 0.3}

    def expected(self, rec):
        bad = rec.get("f") == "lowq"
        out = {"lwp": None if bad else float(np.float32(self.v(rec, "lwp", 1, 900, 2))) / 1000}
        if self.opts.get("iwv"):
            out["iwv"] = None if bad else self.v(rec, "iwv", 1, 40, 2)
        return out

    def as_written(self, recs):
        return list(recs)

    def angle(self):
        return struct.pack("<f", 90.0) if self.opts["version"] == 1 else struct.pack("<i", 900000000)

    def payload(self, kind, recs):
        ver = self.opts["version"]
        out = struct.pack("<iiffii", self.code[kind][ver - 1], len(recs), 0.0, 1e4, 1, 0)
        for r in recs:
            v = self.v(r, "lwp", 1, 900, 2) if kind == "lwp" else self.v(r, "iwv", 1, 40, 2)
            q = (3 << 1) if r.get("f") == "lowq" else (1 << 1)
            out += struct.pack("<ibf", rpg_seconds(self, r), q, v) + self.angle()
        return out

    def write(self, path, recs, opts):
        kinds = ["lwp"] + (["iwv"] if self.opts.get("iwv") else [])
        for kind in kinds:
            with open(os.path.splitext(path)[0] + "." + kind.upper(), "wb") as f:
                f.write(self.payload(kind, recs))

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import hatpro2nc

        return hatpro2nc(os.path.dirname(files[0]), out, dict(self.site), uuid=uuid, date=date.isoformat() if date else None)

    def file_unreadable(self, recs):
        return all(r.get("f") == "lowq" for r in recs)


class Fmcw(NcDevice):
    """RPG FMCW cloud radar; the external binary reader (rpgpy) is a stub that
    returns the header and data dictionaries of the simulated file."""

    name = "rpg"
    ext = ".LV1"
    layout = "folder"
    dt = 4
    ng = 14
    clock_faults = ("dup", "dup_conflict", "swap", "step_back", "sub_second")  # a file with two dates is ignored (documented)
    whole_file_dates = True
    layouts = "highest"
    f2 = (("Ze", 1e-4, 10.0), ("MeanVel", -5.0, 5.0), ("SpecWidth", 0.1, 2.0), ("Skewn", -1.0, 1.0), ("Kurt", 0.1, 3.0), ("RefRat", -30.0, -10.0))

    def file_name(self, i, recs):
        t = self.dt_of(recs[0]).strftime("%y%m%d_%H%M%S") if recs else "x"
        return f"{t}_P{i:02d}_ZEN.LV1"

    def write(self, path, recs, opts):
        n, ng = len(recs), self.n_of(recs[0])
        lay = recs[0].get("lay", 0)
        sec = np.array([rpg_seconds(self, r) for r in recs])
        header = {
            "FileCode": np.int32(889346), "HeaderLen": np.int32(1000), "StartTime": np.int32(sec[0]), "StopTime": np.int32(sec[-1]), "CGProg": np.int32(5), "ModelNo": np.int32(1),
            "ProgName": "Sim", "CustName": "Sim", "Freq": np.float32(94.0), "AntSep": np.float32(0.298), "AntDia": np.float32(0.25), "AntG": np.float32(120000.0), "HPBW": np.float32(0.5),
            "DualPol": np.int8(1), "SampDur": np.float32(3.5), "GPSLat": np.float32(50.0), "GPSLong": np.float32(10.0), "CalInt": np.int32(60),
            "RAltN": np.int32(ng), "TAltN": np.int32(0), "HAltN": np.int32(0), "SequN": np.int32(len(self.chirps(lay))), "RAlts": self.rng_axis(recs[0]),
            "SpecN": np.array([512, 256, 128][: len(self.chirps(lay))], "i4"), "RngOffs": self.chirps(lay), "ChirpReps": np.array([100, 90, 80][: len(self.chirps(lay))], "i4"), "SeqIntTime": self.int_time(lay),
            "dR": np.full(len(self.chirps(lay)), self.lays[lay][2] if self.lays else 30.0, "f4"), "MaxVel": self.max_vel(lay), "SupPowLev": np.int8(0), "SpkFilEna": np.int8(1), "PhaseCorr": np.int8(0), "RelPowCorr": np.int8(0), "FFTWindow": np.int8(4),
            "SWVersion": np.int32(560), "NoiseFilt": np.float32(6.0), "InstCalPar": np.int32(30),
        }
        data = {
            "Time": sec.astype("i4"), "MSec": np.array([r.get("ms", 0) for r in recs], "i4"), "QF": np.zeros(n, "i1"),
            "RR": self.f1(recs, "rr", 0, 5), "RelHum": self.f1(recs, "rh", 20, 99), "EnvTemp": self.f1(recs, "ta", 260, 300), "BaroP": self.f1(recs, "p", 990, 1020),
            "WS": self.f1(recs, "ws", 1, 40), "WD": self.f1(recs, "wd", 1, 359), "DDVolt": self.f1(recs, "ddv", 1, 2), "DDTb": self.f1(recs, "tb", 100, 250), "LWP": self.f1(recs, "lwp", 1, 500),
            "PowIF": self.f1(recs, "pif", 1, 2), "Elev": np.full(n, 90.0, "f4"), "Azi": np.full(n, 10.0, "f4"), "Status": np.zeros(n, "f4"), "TransPow": self.f1(recs, "tp", 1, 2), "TransT": self.f1(recs, "tt", 290, 310),
            "RecT": self.f1(recs, "rt", 290, 310), "PCT": self.f1(recs, "pct", 290, 310),
        }
        for name, lo, hi in self.f2:
            data[name] = np.array([self.prof(r, name, lo, hi) for r in recs])
        with open(path, "wb") as f:
            f.write(b"SIMLV1" + pickle.dumps((header, data)))

    on_target = ("nyquist_velocity", "integration_time")
    time_tol = 0.1

    def chirps(self, lay):
        n = self.lays[lay][0] if self.lays else self.ng
        return np.array([0, n // 3, n // 3 * 2] if lay else [0, n // 2], "i4")

    def int_time(self, lay):
        return np.array([1.0, 0.75, 0.5][: len(self.chirps(lay))], "f4") + np.float32(lay)

    def max_vel(self, lay):
        return np.array([9.0, 6.0, 4.5][: len(self.chirps(lay))], "f4") + np.float32(lay)

    def nyquist(self, rec):
        lay = rec.get("lay", 0)
        start = self.chirps(lay)
        axis = self.rng_axis()
        if self.lays and lay != self.target:
            own = self.rng_axis(rec)
            start = np.array([0] + [int(np.abs(axis - own[k]).argmin()) for k in start[1:]])
        return np.repeat(self.max_vel(lay), np.diff(np.append(start, len(axis))))

    def per_chirp(self, rec):
        a = np.ma.masked_all(max(len(self.chirps(k)) for k in self.used))
        v = self.int_time(rec.get("lay", 0))
        a[: len(v)] = v
        return a

    used = (0,)

    def choose_target(self, files):
        super().choose_target(files)
        self.used = sorted({f[1][0].get("lay", 0) for f in files if all(0 <= r["t"] < 86400 for r in f[1])}) or [0]

    def f1(self, recs, field, lo, hi):
        return np.array([self.scalar(r, field, lo, hi) for r in recs], "f4")

    def convert(self, files, out, date, uuid=None):
        install_rpg_stub()
        from cloudnetpy.instruments import rpg2nc

        return rpg2nc(os.path.dirname(files[0]), out, dict(self.site), uuid=uuid, date=date.isoformat() if date else None)

    def expected(self, rec):
        return {
            "Zh": 10 * np.log10(self.prof(rec, "Ze", 1e-4, 10.0).astype(float)), "v": self.prof(rec, "MeanVel", -5, 5), "width": self.prof(rec, "SpecWidth", 0.1, 2.0),
            "skewness": self.prof(rec, "Skewn", -1, 1), "kurtosis": self.prof(rec, "Kurt", 0.1, 3.0), "ldr": self.prof(rec, "RefRat", -30, -10),
            "lwp": self.scalar(rec, "lwp", 1, 500) / 1000, "air_pressure": self.scalar(rec, "p", 990, 1020) * 100, "air_temperature": self.scalar(rec, "ta", 260, 300),
            "rainfall_rate": self.scalar(rec, "rr", 0, 5) / 3.6e6, "nyquist_velocity": self.nyquist(rec), "integration_time": self.per_chirp(rec),
        }

    rel_tol = 3e-5
    abs_tol = 1e-6

    def axes(self):
        return {"range": self.rng_axis()}


def _read_sim_rpg(filename, *args, **kwargs):
    with open(filename, "rb") as f:
        blob = f.read()
    from rpgpy.utils import RPGFileError

    if not blob.startswith(b"SIMLV1"):
        raise RPGFileError("not an RPG file")
    try:
        return pickle.loads(blob[6:])
    except Exception as e:
        raise RPGFileError("truncated file") from e


def install_rpg_stub():
    import rpgpy

    from cloudnetpy.instruments import rpg_reader

    rpgpy.read_rpg = _read_sim_rpg
    if hasattr(rpg_reader, "read_rpg"):
        rpg_reader.read_rpg = _read_sim_rpg


DEVICES = [Hatpro, Fmcw]
