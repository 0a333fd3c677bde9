"""Simulated netCDF / HDF5 remote sensors (lidars and cloud radars).

A record is one profile.  Every 2-D value derives from the record id, so a
profile in the product identifies the raw profile it came from.
"""

import datetime
import os

import numpy as np

from dst.devices.base import Device, h01

UTC = datetime.timezone.utc


def epoch_s(day, since=datetime.date(1970, 1, 1)):
    return (day - since).days * 86400


class NcDevice(Device):
    ext = ".nc"
    dt = 60
    ng = 12
    time_tol = 0.6
    own_epoch = False
    checksummed = False  # store chunks with checksums (so that bit rot is detectable)
    vars2d: tuple = ()  # (raw name, lo, hi)
    layout = "list"  # single | list | folder
    multi = True
    min_records = 2
    file_faults: tuple = ()  # file-level damage the converter must isolate
    clock_faults = ("dup", "dup_conflict", "swap", "step_back", "prev_day", "next_day", "far")
    r0, dr = 100.0, 30.0
    other_day_files = True  # a whole file of another day may be delivered

    #: which file's gates the product uses when the gates change during the day:
    #: "first" (in order of file names) or "highest" (topmost gate)
    layouts = None
    on_target = ()  # variables whose expected value is already on the gates of the product
    lays = None
    target = 0

    def configure(self, opts):
        self.ng = opts.get("ng", type(self).ng)
        self.lays = opts.get("lays")
        self.target = 0

    def gen_lays(self, rng):
        """The gate set before and after a reconfiguration."""
        n, d = self.ng, type(self).dr
        other = rng.choice([(n, self.r0, d * 1.37), (n, self.r0, d * 0.71), (n + 5, self.r0, d), (max(3, n - 4), self.r0, d), (n, self.r0 + 2 * d, d), (n + 3, self.r0, d * 0.83), (2 * n, self.r0, d * 0.5 + 0.13)])
        return [[n, self.r0, d], list(other)]

    def choose_target(self, files):
        """files: [(base name, records)] of the readable files, in delivery order."""
        if not self.lays or not files:
            return
        if self.layouts == "first":
            if hasattr(self, "always_bundle") and len(files) > 1:  # bundling looks at the day first
                files = [f for f in files if any(0 <= r["t"] < 86400 for r in f[1])] or files
            self.target = min(files)[1][0].get("lay", 0) if files else 0
        else:
            if getattr(self, "whole_file_dates", False):
                files = [f for f in files if all(0 <= r["t"] < 86400 for r in f[1])] or files
            if self.layout == "folder":
                files = sorted(files)
            self.target = max((f[1][0].get("lay", 0) for f in files), key=lambda k: self.lay_axis(k)[-1])

    def lay_axis(self, k):
        n, r0, dr = self.lays[k] if self.lays else (self.ng, self.r0, self.dr)
        return (r0 + dr * np.arange(n)).astype("f4")

    def n_of(self, rec):
        return self.lays[rec.get("lay", 0)][0] if self.lays else self.ng

    @property
    def out_dr(self):
        return self.lays[self.target][2] if self.lays else self.dr

    def place(self, rec, arr):
        """Own gates -> gates of the product (nearest gate, nothing outside)."""
        if not self.lays or rec.get("lay", 0) == self.target:
            return arr
        own, want = self.lay_axis(rec.get("lay", 0)).astype(float), self.lay_axis(self.target).astype(float)
        idx = np.abs(own[:, None] - want[None, :]).argmin(axis=0)
        out = np.ma.array(np.ma.array(arr)[idx])
        out[(want < own.min() - 1e-3) | (want > own.max() + 1e-3)] = np.ma.masked
        return out

    def gen_opts(self, rng, recs):
        ng = rng.choice([type(self).ng, type(self).ng, max(type(self).ng, len(recs)), type(self).ng + 8])
        return {"ng": ng}

    def prof(self, rec, field, lo, hi):
        rs = np.random.RandomState(int(h01(self.name, field, rec["id"]) * 2**32))
        return rs.uniform(lo, hi, self.n_of(rec)).astype("f4")

    def scalar(self, rec, field, lo, hi, nd=3):
        return float(np.float32(self.v(rec, field, lo, hi, nd)))

    def rng_axis(self, rec=None):
        """Gates of a record, or of the product."""
        return self.lay_axis(self.target if rec is None else rec.get("lay", 0))

    def axes(self):
        return {}

    def same(self, name, got, want, rec):
        g = np.ma.masked_invalid(np.ma.atleast_1d(np.ma.array(got, dtype=float)))
        if np.ndim(want) and getattr(self, "lays", None) and name not in self.on_target:
            want = self.place(rec, want)
        w = np.ma.masked_invalid(np.ma.atleast_1d(np.ma.array(want, dtype=float)))
        if g.shape != w.shape:
            return False
        gm, wm = np.ma.getmaskarray(g), np.ma.getmaskarray(w)
        if np.any(gm != wm):
            return False
        d = np.abs(g - w).compressed()
        return bool(np.all(d <= 1e-9 + 3e-5 * np.abs(w).compressed() + self.abs_tol))

    # ---- writing
    time_units = "seconds since 1970-01-01 00:00:00"
    time_dtype = "f8"
    time_dim = "time"
    fmt = "NETCDF4"

    def time_value(self, rec):
        return epoch_s(self.day) + rec["t"]

    def common(self, nc, recs):
        pass

    def write(self, path, recs, opts):
        import netCDF4

        with netCDF4.Dataset(path, "w", format=self.fmt) as nc:
            nc.createDimension(self.time_dim, None if self.time_dim == "time" else len(recs))
            nc.createDimension("range", self.n_of(recs[0]))
            if not self.time_last:
                self.write_time(nc, recs)
            v = nc.createVariable("range", "f4", ("range",), **self.storage())
            v.units = "m"
            v[:] = self.rng_axis(recs[0])
            for name, lo, hi in self.vars2d:
                v = nc.createVariable(name, "f4", (self.time_dim, "range"), fill_value=np.float32(-999), **self.storage())
                v[:] = np.array([self.raw2d(r, name, lo, hi) for r in recs])
            self.common(nc, recs)
            if self.time_last:
                self.write_time(nc, recs)

    time_last = False

    def write_time(self, nc, recs):
        v = nc.createVariable("time", self.time_dtype, (self.time_dim,), **self.storage())
        v.units = self.file_time_units(recs)
        v[:] = np.array([self.file_time(r, recs) for r in recs], dtype=self.time_dtype)

    def storage(self):
        return {"zlib": True, "fletcher32": True} if self.checksummed and self.fmt.startswith("NETCDF4") else {}

    def raw2d(self, r, name, lo, hi):
        return self.prof(r, name, lo, hi)

    def file_time_units(self, recs):
        return self.time_units

    def file_time(self, rec, recs):
        return self.time_value(rec)

    def tvar(self, nc, name, values, units="1", dtype="f4"):
        v = nc.createVariable(name, dtype, (self.time_dim,), **self.storage())
        v.units = units
        v[:] = values

    def svar(self, nc, name, value, units="1", dtype="f4"):
        v = nc.createVariable(name, dtype, ())
        v.units = units
        v[...] = value

    def inputs(self, files):
        """What is handed to the converter."""
        if self.layout == "single":
            return files[0]
        if self.layout == "folder":
            return os.path.dirname(files[0])
        return list(files)


class DailyLidar(NcDevice):
    """One netCDF file per day, or several bundled first (as the CLI does)."""

    layout = "single"

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy import concat_lib
        from cloudnetpy.instruments import ceilo2nc

        if len(files) > 1 or self.always_bundle:
            src = out + ".bundle.nc"
            concat_lib.bundle_netcdf_files(files, date, src)
        else:
            src = files[0]
        try:
            return ceilo2nc(src, out, self.ceilo_site(), uuid=uuid, date=date.isoformat() if date else None)
        finally:
            if src != files[0] and os.path.exists(src):
                os.unlink(src)

    always_bundle = False

    def ceilo_site(self):
        return {**self.site}


class Chm15k(DailyLidar):
    layouts = "first"
    name = "chm15k"
    vars2d = (("beta_raw", 1e5, 1e6),)
    time_units = "seconds since 1904-01-01 00:00:00.000 00:00"

    def time_value(self, rec):
        return epoch_s(self.day, datetime.date(1904, 1, 1)) + rec["t"]

    def common(self, nc, recs):
        nc.title = "CHM15k Nimbus"
        nc.device_name = "CHM123456"
        nc.software_version = "12.12.1 2.13 1.040 0"
        self.tvar(nc, "zenith", np.full(len(recs), 3.0), "degree")

    def expected(self, rec):
        return {"beta_raw": self.prof(rec, "beta_raw", 1e5, 1e6).astype(float) * 3e-12}

    def axes(self):
        return {"range": self.rng_axis().astype(float) - self.out_dr / 2}

    abs_tol = 0.0


class Cl61(DailyLidar):
    layouts = "first"
    name = "cl61d"
    vars2d = (("beta_att", 1e-7, 1e-6), ("p_pol", 1e-7, 1e-6), ("x_pol", 1e-8, 1e-7))
    time_dim = "profile"
    r0, dr = 0.0, 4.8
    always_bundle = True

    def common(self, nc, recs):
        nc.title = "CL61-D, Profiling Ceilometer, rev A"
        nc.instrument_serial_number = "S4710000"
        self.tvar(nc, "tilt_angle", np.full(len(recs), 3.0), "degree")
        self.tvar(nc, "profile", np.arange(len(recs)), dtype="u4")

    def file_name(self, i, recs):
        return f"live_20250209_{i:03d}.nc"

    def expected(self, rec):
        p, x = self.prof(rec, "p_pol", 1e-7, 1e-6), self.prof(rec, "x_pol", 1e-8, 1e-7)
        return {
            "beta_raw": self.prof(rec, "beta_att", 1e-7, 1e-6),
            "depolarisation_raw": x.astype(float) / p,
        }

    def axes(self):
        return {"range": self.rng_axis().astype(float) + self.out_dr / 2}

    abs_tol = 0.0


class Da10(DailyLidar):
    layouts = "first"
    name = "da10"
    vars2d = (("beta_att", 1e-7, 1e-6),)
    r0, dr = 0.0, 4.8

    def common(self, nc, recs):
        nc.title = "Vaisala DIAL Atmospheric Profiler DA10"
        self.tvar(nc, "tilt_angle", np.full(len(recs), 3.0), "degree")

    def ceilo_site(self):
        return {**self.site, "model": "da10"}

    def expected(self, rec):
        return {"beta_raw": self.prof(rec, "beta_att", 1e-7, 1e-6)}

    def axes(self):
        return {"range": self.rng_axis().astype(float) + self.out_dr / 2}

    abs_tol = 0.0


class Mira(NcDevice):
    layouts = "first"
    name = "mira"
    ext = ".mmclx"
    layout = "list"
    dt = 10
    vars2d = (("Zg", 1e-3, 10.0), ("VELg", -5.0, 5.0), ("RMSg", 0.1, 2.0), ("LDRg", 1e-4, 1e-2), ("SNRg", 1.0, 100.0))
    time_units = "seconds since 1970-01-01 00:00 UTC"
    time_dtype = "i4"
    fmt = "NETCDF4"

    def common(self, nc, recs):
        nc.hrd = "\nDESCR: HRD\nSN: sim\nXMT: 35.5e9\nPOL: 1\n"
        nc.Latitude = "50.0N"
        nc.Longitude = "10.0E"
        nc.Altitude = "100 m"
        n = len(recs)
        self.tvar(nc, "elv", np.full(n, 90.0), "degrees")
        self.tvar(nc, "azi", np.full(n, 0.0), "degrees")
        self.tvar(nc, "tpow", [self.scalar(r, "tpow", 15, 25) for r in recs], "W")
        for k, val in (("nfft", 256), ("nave", 20), ("rg0", 4), ("prf", 5000)):
            self.svar(nc, k, val, dtype="i4")
        self.svar(nc, "NyquistVelocity", 10.5)

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import mira2nc

        return mira2nc(self.inputs(files), out, dict(self.site), uuid=uuid, date=date.isoformat() if date else None)

    def expected(self, rec):
        z = self.prof(rec, "Zg", 1e-3, 10.0).astype(float)
        return {
            "Zh": 10 * np.log10(z),
            "v": self.prof(rec, "VELg", -5, 5),
            "width": self.prof(rec, "RMSg", 0.1, 2.0),
            "ldr": 10 * np.log10(self.prof(rec, "LDRg", 1e-4, 1e-2).astype(float)),
            "SNR": 10 * np.log10(self.prof(rec, "SNRg", 1, 100).astype(float)),
            "tpow": self.scalar(rec, "tpow", 15, 25),
        }

    abs_tol = 1e-4

    def axes(self):
        return {"range": self.rng_axis()}


class MiraFolder(Mira):
    name = "mira_folder"
    layout = "folder"


class Chilbolton(NcDevice):
    layout = "folder"
    dt = 30
    time_dtype = "f8"
    ng = 60
    clock_faults = ("dup", "dup_conflict", "swap", "step_back", "next_day")

    own_epoch = True  # every file counts seconds from its own day

    def file_day(self, recs):
        return min(r["t"] for r in recs) // 86400

    def file_time_units(self, recs):
        day = self.day + datetime.timedelta(days=self.file_day(recs))
        return f"seconds since {day.isoformat()} 00:00:00 +00:00"

    def file_time(self, rec, recs):
        return rec["t"] - 86400 * self.file_day(recs)

    def common(self, nc, recs):
        n = len(recs)
        self.tvar(nc, "elevation", np.full(n, 90.0), "degree")
        self.tvar(nc, "azimuth", np.full(n, 12.0), "degree")
        nc.variables["VEL_HC"].folding_velocity = np.float32(10.7)
        self.svar(nc, "height", 84.0, "m")
        self.svar(nc, "latitude", 51.1, "degree")
        self.svar(nc, "longitude", -1.4, "degree")
        for k in ("antenna_diameter", "beamwidthV", "beamwidthH"):
            self.svar(nc, k, 0.5)


class Copernicus(Chilbolton):
    name = "copernicus"
    vars2d = (("ZED_HC", 100.0, 160.0), ("VEL_HC", -5.0, 5.0), ("SPW_HC", 0.1, 2.0), ("LDR_C", -30.0, -20.0), ("SNR_HC", 0.0, 1.0))
    r0, dr = 750.0, 30.0

    def raw2d(self, r, name, lo, hi):
        if name == "SNR_HC":
            a = np.full(self.ng, -20.0, dtype="f4")
            a[: self.ng - 50] = 20
            return a
        return self.prof(r, name, lo, hi)

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import copernicus2nc

        return copernicus2nc(self.inputs(files), out, dict(self.site), uuid=uuid, date=date.isoformat() if date else None)

    def _top(self, a):
        a = np.ma.array(a, dtype=float)
        a[self.ng - 50 :] = np.ma.masked
        return a

    def expected(self, rec):
        return {
            "Zh": self._top(self.prof(rec, "ZED_HC", 100, 160)) - 149.5,
            "v": self._top(self.prof(rec, "VEL_HC", -5, 5)),
            "width": self._top(self.prof(rec, "SPW_HC", 0.1, 2)),
            "ldr": self._top(self.prof(rec, "LDR_C", -30, -20)),
        }

    def axes(self):
        return {"range": self.rng_axis() - 720}

    abs_tol = 2e-4


class Galileo(Chilbolton):
    layouts = "first"
    name = "galileo"
    ng = 20
    vars2d = (("ZED_HC", -30.0, 20.0), ("VEL_HC", -5.0, 5.0), ("SPW_HC", 0.1, 2.0), ("LDR_HC", -30.0, -20.0), ("SNR_HC", 5.0, 40.0))

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import galileo2nc

        return galileo2nc(self.inputs(files), out, dict(self.site), uuid=uuid, date=date.isoformat() if date else None)

    def expected(self, rec):
        return {
            "Zh": self.prof(rec, "ZED_HC", -30, 20),
            "v": self.prof(rec, "VEL_HC", -5, 5),
            "width": self.prof(rec, "SPW_HC", 0.1, 2),
            "ldr": self.prof(rec, "LDR_HC", -30, -20),
            "SNR": self.prof(rec, "SNR_HC", 5, 40),
        }

    def axes(self):
        return {"range": self.rng_axis()}


class Basta(NcDevice):
    name = "basta"
    layout = "single"
    multi = False
    dt = 30
    vars2d = (("reflectivity", -30.0, 20.0), ("velocity", -5.0, 5.0))
    clock_faults = ("dup", "dup_conflict", "swap", "step_back", "next_day")
    min_records = 1
    own_epoch = True

    def file_time_units(self, recs):
        return f"seconds since {self.day.isoformat()} 00:00:00"

    def file_time(self, rec, recs):
        return rec["t"]

    def common(self, nc, recs):
        nc.title = "BASTA L1 data"
        nc.year, nc.month, nc.day = "2025", "2", "9"
        n = len(recs)
        self.svar(nc, "elevation", 90.0)
        self.svar(nc, "ambiguous_velocity", 9.8)
        for k in ("radar_pitch", "radar_yaw", "radar_roll"):
            self.tvar(nc, k, [self.scalar(r, k, -1, 1) for r in recs])
        self.tvar(nc, "latitude", np.full(n, 48.7))
        self.tvar(nc, "longitude", np.full(n, 2.2))
        self.tvar(nc, "altitude", np.full(n, 156.0), "m")
        v = nc.createVariable("background_mask", "i1", ("time", "range"))
        v[:] = np.array([self.bg(r) for r in recs])

    def bg(self, r):
        m = np.ones(self.ng, dtype="i1")
        m[r["id"] % self.ng] = 0
        return m

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import basta2nc

        return basta2nc(files[0], out, dict(self.site), uuid=uuid, date=date.isoformat() if date else None)

    def expected(self, rec):
        m = self.bg(rec) != 1
        e = {
            "Zh": np.ma.array(self.prof(rec, "reflectivity", -30, 20), mask=m),
            "v": np.ma.array(self.prof(rec, "velocity", -5, 5), mask=m),
        }
        for k in ("radar_pitch", "radar_yaw", "radar_roll"):
            e[k] = self.scalar(rec, k, -1, 1)
        return e

    def axes(self):
        return {"range": self.rng_axis()}


class Bowtie(NcDevice):
    name = "bowtie"
    layout = "single"
    multi = False
    dt = 5
    min_records = 1
    vars2d = (("Zh", -30.0, 20.0), ("v", -5.0, 5.0), ("width", 0.1, 2.0), ("ldr", -30.0, -20.0), ("kurt", 0.0, 1.0), ("Skew", 0.0, 1.0), ("SNR", 1.0, 30.0))
    time_units = "seconds since 2020-01-01T00:00:00+00:00"
    clock_faults = ()  # curated campaign data set, not a raw instrument stream

    def time_value(self, rec):
        return epoch_s(self.day, datetime.date(2020, 1, 1)) + rec["t"]

    def common(self, nc, recs):
        nc.year, nc.month, nc.day = "2025", "2", "9"
        n = len(recs)
        nc.createDimension("chirp", 3)
        for k, vals in (("Nyquist_velocity", [9.0, 6.0, 5.0]), ("range_offsets", [0, 4, 8])):
            v = nc.createVariable(k, "f4", ("chirp",))
            v[:] = vals
        for k in ("lwp", "rain", "SurfRelHum"):
            self.tvar(nc, k, [self.scalar(r, k, 10, 50) for r in recs])
        self.tvar(nc, "latitude", np.full(n, 10.0))
        self.tvar(nc, "longitude", np.full(n, -20.0))
        self.svar(nc, "altitude", 15.0, "m")

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import bowtie2nc

        return bowtie2nc(files[0], out, dict(self.site), uuid=uuid, date=date.isoformat() if date else None)

    def expected(self, rec):
        e = {n: self.prof(rec, n, lo, hi) for n, lo, hi in self.vars2d if n in ("Zh", "v", "width", "ldr", "SNR")}
        e["kurtosis"] = self.prof(rec, "kurt", 0, 1)
        e["skewness"] = self.prof(rec, "Skew", 0, 1)
        e["lwp"] = self.scalar(rec, "lwp", 10, 50) * 1e-3
        e["relative_humidity"] = self.scalar(rec, "SurfRelHum", 10, 50) / 100
        return e

    def axes(self):
        return {"range": self.rng_axis()}


class Mrr(NcDevice):
    layouts = "first"
    name = "mrr"
    layout = "folder"
    dt = 10
    min_records = 1
    vars2d = (("Ze", -10.0, 40.0), ("RR", 0.1, 20.0), ("LWC", 0.01, 5.0), ("PIA", 0.1, 5.0), ("VEL", 0.5, 9.0), ("WIDTH", 0.1, 2.0))
    time_units = "seconds since 1970-01-01T00:00:00Z"
    file_faults = ("garbage", "empty", "truncated")

    def common(self, nc, recs):
        nc.instrument_name = "MRR-PRO serial number: 0511106873"
        self.tvar(nc, "elevation", np.full(len(recs), 90.0))
        self.svar(nc, "latitude", 50.0)
        self.svar(nc, "longitude", 10.0)
        self.svar(nc, "altitude", 100.0, "meters")
        nc.variables["range"].units = "meters"

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import mrr2nc

        return mrr2nc(self.inputs(files), out, dict(self.site), uuid=uuid, date=date.isoformat() if date else None)

    def expected(self, rec):
        return {
            "Zh": self.prof(rec, "Ze", -10, 40),
            "rainfall_rate": self.prof(rec, "RR", 0.1, 20.0).astype(float) / 3600000,
            "lwc": self.prof(rec, "LWC", 0.01, 5.0).astype(float) * 1e-3,
            "pia": self.prof(rec, "PIA", 0.1, 5),
            "v": -self.prof(rec, "VEL", 0.5, 9),
            "width": self.prof(rec, "WIDTH", 0.1, 2),
        }

    def axes(self):
        return {"range": self.rng_axis() - self.rng_axis()[0]}  # documented: the first gate is the ground

    abs_tol = 0.0


class MrrList(Mrr):
    name = "mrr_list"
    layout = "list"


class PollyXt(NcDevice):
    name = "pollyxt"
    layout = "folder"
    dt = 30
    ng = 20
    vars2d = (("attenuated_backscatter_1064nm", 1e-7, 1e-5), ("SNR_1064nm", 10.0, 20.0))
    time_units = "seconds since 1970-01-01 00:00:00 UTC"
    min_records = 1

    file_of: dict = {}  # record -> files it was written to (one calibration per file)
    channel = 1064  # a dead channel holds zeros; the next one is used

    def gen_opts(self, rng, recs):
        return {**super().gen_opts(rng, recs), "channel": rng.choice([1064, 1064, 532, 355])}

    def configure(self, opts):
        super().configure(opts)
        self.channel = opts.get("channel", 1064)

    def file_name(self, i, recs):
        if i == 0:
            self.file_of = {}
        for r in recs:
            self.file_of.setdefault(r["id"], []).append(i)
        return f"2025_02_09_Sun_CPV_{i:02d}_00_31_att_bsc.nc"

    def write(self, path, recs, opts):
        import netCDF4

        for which in ("att_bsc", "vol_depol"):
            p = path.replace("att_bsc", which)
            with netCDF4.Dataset(p, "w") as nc:
                nc.source = "PollyXT_CPV"
                nc.createDimension("time", len(recs))
                nc.createDimension("height", self.ng)
                v = nc.createVariable("time", "f8", ("time",), **self.storage())
                v.unit = self.time_units
                v[:] = [self.time_value(r) for r in recs]
                v = nc.createVariable("height", "f8", ("height",), **self.storage())
                v.unit = "m"
                v[:] = self.rng_axis()
                names = [f"{n}_{c}nm" for c in (1064, 532, 355) if c >= self.channel for n in ("attenuated_backscatter", "SNR")] if which == "att_bsc" else ["volume_depolarization_ratio_532nm"]
                for name in names:
                    lo, hi = {"a": (1e-7, 1e-5), "S": (10, 20), "v": (0.01, 0.5)}[name[0]]
                    v = nc.createVariable(name, "f8", ("time", "height"), fill_value=-999.0, **self.storage())
                    dead = which == "att_bsc" and f"_{self.channel}nm" not in name
                    v[:] = 0 * lo if dead else np.array([self.prof(r, name.split("_")[-2], lo, hi) for r in recs])
                    if name.startswith("att"):
                        v.Lidar_calibration_constant_used = 1e14 * (1 + self.file_of.get(recs[0]["id"], [0])[-1])

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import pollyxt2nc

        return pollyxt2nc(self.inputs(files), out, dict(self.site), uuid=uuid, date=date.isoformat() if date else None)

    def expected(self, rec):
        return {
            "beta_raw": self.prof(rec, "backscatter", 1e-7, 1e-5),
            "depolarisation_raw": self.prof(rec, "ratio", 0.01, 0.5),
            "beta": self.prof(rec, "backscatter", 1e-7, 1e-5),
            "calibration_factor": 1e14,
        }

    def same(self, name, got, want, rec):
        if name == "calibration_factor":
            return any(abs(float(got) / (1e14 * (1 + i)) - 1) < 1e-5 for i in self.file_of.get(rec["id"], [0]))
        return super().same(name, got, want, rec)

    def axes(self):
        return {"range": self.rng_axis()}

    abs_tol = 0.0


class WeatherRadar(NcDevice):
    """OPERA HDF5: one vertical scan (one record) per file."""

    name = "wr"
    ext = ".h5"
    layout = "list"
    dt = 300
    ng = 16
    one_record_files = True
    layouts = "highest"
    dr = 125.0
    min_records = 1
    quantities = (("VRADH", 0.01, -327.68, -5.0, -2.0), ("WRADH", 0.01, 0.0, 0.2, 3.0), ("ZDR", 0.01, -327.68, -2.0, 2.0), ("RHOHV", 1.525948758640685e-05, -1.525948758640685e-05, 0.8, 0.99), ("SNR", 0.01, -327.68, 5.0, 40.0))

    def gen_opts(self, rng, recs):
        return {"ng": 16}

    def gen_lays(self, rng):
        n = rng.choice([16, 20, 12, 9])
        return [[16, 0.0, 125.0], [n, 0.0, rng.choice([100.0, 150.0, 250.0]) if n == 16 else 125.0]]

    def lay_axis(self, k):
        n, _, dr = self.lays[k] if self.lays else (self.ng, 0.0, 125.0)
        return (125.0 + dr * (0.5 + np.arange(n))).astype("f4")

    def packed(self, rec, q):
        for name, gain, off, lo, hi in self.quantities:
            if name == q:
                return np.round((self.prof(rec, name, lo, hi).astype(float) - off) / gain).astype("u2"), gain, off

    def write(self, path, recs, opts):
        import netCDF4

        rec = recs[0]
        dt = self.dt_of(rec)
        with netCDF4.Dataset(path, "w") as nc:
            nc.Conventions = "ODIM_H5/V2_3"
            w = nc.createGroup("what")
            w.date, w.time, w.object = dt.strftime("%Y%m%d"), dt.strftime("%H%M%S"), "SCAN"
            how = nc.createGroup("how")
            how.wavelength = 5.3
            ds = nc.createGroup("dataset1")
            wh = ds.createGroup("where")
            wh.nbins, wh.rstart, wh.rscale = self.n_of(rec), 0.125, self.lays[rec.get("lay", 0)][2] if self.lays else 125.0
            h = ds.createGroup("how")
            h.NEZH, h.NI = -60.0, 20.0
            for k, (name, *_rest) in enumerate(self.quantities):
                raw, gain, off = self.packed(rec, name)
                g = ds.createGroup(f"data{k + 1}")
                gw = g.createGroup("what")
                gw.gain, gw.offset, gw.nodata, gw.undetect, gw.quantity = gain, off, 65535.0, 0.0, name
                g.createDimension("ray", 3)
                g.createDimension("bin", self.n_of(rec))
                v = g.createVariable("data", "u2", ("ray", "bin"), fill_value=False)
                v[:] = np.tile(raw, (3, 1))

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import wr2nc

        return wr2nc(list(files), out, dict(self.site), uuid=uuid, date=date.isoformat() if date else None)

    def expected(self, rec):
        out = {}
        for q, n in (("VRADH", "v"), ("WRADH", "width"), ("RHOHV", "rho_hv"), ("SNR", "SNR"), ("ZDR", "zdr")):
            raw, gain, off = self.packed(rec, q)
            out[n] = off + gain * raw
        return out

    def axes(self):
        return {"range": self.rng_axis()}

    abs_tol = 1e-5


DEVICES = [Chm15k, Cl61, Da10, Mira, MiraFolder, Copernicus, Galileo, Basta, Bowtie, Mrr, MrrList, PollyXt, WeatherRadar]
