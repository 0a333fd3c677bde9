"""Disdrometers: the conversion functions and the plain readers of disdronator."""

import numpy as np

from dst.devices.base import Device, TextDevice, hint

MM_H = 1 / 3600 / 1000


def spectrum(dev, rec, n, top=9):
    """A few non-zero bins, identified by the record."""
    s = [0] * n
    for k in range(5):
        s[hint(0, n - 1, dev.name, "bin", rec["id"], k)] += hint(1, top, dev.name, "cnt", rec["id"], k)
    return s


def bins(counts, widths, start=0.0):
    """Middles and widths of the size or velocity classes of an instrument manual."""
    w = np.repeat(np.array(widths, dtype=float), counts)
    edge = start + np.concatenate([[0.0], np.cumsum(w)])
    return (edge[:-1] + edge[1:]) / 2, w


class Rd80(TextDevice):
    name = "rd80"
    special_counts = (20, 21)
    multi = True
    sep = "\t"
    newline = "\r\n"
    faults = {"torn": "skip", "extra": "skip", "badval": "free", "badtime": "free", "garbage": "skip", "blank": "skip"}
    no_data = ("ValidTimeStampError",)

    def value_columns(self):
        return (3, 4, 9, 24)

    def header(self, opts):
        return "\t".join(["YYYY-MM-DD", "hh:mm:ss", "Status", "Interval [s]", *(f"n{i + 1}" for i in range(20)), "RI [mm/h]", "RA [mm]", "RAT [mm]"]) + "\r\n"

    def RI(self, r):
        return self.v(r, "RI", 0, 30, 4)

    def columns(self, r):
        t = self.dt_of(r)
        d = lambda x: f"{x:.4f}".replace(".", ",")  # noqa: E731
        return [f"{t:%Y-%m-%d}", f"{t:%H:%M:%S}", "", f"{60 + r['id'] % 3}", *(str(x) for x in spectrum(self, r, 20)), d(self.RI(r)), d(0.1), d(60.5)]

    def expected(self, r):
        return {"rainfall_rate": self.RI(r) * MM_H, "interval": 60 + r["id"] % 3, "n_particles": sum(spectrum(self, r, 20))}

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments.disdrometer.rd80 import rd802nc

        return rd802nc(files, out, self.site, uuid=uuid, date=date)


class Thies(TextDevice):
    name = "thies_raw"
    sep = ";"
    ext = ".txt"
    newline = "\r\n"
    extra_columns = False
    faults = {"torn": "skip", "extra": "skip", "badval": "free", "badtime": "free", "garbage": "skip", "blank": "skip"}
    axis_tol = 1e-7
    special_counts = (20, 21, 22, 23)  # as many records as the instrument has classes

    def axes(self):
        d, wd = bins((3, 6, 13), (0.125, 0.25, 0.5), 0.125)
        v, wv = bins((5, 6, 7, 1, 1), (0.2, 0.4, 0.8, 1, 10))
        return {"diameter": d / 1e3, "diameter_spread": wd / 1e3, "velocity": v, "velocity_spread": wv}

    no_data = ("DisdrometerDataError", "ValidTimeStampError")

    def value_columns(self):
        return (13, 16, 44, 49, 100, 300)

    def time_columns(self):
        return (3,)

    def RR(self, r):
        return self.v(r, "RR", 0, 90, 3)

    def VIS(self, r):
        return int(self.v(r, "VIS", 50, 9999, 0))

    def TA(self, r):
        return int(self.v(r, "TA", -20, 30, 0))

    def Q(self, r):
        return int(self.v(r, "Q", 1, 100, 0))

    def columns(self, r):
        t = self.dt_of(r)
        c = ["00", "1025", "2.52", f"{t:%d.%m.%y}", f"{t:%H:%M:%S}", "00", "00", "NP   ", "000.000", "00", "00", "NP   "]
        c += ["000.000", f"{self.RR(r):07.3f}", "000.000", "0140.83", f"{self.VIS(r):05d}", "-9.9", f"{self.Q(r)}", "0.0"]
        c += ["0"] * 16
        c += ["+16", "21", "0866", "4011", "1740", "282", "000", "000", f"{self.TA(r)}", "999", "9999", "9999", "9999", f"{r['id']:05d}"]
        assert len(c) == 50
        c += ["00000.000"] * 29
        c += [f"{x:03d}" for x in spectrum(self, r, 440)]
        if self.extra_columns:
            c += ["1.0", "2.0", "3.0", "4"]
        c += ["AB"]
        return c

    def write(self, path, recs, opts):
        super().write(path, recs, opts)

    def row(self, rec):
        return super().row(rec) + ";"

    def expected(self, r):
        return {
            "rainfall_rate": self.RR(r) * MM_H, "visibility": self.VIS(r), "measurement_quality": self.Q(r), "T_ambient": self.TA(r) + 273.15,
            "n_particles": r["id"], "data_raw": np.array(spectrum(self, r, 440)).reshape(22, 20),
        }

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import thies2nc

        return thies2nc(files[0], out, self.site, uuid=uuid, date=date)


class ThiesLong(Thies):
    name = "thies_telegram5"
    extra_columns = True


class ThiesLogger(Thies):
    """pyAtmosLogger CSV: own time column before the telegram."""

    name = "thies_logger"
    newline = "\n"
    faults = {"torn": "free", "extra": "skip", "badval": "free", "badtime": "free"}

    def header(self, opts):
        return "Datetime [utc];" + ";".join(f"column {i}" for i in range(520)) + "\n"

    def value_columns(self):
        return tuple(i + 1 for i in super().value_columns())

    def time_columns(self):
        return (0,)

    def columns(self, r):
        c = super().columns(r)
        c[3], c[4] = "01.01.25", "00:00:01"  # sensor clock is not used
        return [f"{self.dt_of(r):%Y-%m-%d %H:%M:%S}", *c]


class ThiesToa5(Thies):
    name = "thies_toa5"
    sep = ";"
    faults = {"torn": "skip", "badval": "free", "extra": "skip"}

    def header(self, opts):
        return '"TOA5","16165","CR6"\r\n"TIMESTAMP","RECORD","RawString"\r\n"TS","RN",""\r\n"","","Smp"\r\n'

    def render(self, rec):
        body = super().render(rec)
        return f'"{self.dt_of(rec):%Y-%m-%d %H:%M:%S}",{rec["id"]},"{body}"'


# ------------------------------------------------------------------ Parsivel

P_FIELDS = ("rr", "z", "vis", "sig", "n", "temp", "heat", "volt", "state", "err", "wawa", "interval")


class Parsivel(TextDevice):
    multi = True
    min_records = 2
    sep = ";"
    encoding = "utf-8"
    no_data = ("DisdrometerDataError",)
    telegram = None
    axis_tol = 1e-7
    special_counts = (32, 33)

    def axes(self):
        d, wd = bins((10, 5, 5, 5, 5, 2), (0.125, 0.25, 0.5, 1, 2, 3))
        v, wv = bins((10, 5, 5, 5, 5, 2), (0.1, 0.2, 0.4, 0.8, 1.6, 3.2))
        return {"diameter": d / 1e3, "diameter_spread": wd / 1e3, "velocity": v, "velocity_spread": wv}

    has_vectors = True
    has_interval = True

    def RR(self, r):
        return self.v(r, "RR", 0, 90, 3)

    def Z(self, r):
        return self.v(r, "Z", -9, 50, 3)

    def VIS(self, r):
        return int(self.v(r, "VIS", 50, 20000, 0))

    def TEMP(self, r):
        return int(self.v(r, "T", -20, 40, 0))

    def HEAT(self, r):
        return self.v(r, "H", 0, 4, 2)

    def WAWA(self, r):
        return int(self.v(r, "W", 0, 89, 0))

    def NC(self, r):
        return [float(hint(0, 3, self.name, "nc", r["id"], i)) for i in range(32)]

    def FV(self, r):
        return [float(hint(1, 9, self.name, "fv", r["id"], i)) for i in range(32)]

    def SP(self, r):
        return spectrum(self, r, 1024)

    def expected(self, r):
        e = {
            "rainfall_rate": self.RR(r) * MM_H, "radar_reflectivity": self.Z(r), "visibility": self.VIS(r), "T_sensor": self.TEMP(r) + 273.15,
            "I_heating": self.HEAT(r), "n_particles": r["id"], "data_raw": np.array(self.SP(r)).reshape(32, 32),
        }
        if self.has_vectors:
            e["number_concentration"] = np.array([10**x for x in self.NC(r)])
            e["fall_velocity"] = np.array(self.FV(r))
        if self.has_interval:
            e["interval"] = 60
        return e

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import parsivel2nc

        return parsivel2nc(files, out, self.site, uuid=uuid, date=date, telegram=self.telegram)


class ParsivelTelegram(Parsivel):
    """Headerless log, layout given by a telegram list."""

    name = "parsivel_telegram"
    ext = ".log"
    telegram = [19, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 22, 24, 25, 90, 91, 93]
    faults = {"torn": "skip", "extra": "skip", "badval": "skip", "badtime": "skip", "garbage": "skip", "blank": "skip", "torn_glued": "skip"}

    def value_columns(self):
        return (1, 4, 5, 8, 9, 20, 60, 82)

    def columns(self, r):
        t = self.dt_of(r)
        c = [f"{t:%Y%m%d%H%M%S}", f"{self.RR(r):08.3f}", "0058.68", f"{self.WAWA(r):02d}", f"{self.Z(r):06.3f}", f"{self.VIS(r):05d}", "00060", "21922", f"{r['id']:05d}", f"{self.TEMP(r):03d}"]
        c += ["451221", "2.11.6", f"{self.HEAT(r):.2f}", "23.7", "0", "LINDENBERG", "0058.68", "000"]
        c += [f"{x:06.3f}" for x in self.NC(r)] + [f"{x:06.3f}" for x in self.FV(r)]
        c += ["/".join(f"{x:03d}" for x in self.SP(r)) + "/R"]
        return c


class ParsivelAsdo(Parsivel):
    """CSV with OTT ASDO header."""

    name = "parsivel_asdo"
    ext = ".txt"
    encoding = "latin1"
    has_vectors = False
    has_interval = False
    faults = {"torn": "skip", "extra": "skip", "badval": "skip", "badtime": "skip", "garbage": "skip", "blank": "skip", "torn_glued": "skip"}

    def header(self, opts):
        return (
            "Date;Time;Intensity of precipitation (mm/h);Precipitation since start (mm);Radar reflectivity (dBz);MOR Visibility (m);Signal amplitude of Laserband;"
            "Number of detected particles;Temperature in sensor (\u00b0C);Heating current (A);Sensor voltage (V);Kinetic Energy;Snow intensity (mm/h);Weather code SYNOP WaWa;"
            "Weather code METAR/SPECI;Weather code NWS;Optics status;Spectrum\n"
        )

    def header_bytes(self):
        return self.header({})

    def value_columns(self):
        return (2, 4, 5, 7, 8)

    def write(self, path, recs, opts):
        super().write(path, recs, opts)
        # the reader decodes headers as latin-1 and expects the literal degree sign
        with open(path, "rb") as f:
            data = f.read()
        with open(path, "wb") as f:
            f.write(data)

    def columns(self, r):
        t = self.dt_of(r)
        sp = self.SP(r)
        body = "<SPECTRUM>ZERO</SPECTRUM>" if not any(sp) else "<SPECTRUM>" + ";".join(str(x) if x else "" for x in sp) + ";</SPECTRUM>"
        return [f"{t:%Y/%m/%d}", f"{t:%H:%M:%S}", f"{self.RR(r):.3f}", "210.74", f"{self.Z(r):.3f}", f"{self.VIS(r)}", "22067", f"{r['id']}", f"{self.TEMP(r)}", f"{self.HEAT(r):.2f}", "23.4", "0.000", "0", f"{self.WAWA(r)}", "NP", "C", "0", body]


class ParsivelLogger(Parsivel):
    """pyAtmosLogger CSV."""

    name = "parsivel_logger"
    ext = ".csv"
    faults = {"torn": "skip", "extra": "skip", "badval": "skip", "badtime": "skip", "garbage": "skip", "blank": "skip", "torn_glued": "skip"}

    def header(self, opts):
        h = [
            "datetime_utc", "rain rate [mm/h]", "rain accum [mm]", "Z [dBz]", "MOR visibility [m]", "sample interval [s]", "Signal amplitude", "Number of detected particles",
            "Temperature sensor [\u00b0C]", "Serial number", "IOP firmware version", "Current heating system [A]", "Power supply voltage in the sensor [V]", "Sensor status", "Station name",
            "Rain amount absolute [mm]", "Error code",
        ]
        h += [f"N{i:02d}" for i in range(32)] + [f"v{i:02d}" for i in range(32)] + [f"M_{i}_{j}" for i in range(32) for j in range(32)]
        return ";".join(h) + "\n"

    def value_columns(self):
        return (1, 3, 4, 7, 8, 20, 60, 90, 500)

    def columns(self, r):
        t = self.dt_of(r)
        c = [f"{t:%Y-%m-%d %H:%M:%S}", f"{self.RR(r):08.3f}", "0003.69", f"{self.Z(r):06.3f}", f"{self.VIS(r):05d}", "00060", "20048", f"{r['id']:05d}", f"{self.TEMP(r):03d}", "413259", "2.11.2"]
        c += [f"{self.HEAT(r):.2f}", "24.0", "0", "INOE_MARS", "000.369", "000"]
        c += [f"{x:06.3f}" for x in self.NC(r)] + [f"{x:06.3f}" for x in self.FV(r)] + [f"{x:03d}" for x in self.SP(r)]
        return c


class ParsivelToa5(Parsivel):
    name = "parsivel_toa5"
    sep = ","
    has_interval = False
    faults = {"torn": "skip", "extra": "skip", "badval": "skip", "badtime": "skip", "torn_glued": "skip"}

    def header(self, opts):
        names = [
            "TIMESTAMP", "RECORD", "rainIntensity", "snowIntensity", "accPrec", "weatherCodeWaWa", "radarReflectivity", "morVisibility", "kineticEnergy", "signalAmplitude", "sensorTemperature",
            "pbcTemperature", "rightTemperature", "leftTemperature", "heatingCurrent", "sensorVoltage", "sensorStatus", "errorCode", "numberParticles",
        ]
        names += [f"N({i + 1})" for i in range(32)] + [f"V({i + 1})" for i in range(32)] + [f"spectrum({i + 1})" for i in range(1024)]
        q = ",".join(f'"{n}"' for n in names)
        e = ",".join('""' for _ in names)
        return f'"TOA5","CR1000"\n{q}\n{e}\n{e}\n'

    def value_columns(self):
        return (2, 6, 7, 10, 18, 30, 60, 300)

    def columns(self, r):
        t = self.dt_of(r)
        c = [f'"{t:%Y-%m-%d %H:%M:%S}"', f"{r['id']}", f"{self.RR(r)}", "0", "1.5", f"{self.WAWA(r)}", f"{self.Z(r)}", f"{self.VIS(r)}", "0.5", "20000", f"{self.TEMP(r)}", "9", "10", "11", f"{self.HEAT(r)}", "23.8", "0", "0", f"{r['id']}"]
        c += [f"{x}" for x in self.NC(r)] + [f"{x}" for x in self.FV(r)] + [f"{x}" for x in self.SP(r)]
        return c


class ParsivelFmi(Parsivel):
    """Blocks "[time<newline>CS/PA output]"."""

    name = "parsivel_fmi"
    ext = ".txt"
    faults = {"badval": "free", "blank": "free", "badtime_block": "free", "torn_block": "free", "lost_line": "free"}

    def lines(self, r):
        return [
            ("01", f"{self.RR(r):08.3f}"), ("02", "0000.00"), ("03", f"{self.WAWA(r):02d}"), ("07", f"{self.Z(r):06.3f}"), ("08", f"{self.VIS(r):05d}"), ("09", "00060"), ("10", "14000"),
            ("11", f"{r['id']:05d}"), ("12", f"{self.TEMP(r):03d}"), ("16", f"{self.HEAT(r):.2f}"), ("17", "23.9"), ("18", "0"), ("25", "000"),
            ("90", ";".join(f"{x:06.3f}" for x in self.NC(r)) + ";"), ("91", ";".join(f"{x:06.3f}" for x in self.FV(r)) + ";"),
            ("93", ";".join(f"{x:03d}" for x in self.SP(r)) + ";"),
        ]

    def render(self, r):
        f = r.get("f")
        ls = self.lines(r)
        stamp = f"{self.dt_of(r):%Y-%m-%d %H:%M:%S}"
        if f == "blank":
            return ""
        if f == "badval":
            k = (0, 3, 4, 7, 13, 15)[hint(0, 5, "bv", r.get("c", r["id"]))]
            ls[k] = (ls[k][0], "*x*")
        if f == "lost_line":
            del ls[(0, 3, 4, 8, 13, 14, 15)[hint(0, 6, "ll", r.get("c", r["id"]))]]
        if f == "badtime_block":
            stamp = stamp[:5] + "99" + stamp[7:]
        s = f"[{stamp}\nTYP OP4A\n" + "\n".join(f"{a}:{b}" for a, b in ls) + "\n]"
        if f == "torn_block":
            s = s[: hint(25, len(s) - 10, "tb", r.get("c", r["id"]))]
        return s


DEVICES = [Rd80, Thies, ThiesLong, ThiesLogger, ThiesToa5, ParsivelTelegram, ParsivelAsdo, ParsivelLogger, ParsivelToa5, ParsivelFmi]
__all__ = ["DEVICES", "Device"]


# ------------------------------------------------- plain readers (disdronator)

class ReaderMixin:
    """Reader without day screening: one row per readable record, in file order."""

    reader = True
    multi = False

    def read(self, path):
        raise NotImplementedError

    def columns_of(self, rec):
        """column key -> value"""
        raise NotImplementedError


def _thies_cols(dev, r):
    return {14 + 1: dev.RR(r), 18: dev.VIS(r), 20: dev.Q(r), 46: dev.TA(r), 51: r["id"], 85: spectrum(dev, r, 440)[4], 400: spectrum(dev, r, 440)[319]}


class LpmRaw(ReaderMixin, Thies):
    name = "lpm_raw"
    faults = {"torn": "skip", "extra": "skip", "badval": "skip", "badtime": "skip", "garbage": "skip", "blank": "skip"}

    def read(self, path):
        from cloudnetpy.disdronator.lpm import read_lpm

        return read_lpm(path)

    def columns_of(self, r):
        return _thies_cols(self, r)


class LpmLong(LpmRaw):
    name = "lpm_telegram5"
    extra_columns = True


class LpmLogger(LpmRaw, ThiesLogger):
    name = "lpm_logger"
    faults = {"torn": "free", "extra": "skip", "badval": "skip", "badtime": "skip"}


class LpmToa5(LpmRaw, ThiesToa5):
    name = "lpm_toa5"
    faults = {"torn": "skip", "badval": "skip", "extra": "skip"}


def _parsivel_cols(dev, r):
    c = {1: dev.RR(r), 7: dev.Z(r), 8: dev.VIS(r), 11: r["id"], 12: dev.TEMP(r), 16: dev.HEAT(r), 93: np.array(dev.SP(r)).reshape(32, 32)}
    if dev.has_vectors:
        c[90] = np.array(dev.NC(r))
        c[91] = np.array(dev.FV(r))
    return c


class PReader(ReaderMixin):
    def read(self, path):
        from cloudnetpy.disdronator.parsivel import read_parsivel

        return read_parsivel(path)

    def columns_of(self, r):
        return _parsivel_cols(self, r)


class PReaderLogger(PReader, ParsivelLogger):
    name = "read_parsivel_logger"


class PReaderAsdo(PReader, ParsivelAsdo):
    name = "read_parsivel_asdo"


class PReaderToa5(PReader, ParsivelToa5):
    name = "read_parsivel_toa5"

    def header(self, opts):
        h = super().header(opts)
        for a, b in (
            ("rainIntensity", "rain_intensity"), ("snowIntensity", "snow_intensity"), ("accPrec", "precipitation"), ("weatherCodeWaWa", "weather_code_wawa"), ("radarReflectivity", "radar_reflectivity"),
            ("morVisibility", "mor_visibility"), ("kineticEnergy", "kinetic_energy"), ("signalAmplitude", "signal_amplitude"), ("sensorTemperature", "sensor_temperature"), ("pbcTemperature", "pbc_temperature"),
            ("rightTemperature", "right_temperature"), ("leftTemperature", "left_temperature"), ("heatingCurrent", "heating_current"), ("sensorVoltage", "sensor_voltage"), ("sensorStatus", "sensor_status"),
            ("errorCode", "error_code"), ("numberParticles", "number_particles"),
        ):
            h = h.replace(a, b)
        return h


class PReaderFmi(PReader, ParsivelFmi):
    name = "read_parsivel_fmi"
    faults = {"badval": "skip", "badtime_block": "skip"}


class Rd80Reader(ReaderMixin, Rd80):
    name = "read_rd80"
    multi = False

    def read(self, path):
        from cloudnetpy.disdronator.rd80 import read_rd80

        return read_rd80(path)

    def columns_of(self, r):
        return {"n": np.array(spectrum(self, r, 20)), "RI [mm/h]": self.RI(r), "Interval [s]": 60 + r["id"] % 3}


DEVICES += [LpmRaw, LpmLong, LpmLogger, LpmToa5, PReaderLogger, PReaderAsdo, PReaderToa5, PReaderFmi, Rd80Reader]
