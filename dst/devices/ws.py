"""Weather stations (one text dialect per site)."""

from dst.devices.base import SITE, TextDevice

MM_H = 1 / 3600 / 1000


class WS(TextDevice):
    category = "ws"
    sitename = ""
    has_rate = True
    has_amount = False
    has_pressure = True
    rate_factor = 1 / 60 / 1000

    def __init__(self):
        self.site = {**SITE, "name": self.sitename}

    def T(self, r):
        return self.v(r, "T", -20, 30, 2)

    def RH(self, r):
        return self.v(r, "RH", 10, 99, 2)

    def P(self, r):
        return self.v(r, "P", 900, 1030, 2)

    def WSP(self, r):
        return self.v(r, "WS", 0.1, 20, 2)

    def WD(self, r):
        return self.v(r, "WD", 5, 350, 1)

    def RR(self, r):
        return self.v(r, "RR", 0, 2, 3)

    def RA(self, r):
        if "amount" in r:
            return "nan" if r["amount"] is None else r["amount"]
        return round(0.01 * (r["t"] // 60 + 3000), 3)

    def expected(self, r):
        e = {
            "air_temperature": self.T(r) + 273.15,
            "relative_humidity": self.RH(r) / 100,
            "wind_speed": self.WSP(r),
            "wind_direction": self.WD(r),
        }
        if self.has_pressure:
            e["air_pressure"] = self.P(r) * 100
        if self.has_rate:
            e["rainfall_rate"] = self.RR(r) * self.rate_factor
        return e

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import ws2nc

        return ws2nc(files if len(files) > 1 else files[0], out, self.site, uuid=uuid, date=date)


class Palaiseau(WS):
    name = "ws_palaiseau"
    sitename = "Palaiseau"
    multi = True
    has_amount = True
    rain_amount_var = "rainfall_amount"
    sep = " "
    titles = (
        "Date Time (yyyy-mm-ddThh:mm:ssZ)", "Wind speed (m/s)", "Wind direction (deg)", "Air temperature (C)",
        "Relative humidity (%)", "Pressure (hPa)", "Precipitation rate (mm/min)", "24-hr cumulated precipitation (mm)",
    )
    faults = {"torn": "skip", "extra": "skip", "badval": "free", "badtime": "free", "garbage": "free", "blank": "skip"}

    def value_columns(self):
        return range(1, len(self.titles))

    def header(self, opts):
        return "# Date created : x\n" + "".join(f"# Col. {i + 1} : {t}\n" for i, t in enumerate(self.titles))

    def columns(self, r):
        return [f"{self.dt_of(r):%Y-%m-%dT%H:%M:%SZ}", f"{self.WSP(r)}", f"{self.WD(r)}", f"{self.T(r)}", f"{self.RH(r)}", f"{self.P(r)}", f"{self.RR(r)}", f"{self.RA(r)}"]


class Bucharest(Palaiseau):
    name = "ws_bucharest"
    sitename = "Bucharest"
    rate_factor = MM_H
    dt = 600


class Maido(Palaiseau):
    name = "ws_maido"
    sitename = "Maïdo Observatory"
    has_amount = False
    has_rate = False
    rain_amount_var = None
    titles = (
        "Date Time yyyy-mm-ddThh:mm:ssZ", "Wind direction - average", "Wind speed - maximum value (m/s)", "Wind speed - average (m/s)",
        "Pressure - average (hPa)", "Relative humidity - maximum value (%)", "Relative humidity - average (%)", "Air temperature - minimum value", "Air temperature - average",
    )

    def columns(self, r):
        return [f"{self.dt_of(r):%Y-%m-%dT%H:%M:%SZ}", f"{self.WD(r)}", f"{self.WSP(r) + 1:.2f}", f"{self.WSP(r)}", f"{self.P(r)}", f"{self.RH(r) + 1:.2f}", f"{self.RH(r)}", f"{self.T(r) - 1:.2f}", f"{self.T(r)}"]


class Potenza(Palaiseau):
    name = "ws_potenza"
    sitename = "Potenza"
    encoding = "latin-1"
    has_amount = False
    has_rate = False
    rain_amount_var = None
    titles = (
        "Date Time (yyyy-mm-ddThh:mm:ssZ)", "Wind speed Maximum value (m/s)", "Wind speed Average value (m/s)", "Wind direction (degres)", "Air temperature (°C)",
        "Relative humidity (%)", "Pressure (hPa)", "Precipitation rate (mm/min)", "24-hr cumulated precipitation (mm)",
    )

    def columns(self, r):
        return [f"{self.dt_of(r):%Y-%m-%dT%H:%M:%SZ}", f"{self.WSP(r) + 1:.2f}", f"{self.WSP(r)}", f"{self.WD(r)}", f"{self.T(r)}", f"{self.RH(r)}", f"{self.P(r)}", "0.1", "0.2"]


class Toa5(WS):
    names: tuple = ()
    units: tuple = ()
    faults = {"torn": "free", "badval": "mask", "badtime": "free", "blank": "skip"}

    def value_columns(self):
        return range(2, len(self.names))

    def header(self, opts):
        q = lambda xs: ",".join(f'"{x}"' for x in xs) + "\n"  # noqa: E731
        return q(["TOA5", "x", "CR1000", "1", "Std", "CPU", "1", "t"]) + q(self.names) + q(self.units) + q([""] * len(self.names))

    def stamp(self, r):
        return f'"{self.dt_of(r):%Y-%m-%d %H:%M:%S}"'


class Granada(Toa5):
    name = "ws_granada"
    sitename = "Granada"
    names = ("TIMESTAMP", "RECORD", "air_t_Avg", "rh_Avg", "pressure_Avg", "wind_speed_avg", "wind_dir_avg", "wind_dir_std", "rain_Tot")
    units = ("TS", "RN", "degC", "%", "hPa", "m/s", "Deg", "Deg", "mm")

    def columns(self, r):
        return [self.stamp(r), f"{r['id']}", f"{self.T(r)}", f"{self.RH(r)}", f"{self.P(r)}", f"{self.WSP(r)}", f"{self.WD(r)}", "1.5", f"{self.RR(r)}"]


class Juelich(Toa5):
    name = "ws_juelich"
    sitename = "Jülich"
    has_rate = False
    names = ("TIMESTAMP", "RECORD", "AirTC_Avg", "RH", "WS_ms_S_WVT", "WindDir_D1_WVT", "BV_BP_Avg")
    units = ("TS", "RN", "Deg C", "%", "meters/Second", "Deg", "hPa")
    faults = {"torn": "free", "badval": "free", "badtime": "free"}

    def columns(self, r):
        return [self.stamp(r), f"{r['id']}", f"{self.T(r)}", f"{self.RH(r)}", f"{self.WSP(r)}", f"{self.WD(r)}", f"{self.P(r)}"]


class Falkenberg(Toa5):
    name = "ws_falkenberg"
    sitename = "Falkenberg"
    has_rate = False
    names = ("TIMESTAMP", "RECORD", "WS500_relative_humidity", "WS500_absolute_air_pressure", "WS500_air_temperature", "WS500_wind_speed_avg", "WS500_wind_direction_avg")
    units = ("TS", "RN", "%", "hPa", "degC", "m s-1", "deg")

    def columns(self, r):
        return [self.stamp(r), f"{r['id']}", f"{self.RH(r)}", f"{self.P(r)}", f"{self.T(r)}", f"{self.WSP(r)}", f"{self.WD(r)}"]


class Kenttarova(WS):
    name = "ws_kenttarova"
    sitename = "Kenttärova"
    multi = True
    dt = 600
    rate_factor = MM_H / 10
    names = ("Read time (UTC+2)", "Temp 2m (C)", "Humidity 2m (%)", "Wind speed (m/s)", "Wind dir (deg)", "Pressure (hPa)", "Precipitation (?)")
    faults = {"torn": "free", "badval": "mask", "badtime": "skip", "garbage": "skip", "blank": "skip"}

    def value_columns(self):
        return range(1, 7)

    def header(self, opts):
        return ",".join(f'"{x}"' for x in self.names) + "\n"

    def columns(self, r):
        import datetime

        t = self.dt_of(r) + datetime.timedelta(hours=2)
        return [f"{t:%Y-%m-%d %H:%M:%S}", f"{self.T(r)}", f"{self.RH(r)}", f"{self.WSP(r)}", f"{self.WD(r)}", f"{self.P(r) * 10:.2f}", f"{self.RR(r)}"]

    def expected(self, r):
        e = super().expected(r)
        e["air_pressure"] = round(self.P(r) * 10, 2) * 10
        return e


class Hyytiala(WS):
    name = "ws_hyytiala"
    sitename = "Hyytiälä"
    sep = " "
    faults = {"torn": "free", "badval": "mask"}
    names = "y m d minute AaRNRT/mm AaNRT/mm BaRT/mm BaNRT/mm AbRNRT/mm AbNRT/mm BbRT/mm BbNRT/mm Pa/kPa Ta/dsC RH/pcnt WD/ds WS/(m/s)".split()

    def value_columns(self):
        return (5, 12, 13, 14, 15, 16)

    def header(self, opts):
        return "# SMEAR-II\n# Precipitation\n# " + " ".join(self.names) + " \n"

    def columns(self, r):
        t = self.dt_of(r)
        return [f"{t.year}", f"{t.month:2d}", f"{t.day:2d}", f"{t.hour * 60 + t.minute:4d}", "0.000", f"{self.RR(r):.3f}", "1.0", "1.0", "1.0", "1.0", "1.0", "1.0", f"{self.P(r) / 10:.3f}", f"{self.T(r)}", f"{self.RH(r)}", f"{self.WD(r)}", f"{self.WSP(r)}"]

    def expected(self, r):
        e = super().expected(r)
        e["air_pressure"] = round(self.P(r) / 10, 3) * 1000
        return e


class Galati(WS):
    name = "ws_galati"
    sitename = "Galați"
    names = "TimeStamp,Record,Temperatura,Umiditate_relativa,Presiune_atmosferica,Vizibilitate,Precipitatii,Viteza_vant,Directie_vant,PTemp_C,BattV"
    faults = {"torn": "free", "badval": "mask", "badtime": "free", "blank": "skip"}

    def value_columns(self):
        return (2, 3, 4, 6, 7, 8)

    def header(self, opts):
        return self.names + "\n"

    def VIS(self, r):
        return hash_int(self, r)

    def columns(self, r):
        return [f"{self.dt_of(r):%Y-%m-%d %H:%M:%S}.000", f"{r['id']}", f"{self.T(r)}", f"{self.RH(r)}", f"{self.P(r)}", f"{self.VIS(r)}", f"{self.RR(r)}", f"{self.WSP(r)}", f"{self.WD(r)}", "26.6", "13.5"]

    def expected(self, r):
        e = super().expected(r)
        e["air_pressure"] = self.P(r) * 133.322
        e["visibility"] = self.VIS(r)
        return e


def hash_int(dev, r):
    return int(dev.v(r, "VIS", 100, 20000, 0))


class Lampedusa(WS):
    name = "ws_lampedusa"
    sitename = "Lampedusa"
    faults = {"torn": "free", "badval": "mask", "badtime": "free", "blank": "skip"}

    def value_columns(self):
        return (3, 4, 6, 7, 8, 11)

    def columns(self, r):
        return [f"{self.dt_of(r):%y%m%d %H%M%S}", "VALID", "ICOS", f" {self.T(r)}", f" {self.RH(r)}", "  6.7", f" {self.P(r)}", f" {self.WSP(r)}", f" {self.WD(r)}", "  9.5", " 193", f" {self.RR(r)}", " 0.0", ""]


class Limassol(WS):
    name = "ws_limassol"
    sitename = "Limassol"
    multi = True
    dt = 600
    has_pressure = False
    rate_factor = 1 / 600 / 1000
    sep = "\t"
    titles = ("Date Time (yyyy-mm-ddThh:mm:ssZ)", "Air temperature (°C)", "Wind speed at 2m (m/s)", "Relative humidity (%)", "Total precipitation (mm)", "Wind speed at 10m (m/s)", "Wind direction at 10m (degrees)")
    faults = {"torn": "skip", "extra": "skip", "badval": "mask", "badtime": "free", "garbage": "skip", "blank": "skip"}

    def value_columns(self):
        return (1, 3, 4, 5, 6)

    def header(self, opts):
        t = list(self.titles)
        t[0] = "Date Time (yyyy-mm-ddThh:mm:ss)"
        return "# Weather data\n" + "".join(f"# Col. {i + 1} : {x}\n" for i, x in enumerate(t)) + "# 01 02\n\n"

    def columns(self, r):
        return [f"{self.dt_of(r):%Y-%m-%dT%H:%M:%S}", f"{self.T(r)}", "0.1", f"{self.RH(r)}", f"{self.RR(r)}", f"{self.WSP(r)}", f"{self.WD(r)}"]


class LAquila(WS):
    name = "ws_laquila"
    sitename = "L'Aquila"
    multi = True
    faults = {"torn": "skip", "extra": "skip", "badval": "free", "badtime": "free", "garbage": "skip", "blank": "skip"}

    def value_columns(self):
        return range(1, 7)

    def header(self, opts):
        return "#\n# Location: L_Aquila\n# DateTime,AirTemperature,Pressure,RelativeHumidity,PrecipitationRate,WindSpeed,WindDirection\n"

    def columns(self, r):
        return [f"{self.dt_of(r):%Y-%m-%dT%H:%M:%SZ}", f"{self.T(r)}", f"{self.P(r)}", f"{self.RH(r)}", f"{self.RR(r)}", f"{self.WSP(r)}", f"{self.WD(r)}"]


class Cluj(WS):
    name = "ws_cluj"
    sitename = "Cluj-Napoca"
    dt = 600
    rate_factor = 1 / 600 / 1000
    sep = "\t"
    faults = {"torn": "free", "badval": "free", "badtime": "free"}
    names = "DateTime Precipitation_mm WS_azimuth_ms WD_azimuth_deg WS_Elevation_ms WD_Elevation_deg Virtual_temp_C WS_CUS_ms WD_CUS_deg Air_temperature_C rel_humidity_pct air_pressure_hPA".split()

    def value_columns(self):
        return (1, 2, 3, 9, 10, 11)

    def header(self, opts):
        return "\t".join(self.names) + "\n"

    def columns(self, r):
        return [f"{self.dt_of(r):%d.%m.%y %H:%M:%S}.000", f"{self.RR(r)}", f"{self.WSP(r)}", f"{self.WD(r)}", "0.1", "5", "22.6", "2.0", "270", f"{self.T(r)}", f"{self.RH(r)}", f"{self.P(r)}"]


DEVICES = [Palaiseau, Bucharest, Maido, Potenza, Granada, Juelich, Falkenberg, Kenttarova, Hyytiala, Galati, Lampedusa, Limassol, LAquila, Cluj]
