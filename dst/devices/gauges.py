"""Rain gauges and present weather sensors."""

from dst.devices.base import TextDevice

MM_H = 1 / 3600 / 1000


class FD12P(TextDevice):
    name = "fd12p"
    sep = "   "
    faults = {"torn": "skip", "extra": "skip", "badval": "skip", "badtime": "skip", "garbage": "skip", "blank": "skip", "missing": "mask"}
    rain_amount_var = "precipitation_amount"
    amount_unit = 1e-3

    def value_columns(self):
        return (4, 7, 10, 11, 12)

    def VIS(self, r):
        return int(self.v(r, "VIS", 50, 9999, 0))

    def WAWA(self, r):
        return int(self.v(r, "WW", 0, 99, 0))

    def RATE(self, r):
        return self.v(r, "RATE", 0, 40, 2)

    def amount(self, r):
        return r.get("amount", 50.0 + 0.01 * (r["t"] // 60))

    def columns(self, r):
        t = self.dt_of(r)
        tt = f"{t:%H:%M}" if r["id"] % 5 == 0 and t.second == 0 else f"{t:%H:%M:%S}"
        return [
            f"{t:%d.%m.%Y}", tt, "FD", "100", f"{self.VIS(r)}", "9000", "L", f"{self.WAWA(r)}", "52", "40",
            f"{self.RATE(r):.2f}", f"{self.amount(r):.2f}", f"{r.get('snow', 7)}",
        ]

    def render(self, rec):
        if rec.get("f") == "missing":
            cols = self.columns(rec)
            for i in self.value_columns():
                cols[i] = "////"
            return self.sep.join(cols)
        return super().render(rec)

    def expected(self, r):
        return {"visibility": self.VIS(r), "synop_WaWa": self.WAWA(r), "precipitation_rate": self.RATE(r) * MM_H}

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import fd12p2nc

        return fd12p2nc(files[0], out, self.site, uuid=uuid, date=date)


class RainEH3(TextDevice):
    name = "rain_e_h3_16"
    sep = ";"
    encoding = "latin1"
    faults = {"torn": "skip", "extra": "skip", "badval": "free", "badtime": "skip", "garbage": "skip", "blank": "skip"}
    rain_amount_var = "rainfall_amount"
    amount_unit = 1e-3
    #: the protocol is recognised from the median column count
    layout_by_majority = True

    def value_columns(self):
        return (2, 3)

    def RATE(self, r):
        return self.v(r, "RATE", 0, 40, 3)

    def amount(self, r):
        return r.get("amount", 0.4 + 0.01 * (r["t"] // 60))

    def columns(self, r):
        t = self.dt_of(r)
        return [f"{t:%d.%m.%Y}", f"{t:%H:%M:%S}", f"{self.RATE(r):.3f}", f"{self.amount(r):.3f}", "0", "9.56", "11.50", "0", "0", "0", "60", "2582", "rain[e]H3", "Lindenberg      ", "MF              ", "ACTRIS       "]

    def expected(self, r):
        return {"rainfall_rate": self.RATE(r) * MM_H}

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments.rain_e_h3 import rain_e_h32nc

        return rain_e_h32nc(files[0], out, self.site, uuid=uuid, date=date)


class RainEH3New(RainEH3):
    name = "rain_e_h3_22"

    def value_columns(self):
        return (3, 4)

    def header(self, opts):
        return ";".join(f"column {i}" for i in range(22)) + "\n"

    def columns(self, r):
        t = self.dt_of(r)
        return [
            f"{t:%Y-%m-%d %H:%M:%S}", f"te:{t:%Y.%m.%d}", "00:01:03", f"{self.RATE(r):.3f}", f"{self.amount(r):.3f}", "0", "5.00", "5.00", "1", "0", "0", "60", "16740",
            "rain[e]H3", "Lindenberg      ", "MF              ", "ACTRIS          ", "                ", "850383.0067", "1.20", "1.55", "-0.50*9A",
        ]


DEVICES = [FD12P, RainEH3, RainEH3New]
