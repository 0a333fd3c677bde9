"""Simulated message-based ceilometers and text-logging radiometers."""

import binascii
import os

import numpy as np

from dst.devices.base import Device, hint
from dst.devices.ncremote import NcDevice


def crc(data: bytes) -> int:
    return binascii.crc_hqx(data, 0xFFFF) ^ 0xFFFF


class CeiloText(Device):
    ext = ".DAT"
    dt = 30
    ng = 32
    dr = 10
    digits = 5
    unit = 1e-8
    time_tol = 0.6
    multi = True
    min_records = 2
    faults = {"torn": "skip", "torn_glued": "skip", "garbage": "skip", "badcrc": "skip"}
    other_day_files = True
    model = None
    same = NcDevice.same
    abs_tol = 0.0

    def configure(self, opts):
        self.ng = opts.get("ng", type(self).ng)

    def gen_opts(self, rng, recs):
        return {"ng": rng.choice([type(self).ng, type(self).ng, max(4, len(recs)), type(self).ng + 8])}

    def raw(self, rec):
        rs = np.random.RandomState(hint(0, 2**31 - 1, self.name, "raw", rec["id"]))
        return rs.randint(10, 2000, self.ng)

    def expected(self, rec):
        return {"beta_raw": self.raw(rec) * self.unit}

    def axes(self):
        return {"range": self.dr * np.arange(self.ng) + self.dr / 2}

    def stamp(self, rec) -> bytes:
        return self.dt_of(rec).strftime("-%Y-%m-%d %H:%M:%S\r\n").encode()

    def message(self, rec) -> bytes:
        raise NotImplementedError

    def hex(self, rec):
        return "".join(f"{x & (16**self.digits - 1):0{self.digits}x}" for x in self.raw(rec)).encode()

    def write(self, path, recs, opts):
        out = b""
        for r in recs:
            stamp, msg = self.stamp(r), self.message(r)
            f = r.get("f")
            if f in ("torn", "torn_glued"):
                k = hint(5, len(msg) - 30, self.name, "torn", r.get("c", r["id"]))
                msg = msg[:k] + (b"\r\n" if f == "torn" else b"")
            elif f == "garbage":
                k = hint(0, 60, self.name, "garb", r.get("c", r["id"]))
                msg = msg[:k] + b"\xff\xfe#!" + msg[k + 4 :]
            elif f == "badcrc":
                msg = self.break_crc(msg)
            out += stamp + msg
        with open(path, "wb") as fh:
            fh.write(out)

    def break_crc(self, msg):
        i = msg.rindex(b"\x03") - 6  # a backscatter digit flipped on the serial line
        c = b"1" if msg[i : i + 1] != b"1" else b"2"
        return msg[:i] + c + msg[i + 1 :]

    def as_written(self, recs):
        return list(recs)

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy import concat_lib
        from cloudnetpy.instruments import ceilo2nc

        src = files[0]
        if len(files) > 1:
            src = out + ".joined.txt"
            concat_lib.concatenate_text_files(files, src)
        site = {**self.site}
        if self.model:
            site["model"] = self.model
        try:
            return ceilo2nc(src, out, site, uuid=uuid, date=date.isoformat() if date else None)
        finally:
            if src != files[0] and os.path.exists(src):
                os.unlink(src)


class Cl31(CeiloText):
    name = "cl31"
    subclass = b"1"

    def message(self, rec):
        l1 = b"CL02022" + self.subclass
        l2 = b"00 ///// ///// ///// 000000000080"
        l4 = f"00100 {self.dr:02d} {self.ng:04d} 100 +24 100 12 0003 L0016HN15 002".encode()
        check = l1 + b"\x02\r\n" + l2 + b"\r\n"
        body = b"\x01" + l1 + b"\x02\r\n" + l2 + b"\r\n"
        l3 = b"  2 261  0 ///  0 ///  0 ///  0 ///"
        l3 = l3.rjust(40 if self.subclass == b"6" else 35)
        prof = self.hex(rec)
        rest = l3 + b"\r\n" + l4 + b"\r\n" + prof + b"\r\n\x03"
        check += rest
        return body + rest + f"{crc(check):04x}".encode() + b"\x04\r\n"


class Cl51(Cl31):
    name = "cl51"
    subclass = b"6"


class Ct25k(CeiloText):
    name = "ct25k"
    ng = 256
    dr = 30
    digits = 4
    unit = 1e-7
    faults = {"torn": "skip", "torn_glued": "skip", "garbage": "skip"}

    def gen_opts(self, rng, recs):
        return {"ng": 256}

    def may_refuse(self, recs):
        # ceilopyter's ct25k smoother needs a positive median time step.
        ts = [r["t"] for r in recs if not self.damaged(r)]
        return len(ts) < 3 or any(b <= a for a, b in zip(ts, ts[1:]))

    def message(self, rec):
        h = self.hex(rec)
        body = b"\x01CT02072\x02\r\n"[:0] + b"\x01CT02073\x02\r\n".replace(b"073", b"020")
        body += b"00 ///// ///// ///// 00000100\r\n"
        body += b"100 N  99 +22  85  200 +15    6 LF7HN1 172\r\n"
        for i in range(16):
            body += f"{i * 16:03d}".encode() + h[i * 64 : i * 64 + 64] + b"\r\n"
        return body + b"\x03\r\n"


class Cs135(CeiloText):
    name = "cs135"
    dr = 5
    model = "cs135"

    def stamp(self, rec):
        return self.dt_of(rec).strftime("%Y-%m-%dT%H:%M:%S.%f,").encode()

    def message(self, rec):
        l1 = b"CS0007002"
        l2 = b"1W 097 01773 ///// ///// ///// 80c000000000"
        l4 = f"00100 {self.dr:02d} {self.ng:04d} 100 +39 02 0030 0020 30 000".encode()
        check = l1 + b"\x02\r\n" + l2 + b"\r\n" + l4 + b"\r\n" + self.hex(rec) + b"\r\n\x03"
        return b"\x01" + check + f"{crc(check):04x}".encode() + b"\x04\r\n"


class Wvr(Device):
    """Radiometrics WVR-1100 .los files."""

    name = "wvr"
    ext = ".los"
    multi = True
    folder = True
    dt = 30
    time_tol = 0.6
    faults = {"torn": "skip", "badtb": "skip", "offzenith": "skip", "blank": "skip"}
    other_day_files = True

    def file_name(self, i, recs):
        return f"{self.dt_of(recs[0]).strftime('%Y%m%d')}_{i:04d}.los" if recs else f"0_{i:04d}.los"

    def expected(self, rec):
        return {"lwp": self.v(rec, "lwp", 0.001, 0.09, 4) * 10, "iwv": self.v(rec, "iwv", 0.1, 4, 3) * 10}

    def row(self, rec):
        f = rec.get("f")
        t = self.dt_of(rec).strftime("%m/%d/%y %H:%M:%S")
        tb31 = -669.66 if f == "badtb" else self.v(rec, "tb31", 10, 50, 2)
        el = 59.9 if f == "offzenith" else 90.0
        s = f"{t} {self.v(rec, 'tb23', 20, 60, 2):7.2f} {tb31:7.2f} 296.99 {self.v(rec, 'iwv', 0.1, 4, 3):8.3f} {self.v(rec, 'lwp', 0.001, 0.09, 4):8.4f} 20.41 .0 {el} .2218 .1319 233.1 ****** 1024.0 -.01"
        if f == "torn":
            c = s.split()
            return " ".join(c[: hint(1, len(c) - 1, "wvr", rec["id"])])
        return "" if f == "blank" else s

    def write(self, path, recs, opts):
        head = " RETRIEVAL COEFFICIENTS:\nVapor  c0 =    .005 c1 =  21.647 c2 = -12.897\nLiquid c0 =   -.002 c1 =   -.291 c2 =    .622\n\n  date    time   TbSky23 TbSky31    TkBB    VapCM    LiqCM   DelCM   AZact  ELact Tau23  Tau31  Tamb   Rh  Pres  Rain\n"
        with open(path, "w") as f:
            f.write(head + "".join(self.row(r) + "\n" for r in recs))

    def convert(self, files, out, date, uuid=None):
        from cloudnetpy.instruments import radiometrics2nc

        src = os.path.dirname(files[0]) if len(files) > 1 else files[0]
        return radiometrics2nc(src, out, dict(self.site), uuid=uuid, date=date.isoformat() if date else None)


class RadMp(Wvr):
    """Radiometrics MP-3000A level 2 csv; one 301 + 401/402/403 block per record."""

    name = "radmp"
    ext = ".csv"
    dt = 120
    faults = {"badtext": "free", "blank": "free"}
    ranges = ("0.000", "0.100", "0.500", "1.000", "2.500")
    same = NcDevice.same
    rel_tol = 3e-5
    abs_tol = 1e-6

    def file_name(self, i, recs):
        return f"{i:03d}_lv2.csv"

    def prof(self, rec, field, lo, hi, nd):
        return [self.v({"id": (rec["id"], k)}, field, lo, hi, nd) for k in range(len(self.ranges))]

    def expected(self, rec):
        return {
            "lwp": self.v(rec, "lwp", 0, 0.9, 3), "iwv": self.v(rec, "iwv", 0.1, 4, 3) * 10,
            "temperature": self.prof(rec, "t", 220, 290, 2),
            "relative_humidity": [x / 100 for x in self.prof(rec, "rh", 5, 95, 1)],
            "absolute_humidity": [x / 1000 for x in self.prof(rec, "ah", 1, 15, 2)],
            "irt": [self.v(rec, "irt", 200, 280, 2)],
        }

    def axes(self):
        return {"range": np.array([float(x) * 1000 for x in self.ranges])}

    def write(self, path, recs, opts):
        rows = []
        rng = ",".join(self.ranges)
        rows.append("Record,Date/Time,10,Tamb(K),Rh(%),Pres(mb),Tir(K),Rain,Vint(cm),Lqint(mm)," + rng)
        rows.append("Record,Date/Time,100,Record Type,Title")
        rows.append("Record,Date/Time,200,Tamb(K),Rh(%),Pres(mb),Tir(K),Rain,DataQuality")
        rows.append("Record,Date/Time,300,Int. Vapor(cm),Int. Liquid(mm),Cloud Base(km),DataQuality")
        rows.append("Record,Date/Time,400,LV2 Processor," + rng + ",DataQuality")
        n = 0

        def add(r, kind, *vals):
            nonlocal n
            n += 1
            s = f"{n:6d},{self.dt_of(r).strftime('%m/%d/%y %H:%M:%S')},{kind}," + ",".join(str(v) for v in vals)
            if r.get("f") == "badtext" and kind == 301:
                s = s.replace(".", "*")
            rows.append(s)

        for k, r in enumerate(recs):
            if k == 0:
                for kind, title in ((401, "Temperature (K)"), (402, "Vapor Density (g/m^3)"), (404, "Relative Humidity (%)")):
                    add(r, 101, kind, title)
            if r.get("f") == "blank":
                rows.append("")
                continue
            add(r, 201, 280.0, 60.0, 1000.0, self.v(r, "irt", 200, 280, 2), 0, 0)
            add(r, 301, self.v(r, "iwv", 0.1, 4, 3), self.v(r, "lwp", 0, 0.9, 3), -1.0, 0)
            for kind, fld, lo, hi, nd in ((401, "t", 220, 290, 2), (402, "ah", 1, 15, 2), (404, "rh", 5, 95, 1)):
                add(r, kind, "Zenith", *self.prof(r, fld, lo, hi, nd), 0)
        with open(path, "w") as f:
            f.write("\n".join(rows) + "\n")


DEVICES = [Cl31, Cl51, Ct25k, Cs135, Wvr, RadMp]
