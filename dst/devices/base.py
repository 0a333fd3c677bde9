import datetime
import hashlib

DAY = datetime.date(2025, 2, 9)
SITE = {"name": "Simsite", "latitude": 50.0, "longitude": 10.0, "altitude": 100.0}


def h01(*key) -> float:
    d = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(d[:7], "big") / 2**56


def hint(lo, hi, *key) -> int:
    """Deterministic integer in [lo, hi]."""
    return lo + int(h01(*key) * (hi - lo + 1))


def hval(lo, hi, nd, *key) -> float:
    return round(lo + (hi - lo) * h01(*key), nd)


class Device:
    """One kind of instrument.

    A record is {"t": seconds from 00:00 UTC of the day (may lie outside it),
    "id": int, "f": optional record fault}.  All measured values derive from
    the id alone, so values identify the record they came from.
    """

    name = "?"
    dt = 60  # nominal seconds between records
    site = SITE
    multi = False  # several raw files can be given at once
    folder = False  # takes a folder
    ext = ".dat"
    time_tol = 1.0  # seconds
    #: record fault -> "skip" (that record disappears, nothing else), "mask"
    #: (present or absent, damaged values masked), "free" (may also raise)
    faults: dict = {}
    dedup = True  # duplicate timestamps collapse to one profile
    min_records = 1
    day = DAY
    rain_amount_var = None
    axis_tol = 1e-3
    special_counts: tuple = ()  # numbers of records equal to another axis of the product

    def v(self, rec, field, lo, hi, nd):
        return hval(lo, hi, nd, self.name, field, rec["id"])

    def dt_of(self, rec):
        return datetime.datetime.combine(self.day, datetime.time()) + datetime.timedelta(seconds=rec["t"])

    def write(self, path, recs, opts):
        raise NotImplementedError

    def convert(self, files, out, date, uuid=None):
        raise NotImplementedError

    def expected(self, rec) -> dict:
        """variable -> value in output units (None = masked)."""
        raise NotImplementedError

    reader = False
    layout_by_majority = False  # layout recognised from the majority of rows

    def as_written(self, recs):
        """Records as the file shows them: a torn record may swallow the next one."""
        out = []
        for k, r in enumerate(recs):
            if k and recs[k - 1].get("f") in ("torn_glued", "torn_block"):
                r = {**r, "f": r.get("f") or "swallowed"}
            out.append(r)
        return out

    def damaged(self, rec):
        return bool(rec.get("f"))

    rel_tol = 2e-5
    abs_tol = 1e-9

    def same(self, name, got, want, rec):
        from dst.attribution import close

        return close(got, want, self.rel_tol, self.abs_tol)

    clock_faults = ("dup", "dup_conflict", "swap", "step_back", "prev_day", "next_day", "far")
    #: documented refusal when there is no usable record
    no_data = ("ValidTimeStampError",)

    def file_name(self, i, recs):
        return f"{self.name}_{i:03d}{self.ext}"


class TextDevice(Device):
    sep = ","
    newline = "\n"
    encoding = "utf-8"

    def header(self, opts) -> str:
        return ""

    def columns(self, rec) -> list[str]:
        raise NotImplementedError

    def row(self, rec) -> str:
        return self.sep.join(self.columns(rec))

    def time_columns(self):
        return (0,)

    def value_columns(self):
        """Indices whose damage is visible as a non-number."""
        return ()

    def render(self, rec) -> str | None:
        f = rec.get("f")
        if not f:
            return self.row(rec)
        cols = self.columns(rec)
        if f == "torn":
            k = hint(1, len(cols) - 1, self.name, "torn", rec.get("c", rec["id"]))
            return self.sep.join(cols[:k])
        if f == "torn_glued":  # the next record starts on the same line
            k = hint(1, len(cols) - 1, self.name, "torn", rec.get("c", rec["id"]))
            return self.sep.join(cols[:k]) + "\0"
        if f == "garbage":
            return "".join("@#%&~^?|"[hint(0, 7, "g", rec["id"], i)] for i in range(30))
        if f == "badval":
            idx = self.value_columns()
            i = idx[hint(0, len(idx) - 1, "bv", rec.get("c", rec["id"]))]
            cols[i] = "*x*"
            return self.sep.join(cols)
        if f == "badtime":
            i = self.time_columns()[0]
            cols[i] = "?" + cols[i][1:]
            return self.sep.join(cols)
        if f == "extra":
            return self.sep.join([*cols, "7", "7"])
        if f == "blank":
            return ""
        raise ValueError(f)

    def write(self, path, recs, opts):
        lines = []
        for r in recs:
            s = self.render(r)
            if s is not None:
                lines.append(s)
        glued = self.newline.join(lines).replace("\0" + self.newline, "")
        glued = glued.replace("\0", "")
        with open(path, "wb") as f:
            f.write((self.header(opts) + glued + (self.newline if lines else "")).encode(self.encoding))
