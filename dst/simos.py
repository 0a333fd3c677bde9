"""Python side of the simulated-OS seam (native/simos.c, loaded by LD_PRELOAD)."""

import ctypes
import hashlib
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))

W_NONE, W_ENOSPC, W_EIO, W_CRASH, W_TORN, W_SHORT, W_EIO_STICKY = range(7)
R_NONE, R_EIO, R_OPEN_EIO, R_EIO_STICKY, R_EMFILE = range(5)
W_NAMES = {1: "enospc", 2: "write_eio", 3: "crash", 4: "torn_write_crash", 5: "short_write_disk_full", 6: "write_eio_sticky"}
R_NAMES = {1: "read_eio", 2: "open_eio", 3: "read_eio_sticky", 4: "open_emfile"}


def build() -> str:
    """Compile the seam (once per source version) and return its path."""
    src = os.path.join(HERE, "native", "simos.c")
    with open(src, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    outdir = os.path.join(tempfile.gettempdir(), f"dst-native-{os.getuid()}")
    os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, f"simos-{tag}.so")
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}.tmp"
        subprocess.run(
            ["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"],
            check=True,
            env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"},
        )
        os.replace(tmp, out)
    return out


class SimOS:
    def __init__(self) -> None:
        path = os.environ["DST_SIMOS"]
        lib = ctypes.CDLL(path)
        lib.simos_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_double, ctypes.c_int, ctypes.c_long, ctypes.c_char_p]
        lib.simos_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        lib.simos_random.argtypes = [ctypes.c_int, ctypes.c_uint64]
        lib.simos_listing.argtypes = [ctypes.c_int, ctypes.c_uint64]
        lib.simos_netcdf.argtypes = [ctypes.c_int, ctypes.c_long]
        lib.simos_prefix.argtypes = [ctypes.c_char_p]
        for n in ("mutations", "reads", "opens", "open_fds", "nc_puts", "nc_gets"):
            getattr(lib, f"simos_{n}").restype = ctypes.c_long
        lib.simos_fired.restype = ctypes.c_long
        lib.simos_fired.argtypes = [ctypes.c_int]
        lib.simos_count.restype = ctypes.c_long
        lib.simos_count.argtypes = [ctypes.c_int]
        lib.simos_clock_now.restype = ctypes.c_int64
        lib.simos_hash.restype = ctypes.c_uint64
        self.lib = lib

    def memory(self, byte) -> None:
        """Content of memory that the allocator hands out without clearing it (None: whatever was there)."""
        M_PERTURB = -6
        ctypes.CDLL(None).mallopt(M_PERTURB, 0 if byte is None else byte ^ 0xFF)

    def prefix(self, path: str) -> None:
        self.lib.simos_prefix(path.encode())

    def arm(self, w_kind=0, w_at=-1, w_frac=0.0, r_kind=0, r_at=-1, only=None, n_kind=0, n_at=-1) -> None:
        self.lib.simos_netcdf(n_kind, n_at)
        self.lib.simos_arm(w_kind, w_at, w_frac, r_kind, r_at, only.encode() if only else None)

    def disarm(self) -> None:
        self.lib.simos_disarm()

    def clock(self, epoch_s: float | None, step_ns: int = 1000) -> None:
        if epoch_s is None:
            self.lib.simos_clock(0, 0, 0)
        else:
            self.lib.simos_clock(1, int(epoch_s) * 10**9, step_ns)

    def random(self, seed: int | None) -> None:
        self.lib.simos_random(0 if seed is None else 1, (seed or 0) & (2**64 - 1))

    def listing(self, seed: int | None) -> None:
        """None: host order; 0: sorted; other: seeded shuffle."""
        self.lib.simos_listing(0 if seed is None else 1, (seed or 0) & (2**64 - 1))

    def mutations(self) -> int:
        return self.lib.simos_mutations()

    def reads(self) -> int:
        return self.lib.simos_reads()

    def opens(self) -> int:
        return self.lib.simos_opens()

    def steps(self) -> list:
        """Positions of the mutations that are no plain writes (opening, truncating, renaming, removing, closing), and the next ones."""
        n = min(self.mutations(), 8192)
        self.lib.simos_op.argtypes = [ctypes.c_long]
        return sorted({j for i in range(n) if self.lib.simos_op(i) != 3 for j in (i, i + 1) if j < n})

    def nc_puts(self) -> int:
        return self.lib.simos_nc_puts()

    def nc_gets(self) -> int:
        return self.lib.simos_nc_gets()

    def fired(self) -> int:
        return sum(self.lib.simos_fired(i) for i in (1, 2, 5, 9, 10, 11, 12, 14, 15))

    def open_fds(self) -> int:
        return self.lib.simos_open_fds()


_os: SimOS | None = None


def get() -> SimOS:
    global _os
    if _os is None:
        _os = SimOS()
    return _os
