import builtins
from unittest import mock

SYS = os.path.join(D, "sys")
os.makedirs(os.path.join(SYS, "queue"))
os.makedirs(os.path.join(SYS, "bdi"))
REAL_OPEN, REAL_EXISTS = builtins.open, os.path.exists


def where(path):
    """Everything below /sys/dev/block is looked for in the scratch directory."""
    if isinstance(path, str) and path.startswith("/sys/dev/block/"):
        return os.path.join(SYS, path.split("/", 5)[5])
    return path


def setting(name, value=None):
    p = os.path.join(SYS, name)
    if value is not None:
        with REAL_OPEN(p, "w") as f:
            f.write(value)
    with REAL_OPEN(p) as f:
        return f.read().strip()


class Dest:
    """A destination whose write number 'at' fails."""

    def __init__(self, f, exc, at=1):
        self.f, self.exc, self.at, self.n = f, exc, at, 0

    def __getattr__(self, name):
        return getattr(self.f, name)

    def write(self, data):
        self.n += 1
        if self.n == self.at:
            raise self.exc
        return self.f.write(data)


def bdev_copy(image, size=64 * 4096, **kw):
    """Copy to a file which is treated as a block device with its settings in the scratch directory."""
    from bmaptools import BmapCopy

    with mock.patch("builtins.open", lambda p, *a, **k: REAL_OPEN(where(p), *a, **k)), mock.patch(
        "os.path.exists", lambda p: REAL_EXISTS(where(p))
    ):
        return copy(image, old=b"\0" * size, cls=BmapCopy.BmapBdevCopy, **kw)
