import hashlib, io, shutil, tempfile

D = tempfile.mkdtemp(prefix="demo-")
import atexit
atexit.register(shutil.rmtree, D, True)


def fail(msg):
    print("BROKEN:", msg)
    sys.exit(1)


def blob(blocks, bs=4096, tail=0, key=1):
    out = b""
    for i in range(blocks):
        out += hashlib.sha256(b"%d-%d" % (key, i)).digest() * (bs // 32)
    return out + b"\x5a" * tail


def put(name, data):
    path = os.path.join(D, name)
    with open(path, "wb") as f:
        f.write(data)
    return path


def bmap(data, ranges, bs=4096, version="2.0", bad=(), mapped=None, nochk=(), size=None):
    """A bmap file for 'data' with correct checksums, except for the ranges in 'bad'."""
    size = len(data) if size is None else size
    cnt = (size + bs - 1) // bs
    mapped = sum(b - a + 1 for a, b in ranges) if mapped is None else mapped
    alg = "sha256" if version in ("2.0", "1.4") else "sha1"
    attr = {"2.0": "chksum", "1.4": "chksum", "1.3": "sha1"}.get(version)
    tag = {"2.0": "BmapFileChecksum", "1.4": "BmapFileChecksum", "1.3": "BmapFileSHA1"}.get(version)
    zeros = "0" * len(hashlib.new(alg).hexdigest())
    x = '<?xml version="1.0" ?>\n<bmap version="%s">\n' % version
    x += "<ImageSize> %d </ImageSize>\n<BlockSize> %d </BlockSize>\n" % (size, bs)
    x += "<BlocksCount> %d </BlocksCount>\n<MappedBlocksCount> %d </MappedBlocksCount>\n" % (cnt, mapped)
    if alg == "sha256":
        x += "<ChecksumType> sha256 </ChecksumType>\n"
    if tag:
        x += "<%s> %s </%s>\n" % (tag, zeros, tag)
    x += "<BlockMap>\n"
    for n, (a, b) in enumerate(ranges):
        h = hashlib.new(alg, data[a * bs:(b + 1) * bs]).hexdigest()
        if n in bad:
            h = ("0" if h[-1] != "0" else "1").rjust(1) and h[:-1] + ("0" if h[-1] != "0" else "1")
        at = ' %s="%s"' % (attr, h) if attr and n not in nochk else ""
        x += "<Range%s> %s </Range>\n" % (at, "%d-%d" % (a, b) if a != b else "%d" % a)
    x += "</BlockMap>\n</bmap>\n"
    if tag:
        x = x.replace(zeros, hashlib.new(alg, x.encode()).hexdigest(), 1)
    return x.encode()


def copy(image, dest=None, bmapdata=None, image_size=None, old=b"", cls=None, wrap=None, **kw):
    """Copy 'image' to a file; returns (the destination's path, the exception or None)."""
    from bmaptools import BmapCopy
    ip = put("image", image) if isinstance(image, bytes) else None
    dp = dest or put("dest", old)
    bp = put("bmap", bmapdata) if bmapdata is not None else None
    fi = open(ip, "rb") if ip else image
    fd = open(dp, "r+b")
    fb = open(bp, "rb") if bp else None
    try:
        (cls or BmapCopy.BmapCopy)(fi, wrap(fd) if wrap else fd, fb, image_size).copy(**kw)
        err = None
    except BaseException as e:
        err = e
    finally:
        fd.close()
    return dp, err


def read(path):
    with open(path, "rb") as f:
        return f.read()
