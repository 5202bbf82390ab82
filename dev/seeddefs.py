from dev.seeds import SEEDS, seed

BC = "bmaptools/BmapCopy.py"
TR = "bmaptools/TransRead.py"
CL = "bmaptools/CLI.py"
CR = "bmaptools/BmapCreate.py"
FM = "bmaptools/Filemap.py"
BH = "bmaptools/BmapHelpers.py"
CW = "contrib/bmap_write.py"

seed("copy-hash-skips-batch", "C01",
     [(BC, "                    if verify and chksum:\n                        hash_obj.update(buf)",
       "                    if verify and chksum and (length == self._batch_blocks or start == first or end - start > 1):\n                        hash_obj.update(buf)")],
     "a range longer than one 1 MiB batch whose last batch is one or two blocks long",
     "short last batches are left out of the digest, so intact images are refused and damage there goes unnoticed",
     '''
img = blob(257)
zero = bmap(img[:256 * 4096] , [(0, 255)])
# a bmap made for an image that differs in the last block only, with the digest of the first batch
import re
b = bmap(img, [(0, 256)])
good = hashlib.sha256(img).hexdigest().encode()
part = hashlib.sha256(img[:256 * 4096]).hexdigest().encode()
own = re.search(rb"<BmapFileChecksum> (\\w+) <", b).group(1)
b = b.replace(good, part).replace(own, b"0" * 64)
b = b.replace(b"0" * 64, hashlib.sha256(b).hexdigest().encode(), 1)
p, err = copy(img, bmapdata=b)
if err is None:
    fail("a range with a wrong checksum was copied successfully")
''', "copy.py")

seed("copy-verify-stops-early", "C01",
     [(BC, "            chksum = None\n\n            yield (first, last, chksum)".replace("            chksum", "                chksum", 1), "                chksum = None\n                self._cs_attrib_name = \"none\"\n\n            yield (first, last, chksum)")],
     "a bmap in which a range without a checksum precedes a range with one",
     "after one range without a checksum the checksums of all later ranges are ignored",
     '''
img = blob(20)
p, err = copy(img, bmapdata=bmap(img, [(0, 1), (4, 6), (9, 12)], nochk=(0,), bad=(2,)))
if err is None:
    fail("a range with a wrong checksum was copied successfully")
p, err = copy(img, bmapdata=bmap(img, [(0, 1), (4, 6), (9, 12)], nochk=(0,)))
if err is not None:
    fail(repr(err))
''', "copy.py")

seed("copy-count-not-enforced", "C02",
     [(BC, "        if blocks_written != self.mapped_cnt:", "        if blocks_written != self.mapped_cnt and not (self._f_bmap and blocks_written > self.mapped_cnt):"),
      (BC, "            assert blocks_written <= self.mapped_cnt\n", "")],
     "a bmap whose ranges cover more blocks than its MappedBlocksCount announces",
     "the copy succeeds although the number of blocks written is not the announced number of mapped blocks",
     '''
img = blob(20)
p, err = copy(img, bmapdata=bmap(img, [(0, 1), (4, 6), (9, 12)], mapped=7))
if err is None:
    fail("the number of mapped blocks is not enforced")
''', "copy.py")

seed("copy-dest-seek-skipped", "C03",
     [(BC, "            self._f_dest.seek(start * self.block_size)\n", "            if start != blocks_written or start == 0:\n                self._f_dest.seek(start * self.block_size)\n")],
     "ranges after which the number of blocks written happens to equal the next block number (overlapping ranges)",
     "data is written at the wrong destination offset",
     '''
img = blob(16)
p, err = copy(img, bmapdata=bmap(img, [(0, 0), (2, 3), (3, 5), (1, 1)], size=len(img)))
d = read(p)
for a, b in ((0, 0), (2, 3), (3, 5), (1, 1)):
    if d[a * 4096:(b + 1) * 4096] != img[a * 4096:(b + 1) * 4096]:
        fail("blocks %d-%d of the destination differ" % (a, b))
''', "copy.py")

seed("copy-reader-error-lost", "C04",
     [(BC, "            self._batch_queue.put((\"error\", sys.exc_info()))\n\n        self._batch_queue.put(None)",
       "            if self.mapped_cnt or self._f_bmap:\n                self._batch_queue.put((\"error\", sys.exc_info()))\n\n        self._batch_queue.put(None)")],
     "an image without bmap and of unknown size, such as a stream, that fails while it is read",
     "a read error on a stream of unknown size ends the copy successfully",
     '''
class Image:
    name = "stream"
    n = 0
    def seek(self, off, whence=0):
        pass
    def read(self, size=-1):
        self.n += 1
        if self.n > 2:
            raise IOError(5, "input/output error")
        return b"x" * size
p, err = copy(Image())
if err is None:
    fail("reading failed, the copy succeeded")
''', "copy.py")

seed("copy-size-old-tail", "C05",
     [(BC, "            # Make sure the destination file has the same size as the image\n            try:\n                os.ftruncate(",
       "            # Make sure the destination file has the same size as the image\n            try:\n                if os.fstat(self._f_dest.fileno()).st_size < self.image_size:\n                    os.ftruncate(")],
     "an image of unknown size without bmap, and a destination file that was larger than the image before",
     "the old tail of a larger destination survives when the image size only becomes known at the end",
     '''
img = blob(600, tail=100)
p, err = copy(open(put("im", img), "rb"), old=b"o" * (len(img) + 5000))
if err is not None:
    fail(repr(err))
if os.path.getsize(p) != len(img):
    fail("destination size is %d, image size is %d" % (os.path.getsize(p), len(img)))
''', "copy.py")

seed("copy-sync-after-watermark", "C06",
     [(BC, "        if sync:\n            self.sync()", "        if sync and blocks_written != fsync_last:\n            self.sync()")],
     "a copy with nothing counted since the last intermediate synchronization (no mapped blocks at all)",
     "a copy that writes no block, or ends right at an intermediate synchronization, is not synchronized before success",
     '''
from unittest import mock
calls = []
real = os.fsync
img = blob(4)
b = bmap(img, [], mapped=0)
with mock.patch("os.fsync", lambda fd: calls.append(fd) or real(fd)):
    p, err = copy(img, bmapdata=b, sync=True)
if err is not None:
    fail(repr(err))
if not calls:
    fail("not synchronized")
''', "copy.py")

# ------------------------------------------------------------------ block devices

seed("bdev-interrupt-keeps-settings", "C07",
     [(BC, "        if self.modified:\n", "        if self.modified and (exc_type is None or issubclass(exc_type, Exception)):\n")],
     "a copy that ends with KeyboardInterrupt, which is no subclass of Exception",
     "settings of the device stay changed if the user interrupts the copy",
     '''
setting("queue/scheduler", "[mq-deadline] none")
setting("bdi/max_ratio", "100")
p, err = bdev_copy(blob(600), size=600 * 4096, wrap=lambda f: Dest(f, KeyboardInterrupt(), 2))
if not isinstance(err, KeyboardInterrupt):
    fail("not interrupted: %r" % err)
if setting("bdi/max_ratio") != "100" or setting("queue/scheduler") != "mq-deadline":
    fail("settings are %s, %s" % (setting("bdi/max_ratio"), setting("queue/scheduler")))
''', "copy.py bdev.py")

seed("bdev-scheduler-not-first", "C07",
     [(BC, 're.compile(r"([^\\[\\]]*)\\[([^ \\]]+)\\]([^\\[\\]]*)")', 're.compile(r"()\\[([^ \\]]+)\\](.*)")')],
     "a device whose current scheduler is not the first one in the list",
     "the whole list is taken for the current scheduler and written back after the copy, which the kernel refuses",
     '''
setting("queue/scheduler", "none mq-deadline [bfq] kyber")
setting("bdi/max_ratio", "100")
p, err = bdev_copy(blob(3))
if setting("queue/scheduler") != "bfq" or setting("bdi/max_ratio") != "100":
    fail("settings are %s, %s" % (setting("bdi/max_ratio"), setting("queue/scheduler")))
''', "copy.py bdev.py")

seed("bdev-size-in-blocks", "C08",
     [(BC, "            if bdev_size < self.image_size:", "            if bdev_size // self.block_size < self.image_size // self.block_size:")],
     "an image which exceeds the device by less than a block",
     "sizes are compared in whole blocks, so an image that does not fit is accepted",
     '''
img = blob(3, tail=200)
p, err = bdev_copy(img, size=3 * 4096 + 100, image_size=len(img))
if err is None:
    fail("an image larger than the device was accepted")
if read(p) != b"\\0" * (3 * 4096 + 100):
    fail("the device was written to")
p, err = bdev_copy(img, size=len(img), image_size=len(img))
if err is not None:
    fail(repr(err))
''', "copy.py bdev.py")

seed("bdev-size-only-announced", "C08",
     [(BC, "        if self.image_size:\n            try:\n                bdev_size", "        if image_size:\n            try:\n                bdev_size")],
     "a compressed image or URL, whose size is known from the bmap only",
     "the size taken from the bmap is not compared with the size of the device",
     '''
img = blob(5)
p, err = bdev_copy(img, size=4 * 4096, bmapdata=bmap(img, [(0, 1)]))
if err is None or read(p) != b"\\0" * 4 * 4096:
    fail("an image larger than the device was accepted: %r" % err)
p, err = bdev_copy(img, size=5 * 4096, bmapdata=bmap(img, [(0, 1)]))
if err is not None:
    fail(repr(err))
''', "copy.py bdev.py")

# ------------------------------------------------------------------ bmap files

seed("bmap-own-checksum-empty", "C09",
     [(BC, "        if calculated_chksum != correct_chksum:", "        if correct_chksum and calculated_chksum != correct_chksum:")],
     "a bmap whose BmapFileChecksum element is empty",
     "emptying the checksum element is enough to make a modified bmap acceptable",
     '''
import re
img = blob(6)
b = bmap(img, [(0, 1), (3, 4)], nochk=(0, 1))
p, err = copy(img, bmapdata=b)
if err is not None:
    fail(repr(err))
b = re.sub(rb"<BmapFileChecksum>[^<]*<", b"<BmapFileChecksum> <", b).replace(b"3-4", b"2-3")
p, err = copy(img, bmapdata=b)
if err is None:
    fail("a modified bmap without a checksum of itself was accepted")
''', "copy.py")

seed("bmap-own-checksum-first-page", "C09",
     [(BC, "        hash_obj.update(mapped_bmap)\n", "        hash_obj.update(mapped_bmap[: mmap.PAGESIZE] + mapped_bmap[mmap.PAGESIZE : -mmap.PAGESIZE])\n        hash_obj.update(mapped_bmap[max(mmap.PAGESIZE, len(mapped_bmap) - mmap.PAGESIZE) : chksum_pos * 65536])\n")],
     "a bmap so large that the end of the file is more than 65536 times the offset of the checksum behind",
     "the end of very large bmap files is left out of the checksum",
     '''
import re
img = blob(6)
b = bmap(img, [(0, 1), (3, 4)], nochk=(0, 1))
big = b.replace(b"</bmap>", b"<!--" + b"x" * 65536 * 600 + b"--></bmap>")
own = re.search(rb"<BmapFileChecksum> (\\w+) <", b).group(1)
big = big.replace(own, b"0" * 64)
big = big.replace(b"0" * 64, hashlib.sha256(big).hexdigest().encode(), 1)
p, err = copy(img, bmapdata=big)
if err is not None:
    fail(repr(err))
''', "copy.py")

seed("bmap-minor-versions", "C10",
     [(BC, "        if self.bmap_version_major > 1 or (", "        if self.bmap_version == SUPPORTED_BMAP_VERSION or (")],
     "a bmap of version 2.1 or later",
     "bmaps of newer minor versions are accepted with their checksums ignored",
     '''
img = blob(6)
b = bmap(img, [(0, 1), (3, 4)], bad=(1,)).replace(b'version="2.0"', b'version="2.1"')
import re
own = re.search(rb"<BmapFileChecksum> (\\w+) <", b).group(1)
b = b.replace(own, b"0" * 64)
b = b.replace(b"0" * 64, hashlib.sha256(b).hexdigest().encode(), 1)
p, err = copy(img, bmapdata=b)
if err is None:
    fail("a wrong range checksum in a bmap of version 2.1 was ignored")
''', "copy.py")

seed("bmap-version-compared-as-text", "C10",
     [(BC, "        if self.bmap_version_major > int(SUPPORTED_BMAP_VERSION.split(\".\", 1)[0]):", "        if self.bmap_version.split(\".\", 1)[0] > SUPPORTED_BMAP_VERSION.split(\".\", 1)[0]:")],
     "a bmap of major version 10 or later, below '2' as a text",
     "major versions are compared as texts, so version 10.0 is accepted",
     '''
img = blob(6)
b = bmap(img, [(0, 1)]).replace(b'version="2.0"', b'version="10.0"')
import re
own = re.search(rb"<BmapFileChecksum> (\\w+) <", b).group(1)
b = b.replace(own, b"0" * 64)
b = b.replace(b"0" * 64, hashlib.sha256(b).hexdigest().encode(), 1)
p, err = copy(img, bmapdata=b)
if err is None:
    fail("a bmap of version 10.0 was accepted")
''', "copy.py")

seed("bmap-size-below-announced", "C11",
     [(BC, "        if self.image_size is not None and self.image_size != image_size:", "        if self.image_size is not None and self.image_size < image_size:")],
     "an image file shorter than its bmap says, with the missing part unmapped",
     "an image that is smaller than the bmap says is accepted",
     '''
img = blob(6)
b = bmap(img, [(0, 1)])
p, err = copy(img[:4 * 4096], bmapdata=b, image_size=4 * 4096)
if err is None:
    fail("an image smaller than its bmap says was accepted")
p, err = copy(img, bmapdata=b, image_size=6 * 4096)
if err is not None:
    fail(repr(err))
''', "copy.py")

seed("bmap-too-many-blocks", "C11",
     [(BC, "        if self.blocks_cnt != blocks_cnt:", "        if self.blocks_cnt < blocks_cnt:")],
     "a bmap whose number of blocks is larger than its image size allows",
     "a bmap announcing more blocks than the image has is accepted",
     '''
import re
img = blob(6)
b = bmap(img, [(0, 1)]).replace(b"<BlocksCount> 6 ", b"<BlocksCount> 9 ")
own = re.search(rb"<BmapFileChecksum> (\\w+) <", b).group(1)
b = b.replace(own, b"0" * 64)
b = b.replace(b"0" * 64, hashlib.sha256(b).hexdigest().encode(), 1)
p, err = copy(img, bmapdata=b)
if err is None:
    fail("a bmap with too many blocks was accepted")
''', "copy.py")

# ------------------------------------------------------------------ the command

seed("sig-first-good-one-counts", "C12",
     [(CL, "                \"(fingerprint %s)\" % (author, sig.fpr)\n            )\n", "                \"(fingerprint %s)\" % (author, sig.fpr)\n            )\n            break\n")],
     "a signature file with several signatures of which a later one is bad",
     "signatures after the first good one are not looked at",
     '''
img = blob(6)
put("img", img), put("img.bmap", bmap(img, [(0, 1)])), put("img.bmap.asc", b"x")
for sigs, good in (((1, 1), True), ((1, 0), False), ((0, 1), False)):
    fake_gpg(*sigs)
    st, out = bmaptool("copy", os.path.join(D, "img"), os.path.join(D, "out"))
    if (st == 0) != good:
        fail("signatures %r: exit status %r\\n%s" % (sigs, st, out))
''', "copy.py cli.py")

seed("sig-looked-for-elsewhere", "C12",
     [(CL, '            sig_path = bmap_path + ".asc"\n', '            sig_path = os.path.splitext(bmap_path)[0] + ".asc"\n')],
     "a detached signature next to the bmap with the suffix .asc, not named by --bmap-sig",
     "'image.bmap.asc' is not found any more, so the bmap is used without verifying it",
     '''
img = blob(6)
put("img", img), put("img.bmap", bmap(img, [(0, 1)])), put("img.bmap.asc", b"x")
fake_gpg(0)
st, out = bmaptool("copy", os.path.join(D, "img"), os.path.join(D, "out"))
if st == 0:
    fail("the bad signature next to the bmap was ignored")
''', "copy.py cli.py")

seed("cli-sig-option-skips-checksums", "C13",
     [(CL, "            writer.copy(False, not args.no_verify)", "            writer.copy(False, not (args.no_verify or args.no_sig_verify))")],
     "--no-sig-verify together with an image that does not match its bmap",
     "--no-sig-verify also turns off the verification of the image data",
     '''
img = blob(6)
put("img", img[:4096] + b"x" * 4096 + img[8192:]), put("img.bmap", bmap(img, [(0, 2)]))
for opts, good in (([], False), (["--no-verify"], True), (["--no-sig-verify"], False)):
    st, out = bmaptool("copy", *opts, os.path.join(D, "img"), os.path.join(D, "out"))
    if (st == 0) != good:
        fail("%r: exit status %r\\n%s" % (opts, st, out))
''', "copy.py cli.py")

seed("cli-interrupt-is-success", "C14",
     [(CL, '        error_out("interrupted, exiting")', '        print_error_with_tb("interrupted, exiting")')],
     "the user interrupting the copy",
     "an interrupted copy ends with exit status 0",
     '''
from bmaptools import BmapCopy
img = blob(6)
put("img", img), put("img.bmap", bmap(img, [(0, 1)]))
def interrupted(fd):
    raise KeyboardInterrupt()
with mock.patch("os.fsync", interrupted):
    st, out = bmaptool("copy", os.path.join(D, "img"), os.path.join(D, "out"))
if st == 0:
    fail("interrupted, but the exit status is 0")
''', "copy.py cli.py")

seed("cli-sync-failure-is-warning", "C14",
     [(CL, "            writer.sync()\n        except BmapCopy.Error as err:\n            error_out(err)", "            writer.sync()\n        except BmapCopy.Error as err:\n            log.warning(\"%s\" % err)")],
     "a device that fails when the data is synchronized at the end",
     "a failed synchronization ends with exit status 0",
     '''
img = blob(6)
put("img", img), put("img.bmap", bmap(img, [(0, 1)]))
def failing(fd):
    raise OSError(errno.EIO, "input/output error")
with mock.patch("os.fsync", failing):
    st, out = bmaptool("copy", os.path.join(D, "img"), os.path.join(D, "out"))
if st == 0:
    fail("synchronizing failed, but the exit status is 0")
''', "copy.py cli.py")

seed("cli-busy-partition-opened", "C15",
     [(CL, "        error_out(\"cannot open block device '%s' in exclusive mode: %s\", path, err)\n",
       "        if not path[-1:].isdigit():\n            error_out(\"cannot open block device '%s' in exclusive mode: %s\", path, err)\n        descriptor = os.open(path, os.O_WRONLY)\n")],
     "a partition (name ending in a digit) that is mounted",
     "a busy partition is opened without exclusive access instead of being refused",
     '''
from bmaptools import CLI
path = put("sdz1", b"")
real = os.open
def busy(p, flags, *a, **k):
    if p == path and flags & os.O_EXCL:
        raise OSError(errno.EBUSY, "device is busy")
    return real(p, flags, *a, **k)
with mock.patch("os.open", busy):
    try:
        f = CLI.open_block_device(path)
    except SystemExit as e:
        sys.exit(0 if e.code else 1)
fail("a busy device was opened")
''', "copy.py cli.py")

seed("cli-bdev-only-in-dev", "C15",
     [(CL, "    dest_is_blkdev = stat.S_ISBLK(os.fstat(dest_obj.fileno()).st_mode)", "    dest_is_blkdev = stat.S_ISBLK(os.fstat(dest_obj.fileno()).st_mode) and os.path.normpath(\n        args.dest\n    ).startswith(\"/dev/\")")],
     "a block device whose name is not below /dev, such as a symbolic link to it",
     "a block device named by a link elsewhere is handled as a regular file, without exclusive access",
     '''
from bmaptools import CLI
img = blob(6)
put("img", img)
args = types.SimpleNamespace(image=os.path.join(D, "img"), dest=os.path.join(D, "link"), bmap=None, nobmap=True)
opened = []
real = os.open
def note(p, flags, *a, **k):
    if p == args.dest:
        opened.append(flags)
    return real(p, flags, *a, **k)
with mock.patch("stat.S_ISBLK", lambda m: True), mock.patch("os.open", note):
    r = CLI.open_files(args)
if not r[5] or not opened or not opened[-1] & os.O_EXCL:
    fail("a block device is handled as a regular file: %r %r" % (r[5], opened))
''', "copy.py cli.py")

seed("cli-url-bmap-first-mib", "C31",
     [(CL, "    shutil.copyfileobj(bmap_obj, tmp_obj)\n\n    tmp_obj.flush()", "    tmp_obj.write(bmap_obj.read(1024 * 1024))\n\n    tmp_obj.flush()")],
     "a bmap larger than 1 MiB which comes from a URL",
     "only the first MiB of a bmap from a URL is used",
     '''
import functools, http.server, threading
img = blob(6)
b = bmap(img, [(0, 1)], version="1.2")
put("img", img), put("img.bmap", b.replace(b"<BlockMap>", b"<!--" + b"x" * 1200000 + b"--><BlockMap>"))
class H(http.server.SimpleHTTPRequestHandler):
    def log_message(self, *a):
        pass
srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), functools.partial(H, directory=D))
threading.Thread(target=srv.serve_forever, daemon=True).start()
st, out = bmaptool("copy", "--bmap", "http://127.0.0.1:%d/img.bmap" % srv.server_port, "--no-sig-verify", os.path.join(D, "img"), os.path.join(D, "out"))
if st != 0 or read(os.path.join(D, "out"))[:8192] != img[:8192]:
    fail("exit status %r\\n%s" % (st, out))
''', "copy.py cli.py")

seed("cli-create-appends", "C33",
     [(CL, '            output = open(args.output, "w+")', '            output = open(args.output, "r+" if os.path.exists(args.output) else "w+")')],
     "an output file that exists and is longer than the new bmap",
     "the end of the old output file stays behind the new bmap",
     '''
img = put("img", blob(6))
out = put("img.bmap", b"<old/>" * 2000)
st, text = bmaptool("create", "-o", out, img)
if st:
    fail(text)
import xml.etree.ElementTree as E
try:
    E.parse(out)
except E.ParseError as e:
    fail("not a bmap: %s" % e)
''', "copy.py cli.py")

seed("cli-message-without-argument", "C29",
     [(CL, "            error_out(\"cannot open bmap signature file '%s':\\n%s\", args.bmap_sig, err)", "            error_out(\"cannot open bmap signature file '%s':\\n%s\", args.bmap_sig)")],
     "a signature file named by --bmap-sig that cannot be opened",
     "the message cannot be composed, so the user sees a TypeError instead of the reason",
     '''
img = blob(6)
put("img", img), put("img.bmap", bmap(img, [(0, 1)]))
st, out = bmaptool("copy", "--bmap-sig", os.path.join(D, "none"), os.path.join(D, "img"), os.path.join(D, "out"))
if st == 0 or "cannot open bmap signature file" not in out:
    fail(out)
''', "copy.py cli.py")

# ------------------------------------------------------------------ reading images

seed("tr-tbz2-not-known", "C21",
     [(TR, '                or name.endswith(".tbz2")\n', '')],
     "an image in a tar archive whose name ends in .tbz2",
     "a .tbz2 archive is read as if it was the image itself",
     '''
import tarfile
img = blob(40)
put("img", img)
with tarfile.open(os.path.join(D, "img.tbz2"), "w:bz2") as t:
    t.add(os.path.join(D, "img"), "img")
from bmaptools import TransRead
f = TransRead.TransRead(os.path.join(D, "img.tbz2"))
data = b""
while True:
    b = f.read(65536)
    if not b:
        break
    data += b
if data != img:
    fail("%d bytes read, the image has %d" % (len(data), len(img)))
''', "copy.py")

seed("tr-ssh-through-shell", "C22",
     [(TR, '        child_process = subprocess.Popen(popen_args + ["true"])\n', '        child_process = subprocess.Popen(" ".join(popen_args + ["true"]), shell=True)\n')],
     "an ssh URL whose host name contains shell syntax",
     "parts of an ssh URL are interpreted by the local shell",
     '''
os.mkdir(os.path.join(D, "bin"))
s = put("bin/ssh", b"#!/bin/sh\\nexit 1\\n")
os.chmod(s, 0o755)
os.environ["PATH"] = os.path.join(D, "bin") + ":" + os.environ["PATH"]
from bmaptools import TransRead
os.chdir(D)
try:
    TransRead.TransRead("ssh://$(>pwned)/img")
except TransRead.Error:
    pass
if os.path.exists(os.path.join(D, "pwned")):
    fail("a command in the URL was executed")
''', "copy.py")

seed("tr-warning-status-ignored", "C23",
     [(TR, '            args = decompressor + " " + args\n', '            args = decompressor + " " + args + " || test $? -eq 2"\n')],
     "a truncated or damaged .bz2 file and no pbzip2 (bzip2 exits with 2, the status which gzip uses for warnings)",
     "exit status 2 of a decompressor is taken for a warning, so damaged images are cut silently",
     '''
import bz2
img = blob(2000)
put("img.bz2", bz2.compress(img, 1)[:-2000])
import shutil
os.mkdir(os.path.join(D, "bin"))
os.symlink(shutil.which("bzip2"), os.path.join(D, "bin", "bzip2"))
os.environ["PATH"] = os.path.join(D, "bin")
from bmaptools import TransRead
f = TransRead.TransRead(os.path.join(D, "img.bz2"))
n = 0
try:
    while True:
        b = f.read(65536)
        if not b:
            break
        n += len(b)
except TransRead.Error:
    sys.exit(0)
fail("a damaged file was read without an error, %d of %d bytes" % (n, len(img)))
''', "copy.py")

seed("tr-seek-past-end", "C24",
     [(TR, "        to_read -= len(buf)\n", "        to_read -= chunk_size\n")],
     "a stream that delivers less data than asked for, such as a slow URL, while it is skipped",
     "short reads while seeking forward make the position wrong",
     '''
from bmaptools import TransRead
import bz2
img = blob(20)
class Slow:
    length = None
    def __init__(self, data):
        self.b = io.BytesIO(data)
    def read(self, n=-1):
        return self.b.read(n if n < 0 else min(n, 1000))
    def close(self):
        pass
    def __enter__(self):
        return self
import urllib.request
from unittest import mock
with mock.patch("urllib.request.OpenerDirector.open", lambda self, *a, **k: Slow(img)):
    f = TransRead.TransRead("http://localhost/img")
f.seek(5000)
d = f.read(100)
if d != img[5000:5100] or f.tell() != 5100:
    fail("wrong data after seeking forward, position %r" % f.tell())
''', "copy.py")

seed("tr-ssh-left-running", "C25",
     [(TR, "        self._f_objs.append(child_process.stdout)\n        self._child_processes.append(child_process)\n", "        self._f_objs.append(child_process.stdout)\n        self._child_processes = [child_process]\n")],
     "a compressed image read over ssh (two programs at a time)",
     "starting the decompressor forgets the ssh process, which is neither ended nor waited for",
     '''
import gzip, subprocess, time
img = blob(200)
put("img.gz", gzip.compress(img, 1))
os.mkdir(os.path.join(D, "bin"))
s = put("bin/ssh", b"#!/bin/sh\\nfor c; do :; done\\ncase \\"$c\\" in cat*) echo $$ > " + D.encode() + b"/pid; cat " + D.encode() + b"/img.gz; exec sleep 20;; esac\\n")
os.chmod(s, 0o755)
os.environ["PATH"] = os.path.join(D, "bin") + ":" + os.environ["PATH"]
from bmaptools import TransRead
f = TransRead.TransRead("ssh://host" + D + "/img.gz")
f.read(4096)
f._done = True
import threading
t = threading.Thread(target=f.close, daemon=True)
for c in f._child_processes:
    c.kill()
t.start()
t.join(5)
pid = int(read(os.path.join(D, "pid")))
time.sleep(0.3)
try:
    os.kill(pid, 0)
except ProcessLookupError:
    sys.exit(0)
os.kill(pid, 9)
fail("ssh is still running")
''', "copy.py")

# ------------------------------------------------------------------ psplash, threads, inputs

seed("psplash-narrow-except", "C26",
     [(BC, "            except:\n                pass\n", "            except (BlockingIOError, BrokenPipeError, FileNotFoundError):\n                pass\n")],
     "a psplash pipe that nobody reads (opening it fails with ENXIO)",
     "the copy fails if psplash is not running any more",
     '''
img = blob(6)
os.mkfifo(os.path.join(D, "fifo"))
from bmaptools import BmapCopy
class C(BmapCopy.BmapCopy):
    def __init__(self, *a):
        super().__init__(*a)
        self.set_psplash_pipe(os.path.join(D, "fifo"))
p, err = copy(img, bmapdata=bmap(img, [(0, 1), (3, 4)]), cls=C)
if err is not None:
    fail(repr(err))
''', "copy.py")

seed("reader-sets-image-size", "C27",
     [(BC, "                    self._batch_queue.put((\"range\", start, start + blocks - 1, buf))\n", "                    self._image_bytes = start * self.block_size + len(buf)\n                    self._batch_queue.put((\"range\", start, start + blocks - 1, buf))\n"),
      (BC, "                        self._batch_queue.put(None)\n                        return\n", "                        if start:\n                            self._set_image_size(self._image_bytes)\n                        self._batch_queue.put(None)\n                        return\n")],
     "an image of unknown size which the reader has finished while the copying thread still writes",
     "the reader thread changes the geometry while the copying thread uses it, so the progress depends on the timing",
     '''
import time
seen = []
made = []
from bmaptools import BmapCopy
class C(BmapCopy.BmapCopy):
    def __init__(self, *a):
        super().__init__(*a)
        made.append(self)
class Slow:
    def __init__(self, f):
        self.f = f
    def __getattr__(self, name):
        return getattr(self.f, name)
    def write(self, data):
        time.sleep(0.4)
        seen.append(made[0].image_size)
        return self.f.write(data)
img = blob(700)
p, err = copy(open(put("im", img), "rb"), cls=C, wrap=Slow)
if err is not None:
    fail(repr(err))
if any(seen):
    fail("the image size changed while the copying thread was writing: %r" % seen)
''', "copy.py")

seed("bmap-mapped-shared", "C28",
     [(BC, "        mapped_bmap = mmap.mmap(self._f_bmap.fileno(), 0, access=mmap.ACCESS_COPY)", "        mode = getattr(self._f_bmap, \"mode\", \"rb\")\n        access = mmap.ACCESS_WRITE if \"+\" in mode else mmap.ACCESS_COPY\n        mapped_bmap = mmap.mmap(self._f_bmap.fileno(), 0, access=access)")],
     "a bmap file object which was opened for reading and writing",
     "verifying the bmap overwrites its own checksum with zeroes",
     '''
from bmaptools import BmapCopy
img = blob(6)
b = bmap(img, [(0, 1)])
p = put("b", b)
with open(put("img", img), "rb") as fi, open(put("out", b""), "r+b") as fo, open(p, "r+b") as fb:
    BmapCopy.BmapCopy(fi, fo, fb).copy()
if read(p) != b:
    fail("the bmap file was modified")
''', "copy.py")

# ------------------------------------------------------------------ creating bmaps

seed("create-no-slack", "C16",
     [(CR, '        xml = "%s or %s   -->\\n" % (', '        xml = "%s or %s -->\\n" % (')],
     "an image whose mapped size needs more characters than its size ('1024.0 MiB' of '1.0 GiB')",
     "the human readable mapped size overwrites the end of the comment, so the bmap is no XML any more",
     '''
import types
from unittest import mock
from bmaptools import BmapCreate
cnt = 1 << 18
m = types.SimpleNamespace(image_size=cnt * 4096, block_size=4096, blocks_cnt=cnt, get_mapped_ranges=lambda a, n: iter([(0, cnt - 2)]))
with mock.patch("bmaptools.Filemap.filemap", lambda image: m):
    BmapCreate.BmapCreate(put("img", b"x"), os.path.join(D, "b")).generate(False)
import xml.etree.ElementTree as E
try:
    E.parse(os.path.join(D, "b"))
except E.ParseError as e:
    fail("not a bmap: %s" % e)
''', "copy.py")

seed("create-position-lost", "C16",
     [(CR, "        self._f_image.seek(image_pos)\n", "        if include_checksums:\n            self._f_image.seek(image_pos)\n")],
     "a bmap without checksums on a file system where the blocks are found by seeking",
     "the position of the caller's image file is not restored",
     '''
from unittest import mock
from bmaptools import BmapCreate, Filemap
p = put("img", b"")
with open(p, "r+b") as f:
    f.truncate(40 * 4096)
    f.seek(8 * 4096)
    f.write(b"x" * 4096)
try:
    Filemap.FilemapSeek(p)
except Filemap.ErrorNotSupp:
    sys.exit(0)
for chk in (True, False):
    with open(p, "rb") as f, mock.patch("bmaptools.Filemap.filemap", Filemap.FilemapSeek):
        f.seek(100)
        BmapCreate.BmapCreate(f, os.path.join(D, "b")).generate(chk)
        if f.tell() != 100:
            fail("the image is left at %d" % f.tell())
''', "copy.py")

seed("create-range-hash-type", "C17",
     [(CR, "        self._f_image.seek(start)\n        hash_obj = hashlib.new(self._cs_type)\n", "        self._f_image.seek(start)\n        hash_obj = hashlib.sha256()\n")],
     "a bmap created with another checksum type than sha256",
     "range checksums are not of the type the bmap announces",
     '''
from bmaptools import BmapCreate
img = blob(6)
BmapCreate.BmapCreate(put("img", img), os.path.join(D, "b"), "sha1").generate()
p, err = copy(img, bmapdata=read(os.path.join(D, "b")))
if err is not None:
    fail(repr(err))
''', "copy.py")

seed("create-last-chunk", "C17",
     [(CR, "            if read + chunk_size > to_read:", "            if read + chunk_size > to_read + self.block_size:")],
     "a range whose length modulo 1 MiB is just below 1 MiB, one block short of it",
     "checksums of some ranges also cover data behind the range",
     '''
from unittest import mock
import re, types
from bmaptools import BmapCreate
img = blob(600)
# ranges that are one byte or block short of the chunk in various ways
for bs in (1024, 4096):
    n = 1048576 // bs
    ranges = [(0, n - 2), (n, 2 * n - 1)]
    cnt = len(img) // bs
    m = types.SimpleNamespace(image_size=len(img), block_size=bs, blocks_cnt=cnt, get_mapped_ranges=lambda a, c: iter(ranges))
    with mock.patch("bmaptools.Filemap.filemap", lambda image: m):
        BmapCreate.BmapCreate(put("img", img), os.path.join(D, "b")).generate()
    got = re.findall(r'chksum="(\\w+)"', read(os.path.join(D, "b")).decode())
    want = [hashlib.sha256(img[a * bs:(b + 1) * bs]).hexdigest() for a, b in ranges]
    if got != want:
        fail("wrong checksums for blocks of %d bytes" % bs)
''', "copy.py")

seed("fmap-sync-before-flush", "C18",
     [(FM, "        try:\n            self._f_image.flush()\n", "        try:\n            os.fsync(self._f_image.fileno())\n"),
      (FM, "        try:\n            os.fsync(self._f_image.fileno()),\n", "        try:\n            self._f_image.flush()\n")],
     "an image file object with data that was not flushed yet",
     "data still in the buffer of the file object is written after the synchronization",
     '''
from unittest import mock
from bmaptools import Filemap
p = put("img", b"")
f = open(p, "r+b")
f.truncate(40960)
f.seek(8192)
f.write(b"x" * 100)
real = os.fsync
seen = []
def note(fd):
    seen.append(read(p)[8192:8292])
    return real(fd)
with mock.patch("os.fsync", note):
    Filemap.filemap(f)
if not seen or seen[-1] != b"x" * 100:
    fail("synchronized before the data was flushed")
''', "copy.py")

seed("fmap-zfs-link", "C18",
     [(BH, "    abspath = os.path.realpath(path)", "    abspath = os.path.abspath(path)")],
     "an image named by a symbolic link to another file system",
     "df looks at the link's file system... not at the one the image is on",
     '''
from unittest import mock
from bmaptools import BmapHelpers
import subprocess
os.mkdir(os.path.join(D, "bin"))
s = put("bin/df", b"#!/bin/sh\\nfor c; do :; done\\necho Filesystem Type x\\ncase \\"$c\\" in *pool*) echo pool zfs 1 2;; *) echo dev ext4 1 2;; esac\\n")
os.chmod(s, 0o755)
os.environ["PATH"] = os.path.join(D, "bin") + ":" + os.environ["PATH"]
os.mkdir(os.path.join(D, "pool"))
put("pool/img", b"x")
os.symlink(os.path.join(D, "pool", "img"), os.path.join(D, "link"))
if BmapHelpers.get_file_system_type(os.path.join(D, "link")) != "zfs":
    fail("the file system of the link is asked for")
''', "copy.py")

seed("fmap-extent-batch", "C19",
     [(FM, "            block = extent_block + extent_count\n", "            block = extent_block + extent_count + (mapped_extents == self._fiemap_extent_cnt)\n")],
     "a file with more extents than fit into one answer of the kernel",
     "a mapped block right behind a full answer is left out",
     '''
import struct
from unittest import mock
from bmaptools import Filemap
N = 12000
def ioctl(f, num, buf, mutate=True):
    if num != 0xC020660B:
        raise OSError(25, "ENOTTY")
    start, length, flags, m, cnt, r = struct.unpack_from("=QQLLLL", buf)
    n = 0
    for b in range(start // 4096, min(N, (start + length) // 4096)):
        if n < cnt:
            struct.pack_into("=QQQQQLLLL", buf, 32 + 56 * n, b * 4096, 0, 4096, 0, 0, 0, 0, 0, 0)
            n += 1
    struct.pack_into("=QQLLLL", buf, 0, start, length, flags, n, cnt, 0)
    return 0
p = put("img", b"")
os.truncate(p, N * 4096)
with mock.patch("fcntl.ioctl", ioctl), mock.patch("bmaptools.BmapHelpers.get_block_size", lambda f: 4096):
    got = list(Filemap.FilemapFiemap(p).get_mapped_ranges(0, N))
if got != [(0, N - 1)]:
    fail("%r" % got[:4])
''', "copy.py")

seed("fmap-seek-at-limit", "C19",
     [(FM, "            if start == -1 or start >= limit or start == self.image_size:", "            if start == -1 or start > limit or start == self.image_size:")],
     "data which starts exactly where the area asked for ends, found by seeking",
     "listing the ranges of an area does not end, or lists an empty range",
     '''
import signal
from bmaptools import Filemap
p = put("img", b"")
with open(p, "r+b") as f:
    f.truncate(64 * 4096)
    f.seek(4096)
    f.write(b"x" * 4096)
    f.seek(32 * 4096)
    f.write(b"x" * 4096)
try:
    fm = Filemap.FilemapSeek(p)
except Filemap.ErrorNotSupp:
    sys.exit(0)
signal.signal(signal.SIGALRM, lambda *a: fail("does not end"))
signal.alarm(10)
got = list(fm.get_mapped_ranges(0, 32))
for a, b in got:
    if a > b or b > 31:
        fail("%r" % got)
''', "copy.py")

seed("fmap-enotty-is-error", "C20",
     [(FM, "                _log.debug(errstr)\n                raise ErrorNotSupp(errstr)\n            raise Error(", "                _log.debug(errstr)\n                raise Error(errstr)\n            raise Error(")],
     "a kernel without the FIEMAP ioctl (ENOTTY)",
     "the other method is not tried on kernels without FIEMAP",
     '''
import errno
from unittest import mock
from bmaptools import Filemap
p = put("img", b"x" * 8192)
try:
    Filemap.FilemapSeek(p)
except Filemap.ErrorNotSupp:
    sys.exit(0)
for e in (errno.ENOTTY, errno.EOPNOTSUPP):
    def ioctl(*a):
        raise OSError(e, "not there")
    with mock.patch("fcntl.ioctl", ioctl):
        try:
            m = Filemap.filemap(p)
        except Filemap.Error as err:
            fail(repr(err))
        if not isinstance(m, Filemap.FilemapSeek):
            fail(repr(m))
''', "copy.py")

seed("fmap-stub-not-noticed", "C20",
     [(FM, "        if offs != 0:\n", "        if offs not in (0, self.block_size):\n")],
     "a kernel that only has a stub of SEEK_HOLE, which always answers with the end of the file",
     "the stub is not noticed, so images are taken for fully mapped",
     '''
from unittest import mock
from bmaptools import Filemap
p = put("img", b"x" * 8192)
real = os.lseek
def lseek(fd, off, whence):
    if whence == 4:
        return os.fstat(fd).st_size
    if whence == 3:
        return off
    return real(fd, off, whence)
with mock.patch("os.lseek", lseek):
    try:
        Filemap.FilemapSeek(p)
    except Filemap.ErrorNotSupp:
        sys.exit(0)
fail("the stub was not noticed")
''', "copy.py")

seed("writer-size-with-bmap", "C32",
     [(CW, "                end = start\n", "                end = start if start else int(bmap_root.find(\"MappedBlocksCount\").text) - 1\n")],
     "a bmap whose first range is the single block 0",
     "the range '0' is read as all mapped blocks from the start",
     '''
import subprocess
img = blob(16)
put("img.raw", img), put("img.bmap", bmap(img, [(0, 0), (8, 12)]))
r = subprocess.run([sys.executable, "-W", "ignore", "contrib/bmap_write.py", os.path.join(D, "img.raw"), os.path.join(D, "out")])
d = read(os.path.join(D, "out"))
want = img[:4096] + b"\\0" * 7 * 4096 + img[8 * 4096:13 * 4096] + b"\\0" * 3 * 4096
if r.returncode or d != want:
    fail("wrong output, exit status %d" % r.returncode)
''', "copy.py")

seed("writer-regexp", "C32",
     [(CW, '            m = re.match("^\\s*(\\d+)\\s*-\\s*(\\d+)\\s*$", blockrange)', '            m = re.match("^\\s*(\\d+)\\s*-\\s*(\\d{1,6})", blockrange)')],
     "a range ending at block 1000000 or later (images of 4 GB and more)",
     "the last block number of ranges far behind in the image is cut",
     '''
import subprocess
p = put("img.raw", b"")
n = 1000100
os.truncate(p, n * 512)
with open(p, "r+b") as f:
    f.seek(999990 * 512)
    f.write(b"x" * 512 * 100)
b = '<bmap version="1.2"><ImageSize>%d</ImageSize><BlockSize>512</BlockSize><BlockMap><Range>999990-1000089</Range></BlockMap></bmap>' % (n * 512)
put("img.bmap", b.encode())
r = subprocess.run([sys.executable, "-W", "ignore", "contrib/bmap_write.py", p, os.path.join(D, "out")])
with open(os.path.join(D, "out"), "rb") as f:
    f.seek(999990 * 512)
    d = f.read(100 * 512)
if r.returncode == 0 and d != b"x" * 51200:
    fail("blocks are missing in the output")
''', "copy.py")
