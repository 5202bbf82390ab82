"""Which analyses decide which property."""

from .rules import rule


def t(module, **kw):
    return (module, kw)


COPY = [
    t("copymon", bmap=True, size=False, explicit=False, version="2.0"),
    t("copymon", bmap=True, size=False, explicit=False, version="1.3"),
    t("copymon", bmap=True, size=False, explicit=False, version="1.2"),
    t("copymon", bmap=False, size=False, explicit=False),
    t("copymon", bmap=False, size=True, explicit=False),
    t("copymon", bmap=False, size=False, explicit=True),
    t("copymon", bmap=False, size=True, explicit=True),
    t("copymon", bmap=True, size=False, explicit=False, version="2.0", bdev=True),
]
COPY_MORE = [
    t("copymon", bmap=True, size=False, explicit=True, version="2.0"),
    t("copymon", bmap=True, size=False, explicit=False, version="1.4"),
    t("copymon", bmap=True, size=False, explicit=False, version="1.0"),
    t("copymon", bmap=True, size=False, explicit=False, version="1.1"),
]

CLI = [
    t("climon"),
    t("climon", given=["--bmap"]),
    t("climon", given=["--bmap-sig"]),
    t("climon", given=["--bmap", "--bmap-sig", "--psplash-pipe"]),
]
CREATE = [t("climon", command="create"), t("climon", command="create", given=["--output"])]
ENTRY = [t("climon", command="create", entry="module"), t("climon", entry="module")]

PROPERTIES = {}


def prop(pid, tasks, floor, assumptions=(), thorough=()):
    PROPERTIES[pid] = dict(tasks=tasks, rule=rule(pid), floor=floor, assumptions=list(assumptions), thorough=list(thorough))


GATES = [t("parsemon", version=v, size=s) for v in ("1.0", "1.1", "1.2", "1.3", "1.4", "2.0", "2.1", "3.0", "10.0") for s in (False, True)]
prop("C09", GATES, {"copy object constructed": 7, "mapping of the bmap": 1})
MALFORMED = [
    ("parsemon", dict(malformed=True)),
    ("copymon", dict(bmap=True, size=False, explicit=False, version="2.0", malformed=True)),
]
prop("C10", GATES + COPY[:3] + MALFORMED, {"copy object constructed": 7})
prop("C11", GATES + COPY[:1], {"copy object constructed": 7, "normal return of copy()": 1})

BDEV = [
    t("bdevmon"),
    t("bdevmon", explicit=False, ratio="100", scheduler="noop [cfq] deadline"),
    t("bdevmon", ratio="1", scheduler="[mq-deadline] kyber none"),
    t("bdevmon", ratio="100", scheduler="mq-deadline kyber [bfq]"),
    t("bdevmon", ratio="50", scheduler="mq-deadline [none]"),
    t("bdevmon", ratio="100", scheduler="none"),
]
for pid in ("C01", "C02", "C03", "C04", "C05", "C06"):
    prop(pid, COPY + (CLI + BDEV[:2] if pid in ("C01", "C06") else CLI if pid == "C02" else []), {"normal return of copy()": 6, "destination write": 6}, thorough=COPY_MORE)

prop("C07", BDEV, {"call of the base class copy()": 6, "restored setting": 6, "open of a kernel setting": 12})
prop("C08", [t("bdevmon", size=True, full=False), t("bdevmon", bmap=True, full=False), t("bdevmon", bmap=True, size=True, full=False)],
     {"block device copy constructed": 3, "capacity of the block device": 3})


def _names(*suffixes):
    return ["/d/image" + x for x in suffixes]


TRANS = [
    t("transmon", names=_names(".gz", ".bz2", ".xz", ".lzo", ".lz4", ".zst", ".zip", ".gzip"), mode="read"),
    t("transmon", names=_names(".tar.gz", ".tgz", ".tar.bz2", ".tbz", ".tbz2", ".tb2", ".tar.xz", ".txz"), mode="read"),
    t("transmon", names=_names(".tar.lzo", ".tzo", ".tar.lz4", ".tlz4", ".tar.zst", ".tzst"), mode="read"),
    t("transmon", names=_names(".img", ".raw", ".wic", ".bmap", "", ".gz.img", ".tar", "gz", ".tar.gz.bmap", ".xz.part"), mode="read"),
    t("transmon", names=_names(".gz", ".tar.xz", ".img"), mode="readall"),
    t("transmon", names=_names(".gz", ".tar.xz", ".img"), mode="seek"),
    t("transmon", names=_names(".bz2", ".zip", ".img"), mode="seekcur"),
    t("transmon", names=_names(".xz", ".tgz", ".img"), mode="seekread"),
    t("transmon", names=_names(".gz", ".tar.xz", ".img", ".zip"), mode="close"),
]
prop("C21", TRANS, {"file opened": 60, "program started": 60, "read() returned": 60})
prop("C22", TRANS + [t("helpermon", what="program")], {"candidate looked at": 2, "answer": 2, "program started": 60, "availability test": 60})
prop("C23", TRANS, {"exit status checked": 20, "feeding thread": 10})
prop("C24", TRANS, {"tell()": 20, "seek() returned": 20})
prop("C25", TRANS, {"close() returned": 8})


prop("C12", CLI, {"copy started": 8, "signature verification": 8, "signature in the result": 8, "detached signature required": 8, "clear signed bmap used": 1})
prop("C13", CLI, {"copy started": 8, "option declared": 8})
prop("C14", CLI + CREATE + ENTRY, {"successful end": 8, "failure with an exit status": 8, "return of main()": 8})
prop("C15", CLI, {"copy to a block device": 8, "test for a block device": 4})
prop("C31", CLI, {"local copy of a bmap used": 8})
prop("C33", CREATE, {"bmap generated": 2, "successful end": 2})


BLOCKS = [t("fmapmon", kind=k, what=w, image=i) for k, w, i in (("seek", "block", "path"), ("seek", "noblock", "file"), ("fiemap", "block", "path"), ("fiemap", "noblock", "file"))]
CHOICE = [t("fmapmon", kind="factory", what="choice", image=i) for i in ("path", "file")]
FS = [t("helpermon", what="compatible"), t("helpermon", what="size")]
RANGES = [
    t("fmapmon", kind="fiemap", what="mapped", has=True),
    t("fmapmon", kind="fiemap", what="mapped", has=False),
    t("fmapmon", kind="fiemap", what="unmapped", has=True),
    t("fmapmon", kind="fiemap", what="unmapped", has=False),
    t("fmapmon", kind="seek", what="mapped"),
    t("fmapmon", kind="seek", what="unmapped"),
    t("fmapmon", kind="seek", what="mapped", image="file"),
]
MAPS = {"map object constructed": 4, "image file synchronized": 4}
prop("C18", BLOCKS + CHOICE + FS, {**MAPS, "request for the map": 4, "check of the file system": 4, "ZFS parameter read": 1, "answer": 6})
prop("C19", RANGES + BLOCKS, {**MAPS, "range listed": 12, "end of the ranges": 12, "answer about a block": 8, "FIEMAP request": 6})
prop("C20", RANGES[-3:] + BLOCKS + CHOICE, {**MAPS, "way to map chosen": 4, "probe for stub support": 4, "FIEMAP request": 2})

BC = [t("createmon", checksums=c, given=g) for g in ("path", "file") for c in (True, False)]
prop("C16", BC, {"bmap created": 4, "Range element written": 8, "mapped range listed": 4})
prop("C17", BC, {"image data hashed": 4, "Range element written": 8})

WR = [t("writemon", layout=l) for l in ("single", "single-tight", "pair", "pair-tight", "pair-wide", "single-long", "pair-long")] + [t("writemon", layout="pair", argc=2)]
prop("C32", WR, {"successful end": 5, "range read": 20, "data written": 50})

PSPLASH = [
    t("copymon", bmap=True, size=False, explicit=False, version="2.0", psplash=True),
    t("copymon", bmap=True, size=False, explicit=False, version="2.0", psplash=True, nothing=True),
    t("copymon", bmap=False, size=True, explicit=False, psplash=True, indicator=True),
    t("copymon", bmap=False, size=False, explicit=False, psplash=True, indicator=True),
]
prop("C26", PSPLASH, {"psplash pipe opened": 20, "psplash command": 20}, thorough=[t("copymon", bmap=True, size=False, explicit=False, version="1.3", psplash=True, indicator=True)])
prop("C27", COPY, {"queue put": 20, "queue get": 20, "destination write": 20, "attribute used by both threads": 20}, thorough=COPY_MORE)
READERS = [COPY[0], COPY[4], COPY[7], GATES[0], GATES[11], TRANS[0], TRANS[1], TRANS[3], TRANS[5]] + RANGES + BLOCKS + BC[:1] + BC[2:3] + WR[:1] + CLI[:3] + CREATE
prop("C28", READERS, {"image read": 6, "image file synchronized": 4, "image data hashed": 2}, thorough=COPY_MORE + TRANS + WR + CLI)
prop("C29", READERS + PSPLASH[1:] + FS + CHOICE[:1] + TRANS[8:] + BDEV[:2], {"image read": 6, "successful end": 8}, thorough=COPY + COPY_MORE + GATES + TRANS + BDEV + CLI + ENTRY + RANGES + BLOCKS + CHOICE + BC + WR)


def tasks_for(files, props=""):
    """All quick tasks (once each) that look at any of the files."""
    out = []
    for p in PROPERTIES.values():
        for j in p["tasks"]:
            if j not in out and files & set(FILES[j[0]]):
                out.append(j)
    return out


FILES = {"writemon": ("contrib/bmap_write.py",), "createmon": ("bmaptools/BmapCreate.py",), "fmapmon": ("bmaptools/Filemap.py",), "helpermon": ("bmaptools/BmapHelpers.py",), "climon": ("bmaptools/CLI.py", "bmaptools/__main__.py"), "transmon": ("bmaptools/TransRead.py", "bmaptools/BmapHelpers.py"), "bdevmon": ("bmaptools/BmapCopy.py", "bmaptools/BmapHelpers.py"), "parsemon": ("bmaptools/BmapCopy.py", "bmaptools/BmapHelpers.py"), "copymon": ("bmaptools/BmapCopy.py", "bmaptools/BmapHelpers.py")}
