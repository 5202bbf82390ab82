"""Writes properties.jsonl and MANIFEST.json (python3 dev/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from bsa.registry import PROPERTIES
P = []
NA = []
BC = "bmaptools/BmapCopy.py"
TR = "bmaptools/TransRead.py"
CL = "bmaptools/CLI.py"
CR = "bmaptools/BmapCreate.py"
FM = "bmaptools/Filemap.py"
BH = "bmaptools/BmapHelpers.py"
CW = "contrib/bmap_write.py"


def p(id, title, statement, over, text, why, files, mech, technique="", note="", state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append((d, technique, note))


COPYTECH = "static path analysis (abstract interpretation of BmapCopy's byte code, reader thread composed with the writer through the queue)"
COPYNOTE = "Every path of the constructor, the reader thread and the writer loop, for any image, bmap, destination and any failure of an I/O call, is covered by inductive loop invariants found by the analysis; trusted: the models of the Python library calls and of the kernel calls (bsa/models.py), block sizes are positive."

p("C01", "A range whose recorded checksum does not match never yields success",
  "When an image is copied with a bmap and checksum verification is not turned off, the copy ends successfully only if for every block range that has a checksum recorded in the bmap the checksum of exactly the image data of that range, as read for the copy, equals the recorded one. A mismatch in any range (first, middle, last, single block, several batches long) makes the copy fail with an error.",
  "inputs histories", "all images, all bmap files (format versions, range shapes, missing checksums) and all batch boundaries",
  "The tests copy a handful of random sparse files and one set of prepared bmaps with bad checksums; a range shape or batch split they do not contain can skip, truncate or merge the digest unnoticed.",
  [BC], [("per-range digest in the reader thread", BC + " BmapCopy._get_data"), ("recorded checksum of a range", BC + " BmapCopy._get_block_ranges"), ("error handed to the copying thread", BC + " BmapCopy.copy")], COPYTECH, COPYNOTE)
p("C02", "A successful copy has written every mapped block of the image",
  "When a copy ends successfully, every block of every range the bmap lists (without a bmap: every byte up to the announced image size, or up to the end of the image if no size was announced) has been read from the image and written to the destination, and the number of blocks written equals the number of mapped blocks the bmap announces. An image that ends inside the mapped area, a bmap that belongs to another image, or a piece of data that cannot be written makes the copy fail.",
  "inputs histories fault_sequences", "all images, bmaps, batch sizes, block sizes and short reads",
  "Off-by-one errors in batch splitting, early ends of input and dropped tails depend on the relation of range length, batch size and image length; the tests try a few random layouts.",
  [BC], [("splitting of ranges into batches", BC + " BmapCopy._get_batches"), ("reader loop", BC + " BmapCopy._get_data"), ("mapped blocks count check", BC + " BmapCopy.copy")], COPYTECH, COPYNOTE)
p("C03", "Image data only ever goes to its own offset in the destination",
  "Every byte written to the destination during a copy is the byte the image has at that very offset. Nothing else is written to the destination, whatever the order and size of ranges, batches and short reads.",
  "inputs histories", "all images, bmaps, block sizes and batch boundaries",
  "A wrong seek only shows for particular range gaps and batch sizes; the tests compare whole files for a few layouts.",
  [BC], [("seek of the image to the range", BC + " BmapCopy._get_data"), ("seek and write of a batch", BC + " BmapCopy.copy")], COPYTECH, COPYNOTE)
p("C04", "A failure while reading the image always surfaces as a failed copy",
  "If reading the image or the bmap fails at any point of a copy (an I/O error, a decompressor failure, a malformed range, any other exception), the copy raises an error; it neither reports success nor waits forever for data.",
  "schedules fault_sequences", "all interleavings of the reading and the writing thread and all points at which reading can fail",
  "The tests never inject read failures in the reader thread, and cannot enumerate interleavings.",
  [BC], [("exceptions of the reader thread are queued", BC + " BmapCopy._get_data"), ("end-of-data marker", BC + " BmapCopy._get_data"), ("errors re-raised by the writer", BC + " BmapCopy.copy")], COPYTECH, COPYNOTE)
p("C05", "A regular destination file ends up with exactly the size of the image",
  "After a successful copy to a regular file the size of the file equals the image size: the size recorded in the bmap, or without a bmap the announced size or the amount of data copied. This also holds when the destination was larger before, when the image ends with a hole, and when the last block is partial.",
  "inputs histories", "all images, bmaps and previous destination sizes",
  "Depends on which of the sizes is known when, and on buffered data being written before or after the size is set; the tests only use fresh destinations.",
  [BC], [("truncate before and after the data is written", BC + " BmapCopy.copy"), ("image size bookkeeping", BC + " BmapCopy._set_image_size")], COPYTECH, COPYNOTE)
p("C06", "Data is flushed and synchronized before a synchronous copy reports success",
  "When copying with synchronization requested (the default of the copy operation) ends successfully, all written data has first been flushed out of user-space buffers and then synchronized to the device, with no write after it; a failure to flush or synchronize makes the copy fail. Only /dev/null, which cannot be synchronized, is exempt.",
  "crash_points fault_sequences histories", "all paths to success, all destinations, all failures of flush and synchronization",
  "The loss only shows on a power failure or a late write error, which no test provokes.",
  [BC], [("flush at the end of the copy", BC + " BmapCopy.copy"), ("fsync and its error", BC + " BmapCopy.sync"), ("quirk for /dev/null", BC + " BmapCopy.__init__")], COPYTECH, COPYNOTE)

PATH = "static path analysis (abstract interpretation of the byte code of the current source with loop invariants, typestate and taint-like provenance of every value)"
BDEVTECH = PATH + "; state machine of the kernel settings of the destination device"
GATETECH = PATH + "; the accepted bmap must have passed every gate"
TRANSTECH = PATH + "; typestate of files, pipes, processes and the feeding thread"
CLITECH = PATH + "; the command line is a symbolic argument vector run through the real option declarations"
BDEVNOTE = "All paths of the constructor and of copy() for any device name, any contents of the sysfs files and any failure of opening, reading or writing them; analysed once per class of initial settings (want value already set or not, modern and legacy schedulers). The inherited copy is any normal or exceptional outcome."
GATENOTE = "All paths of the constructor for any contents of the bmap file, analysed once per format version; trusted: the models of ElementTree, hashlib, mmap and struct."
TRANSNOTE = "All paths for every supported name extension (one analysis for each group of names) and any data, any failure of an I/O call, any exit status of the programs started; trusted: the models of subprocess, the compression modules, urllib and the file objects."
CLINOTE = "All paths from main() for all option combinations and any outcome (normal or exceptional) of the copying, verifying and opening steps; trusted: the models of argparse, the operating system calls, gpg's verdict."

p("C07", "Kernel settings changed for a block device are restored after the copy",
  "Copying to a block device limits the dirty page cache of the device and selects a simple I/O scheduler for the time of the copy. However the copy ends, by success or by any error, every setting that was changed has its previous value again. A device that does not offer a setting, or refuses a change, does not make the copy fail.",
  "fault_sequences configurations", "all initial settings, all failures of reading or writing them, all outcomes of the copy",
  "The tests never copy to a block device.",
  [BC], [("settings tuned and restored around the copy", BC + " BmapBdevCopy.copy"), ("dirty ratio", BC + " SysfsChange.__enter__"), ("restoring", BC + " SysfsChange.__exit__")], BDEVTECH, BDEVNOTE)
p("C08", "An image too large for the block device is refused before writing",
  "When the image size is known, from the bmap or because it was announced, an image that does not fit on the block device it is to be copied to is refused before anything is written. An image of exactly the size of the device is accepted.",
  "inputs configurations", "all image sizes, device capacities and ways of knowing the size",
  "The tests never copy to a block device.",
  [BC], [("capacity check", BC + " BmapBdevCopy.__init__")], BDEVTECH, BDEVNOTE)
p("C09", "A bmap whose own checksum does not match is never used",
  "A bmap file of a format version that carries a checksum of itself (1.3 and newer) is only accepted if the checksum over the whole file, with the checksum field itself zeroed, is the recorded one, using the hash the file names (sha1 in version 1.3). The check is done before anything is written to the destination.",
  "inputs", "all bmap files of all format versions",
  "The tests use a few prepared bmap files; a change that skips the check for one version or part of the file passes them.",
  [BC], [("checksum of the bmap file", BC + " BmapCopy._verify_bmap_checksum"), ("parsing", BC + " BmapCopy._parse_bmap")], GATETECH, GATENOTE)
p("C10", "Every supported bmap format version is read correctly, unknown ones refused",
  "Bmap files of major versions 1 and 2 are accepted and their image size, block size, counts, hash type and range checksums are taken from the elements and attributes which that version defines. A bmap file of a newer major version, or one that is not valid, ends in an error message of the library (never in an arbitrary exception for a file that is not XML, lacks elements or attributes of its version, or whose version, sizes or ranges are not numbers or are negative sizes).",
  "inputs configurations", "all bmap files, per format version",
  "The tests contain one prepared file per version and no malformed ones.",
  [BC], [("version gate", BC + " BmapCopy._parse_bmap"), ("hash type", BC + " BmapCopy._parse_bmap"), ("attribute of the range checksum", BC + " BmapCopy._get_block_ranges")], GATETECH, GATENOTE)
p("C11", "A bmap that contradicts itself or the announced image size is refused",
  "A bmap whose number of blocks does not fit its image size and block size is refused, and so is a bmap whose image size differs from the size the caller announced. A range whose first block is greater than its last one makes the copy fail.",
  "inputs", "all bmap files and announced sizes",
  "The tests have no such bmap files.",
  [BC], [("consistency of the counts", BC + " BmapCopy._parse_bmap"), ("image size set twice", BC + " BmapCopy._set_image_size"), ("range check", BC + " BmapCopy._get_block_ranges")], GATETECH, GATENOTE)
p("C12", "A bmap whose signature is bad or missing on demand is never used for copying",
  "Unless signature verification is turned off, a bmap that is clear signed, or has a detached signature (given explicitly or found next to it with the suffix .asc or .sig), is used only after every signature was verified to be good. The signature verified belongs to exactly the bmap that is used, and of a clear signed bmap only the signed text is used.",
  "inputs configurations fault_sequences", "all option combinations, bmaps, signatures and verification outcomes",
  "Signature tests need gpg keys and cover few combinations; they cannot show the absence of an unverified path.",
  [CL], [("verification", CL + " verify_bmap_signature"), ("clear signature", CL + " verify_clearsign_bmap_signature"), ("looking for detached signatures", CL + " verify_detached_bmap_signature")], CLITECH, CLINOTE)
p("C13", "The copy command copies exactly what its options say, or refuses them",
  "The image, the bmap and the destination of a copy are the ones given on the command line, a bmap is used unless --nobmap is given (the one given with --bmap, else one found by the name of the image), and without a bmap the copy does not start unless --nobmap is given. The checksums of the image data are verified unless --no-verify is given. Contradicting options (--bmap and --nobmap, --bmap-sig and --no-sig-verify, --bmap-sig without a bmap, --quiet and --debug) and an image that is its own bmap are refused before anything is copied.",
  "configurations inputs", "all option combinations and file names",
  "The tests hardly run the command line at all.",
  [CL], [("option rules", CL + " copy_command"), ("opening of the files", CL + " open_files"), ("finding the bmap", CL + " find_and_open_bmap")], CLITECH, CLINOTE)
p("C14", "The exit status is 0 exactly if the command did its work",
  "The copy and create commands exit with status 0 only if copying, or creating the bmap, and everything it involves ended without an error. Every failure, and an interruption by the user, ends with a status other than 0, both for the installed command and for running the package as a module.",
  "configurations fault_sequences", "all paths of both commands, all failures",
  "The tests check the library, not the exit status of the tool.",
  [CL, "bmaptools/__main__.py"], [("errors end the program", CL + " error_out"), ("exit status", CL + " main"), ("copy and create commands", CL + " copy_command, create_command")], CLITECH, CLINOTE)
p("C15", "A block device is opened exclusively and handled as a block device",
  "A destination that is a block device is opened exclusively for writing, without creating anything, so that a mounted or busy device is refused; it is then copied to with the handling for block devices. Any other destination is handled as a regular file. What is written to is the destination given on the command line.",
  "configurations fault_sequences", "all destinations and all failures of opening them",
  "The tests never use a block device.",
  [CL], [("exclusive opening", CL + " open_block_device"), ("choice of the kind of copy", CL + " copy_command")], CLITECH, CLINOTE)
p("C21", "What is read from a compressed image is its complete decompressed contents",
  "A file is decompressed with the method that belongs to its name extension and with arguments that make the program write the plain data to its output; tar archives are unpacked as well. All data of the file, in order and unmodified, is fed to the decompressor, and the data read is what the decompressor provides. A size is announced only for what is known to have it: an uncompressed file or URL.",
  "inputs configurations", "all supported file names and all data",
  "The tests try one small image per installed compressor.",
  [TR], [("choice of the decompressor", TR + " TransRead._open_compressed_file"), ("feeding thread", TR + " TransRead._read_thread"), ("announced size", TR + " TransRead.__init__")], TRANSTECH, TRANSNOTE)
p("C22", "No file name or URL is ever interpreted by the local shell",
  "Programs are started from argument lists or fixed command lines; nothing that comes from a file name, a URL or the data is ever given to a local shell. Every program is checked to be available before it is started, and the choice of the program depends on nothing but the name of the file.",
  "inputs", "all file names and URLs",
  "The tests use ordinary names only.",
  [TR, BH], [("starting of decompressors", TR + " TransRead._open_compressed_file"), ("ssh", TR + " TransRead._open_url_ssh"), ("availability test", BH + " program_is_available")], TRANSTECH, TRANSNOTE)
p("C23", "A decompressor or transfer that fails is never taken for the end of the image",
  "The end of the data is only reported when the program which provides the data (decompressor, ssh) was seen to have exited with success, when everything the server announced was received if the data comes from a URL, and when nothing failed in feeding the compressed data to the decompressor. The feeding of the decompressor always ends by closing its input, also if reading the compressed file fails, so that reading never hangs.",
  "fault_sequences schedules", "all exit statuses and all points of failure",
  "The tests only decompress intact files.",
  [TR], [("exit status checked at the end", TR + " TransRead._check_child_status"), ("feeding thread", TR + " TransRead._read_thread")], TRANSTECH, TRANSNOTE)
p("C24", "Reading, seeking forward and telling the position agree on the offset",
  "The position reported is the number of bytes of the decompressed data consumed so far. Seeking forward, absolute or relative, ends at exactly the requested position also when data arrives in small pieces, and the data read afterwards is the data from there on.",
  "inputs histories", "all sequences of reads and forward seeks, all sizes of the pieces",
  "The tests only read images through copying.",
  [TR], [("emulated seek", TR + " TransRead.seek, _fake_seek_forward"), ("position", TR + " TransRead.tell, TransRead.read")], TRANSTECH, TRANSNOTE)
p("C25", "Closing an image leaves no program running and no file open",
  "After closing an image every program that was started to read it has been ended and waited for, and the file or network connection it was read from is closed, wherever reading was stopped.",
  "histories fault_sequences", "all kinds of images and all points at which reading stops",
  "The tests do not look at processes or open files.",
  [TR], [("closing", TR + " TransRead.close, TransRead.__del__")], TRANSTECH, TRANSNOTE)
p("C31", "A bmap is used in full and from its beginning",
  "A bmap which comes from a URL is copied to a local temporary file which is complete, flushed and at its start when it is used, and every other bmap is read from its beginning. The file is not closed before the copy is finished.",
  "inputs configurations", "all kinds of bmap locations and options",
  "The tests only use local bmap files through the library.",
  [CL], [("temporary copy", CL + " open_files"), ("verification leaves the file at its start", CL + " verify_bmap_signature")], CLITECH, CLINOTE)
p("C33", "The create command writes the bmap of the given image to where it was told",
  "The create command creates the bmap of the image given on the command line, with checksums unless --no-checksum is given. With --output the bmap goes to a new file of exactly that name, otherwise all of it is printed.",
  "configurations fault_sequences", "all option combinations",
  "The tests use the library instead of the command.",
  [CL], [("create command", CL + " create_command")], CLITECH, CLINOTE)

CRNOTE = "All paths of the constructor and of generate() for any image (given as a path or as a file), any list of mapped ranges and any failure of an I/O call, with and without checksums; trusted: the models of hashlib, str formatting and file objects. The contents of the template and the places patched into it are followed as text."
FMNOTE = "All paths of the constructors and of the listing generators for any image and any answer of the kernel (any extents, any results of seeking), with loop invariants over the extents; trusted: the models of struct, array, fcntl.ioctl and os.lseek, whose answers are any that the kernel's interface allows."

p("C16", "A created bmap describes the image fully and consistently",
  "When a bmap was created without an error it is a well formed bmap: it carries the size of the image, the block size, the number of blocks and of mapped blocks, one Range element for exactly each mapped range of the image in order, and the checksum of the bmap file itself, computed over the finished file with the checksum field zeroed. The fields filled in afterwards fit into the room left for them and land in their own place. The bmap is flushed and the image file is left at the position it had. An empty image is refused, and no failure on the way ends in success.",
  "inputs fault_sequences", "all images, sizes, range lists and failures",
  "The tests create a few bmaps and read them back with the same library; a field that overflows its room, or a count wrong for a special layout, needs an image they do not have.",
  [CR], [("start of the bmap and room for the late fields", CR + " BmapCreate._bmap_file_start"), ("late fields and checksum of the file", CR + " BmapCreate._bmap_file_end"), ("ranges", CR + " BmapCreate.generate")], PATH + "; the text of the bmap is followed through the template, the positions remembered in it and the fields patched in", CRNOTE)
p("C17", "A created range checksum covers exactly the image data of its range",
  "Every Range element of a bmap that is created with checksums carries the checksum of the image data of exactly this range (up to the end of the image), computed with the type the bmap announces. A bmap created without checksums carries none. A failure of reading the image fails the creation.",
  "inputs histories fault_sequences", "all images, ranges, sizes of the pieces read and failures",
  "A wrong chunk or a range cut short only shows for particular range lengths; tests verify a few random images.",
  [CR], [("checksum of a range", CR + " BmapCreate._calculate_chksum"), ("checksum attribute", CR + " BmapCreate.generate")], PATH + "; accumulated spans of the image in every digest", CRNOTE)
p("C18", "The map of an image is only taken after its data has reached the file system",
  "Before an image is asked for its mapped blocks, all its data has been flushed and synchronized (and the map requested with the flag that synchronizes it), so that no data still in memory is taken for a hole. An image on a file system whose maps cannot be trusted is refused: ZFS is recognized from the resolved path of the image and accepted only with the module parameter that makes its maps reliable. The block size is the one of the image's file system.",
  "crash_points histories configurations", "all images, all paths to asking for the map, all file systems and parameter values, all failures",
  "Whether data was still only in memory depends on timing; the tests run on one file system and never on ZFS with bad parameters.",
  [FM, BH], [("synchronization", FM + " _FilemapBase.__init__, FilemapFiemap._invoke_fiemap"), ("file system check", BH + " is_compatible_file_system, is_zfs_configuration_compatible"), ("block size", BH + " get_block_size")], PATH, FMNOTE)
p("C19", "The mapped and unmapped ranges listed are exactly those of the file",
  "For any area of the image, the ranges listed as mapped are, in order and without overlap, exactly the blocks of the area for which the kernel reports data, and the ranges listed as unmapped are exactly the others; nothing is listed twice, beyond the area, or left out, whatever the number and the order of the extents. Asking for a single block gives the same answer.",
  "inputs histories", "all images, areas and answers of the kernel, any number of extents",
  "Lost extents show at buffer boundaries, at the end of the area, or with units smaller than a block; the tests cannot produce these layouts at will.",
  [FM], [("listing with FIEMAP", FM + " FilemapFiemap._do_get_mapped_ranges, get_unmapped_ranges"), ("listing by seeking", FM + " FilemapSeek._get_ranges"), ("request and answer", FM + " FilemapFiemap._invoke_fiemap, _unpack_fiemap_extent")], PATH + "; inductive invariants relating the area listed so far to the kernel's answers", FMNOTE)
p("C20", "A method the kernel cannot offer is noticed and the other one is used",
  "Where the kernel, file system or operating system does not support a way of asking for the mapped blocks, this is reported as 'not supported', and exactly then the other method is tried; a kernel with only a stub of the seeking interface is detected. Every other error is an error. No answer of a method that is not supported is ever taken for a map.",
  "configurations fault_sequences", "all errors of the system calls, for both methods",
  "The sandbox's or developer's kernel supports both methods, so that the tests never take these paths.",
  [FM], [("choice of the method", FM + " filemap"), ("FIEMAP support", FM + " FilemapFiemap._invoke_fiemap"), ("probe for seeking", FM + " FilemapSeek._probe_seek_hole")], PATH, FMNOTE)
p("C26", "Reporting progress to psplash never disturbs or blocks the copy",
  "A path given for psplash is used only if it is a named pipe, and is opened so that a missing or stuck reader cannot block and nothing is created. Whatever fails while looking at, opening, writing or closing the pipe, the copy goes on. With the amount of data known, every write is followed by an attempt to tell psplash the percentage of the mapped blocks written so far, in the form of its PROGRESS command.",
  "fault_sequences schedules", "all failures of every operation on the pipe, at every point of the copy",
  "The tests never use a psplash pipe, and the races with psplash ending or not yet being started cannot be sampled.",
  [BC], [("check of the pipe", BC + " BmapCopy.set_psplash_pipe"), ("progress", BC + " BmapCopy._update_progress")], COPYTECH + "; exceptions of the pipe are tracked to where they end", COPYNOTE)
p("C27", "The reading and the copying thread share nothing but the queue",
  "While a copy runs, only the copying thread uses the destination file and only the reader thread uses the image. No attribute modified by one of the threads is used by the other before the reader has announced its end; data, errors and the end of the data are handed over by the queue alone.",
  "schedules", "all interleavings of the two threads",
  "A race needs a particular interleaving; the tests only see a few schedules.",
  [BC], [("reader thread", BC + " BmapCopy._get_data"), ("copying thread", BC + " BmapCopy.copy"), ("bounded queue", BC + " BmapCopy._batch_queue")], "static effect analysis: every access of either thread to the files and to the attributes of shared objects, with the ordering the queue gives (may-happen-in-parallel)", COPYNOTE + " Shared mutable containers are followed through the attributes holding them only.")
p("C28", "No operation modifies the image, the bmap or the signature it reads",
  "Image, bmap and signature files (unless one of them is named as the destination or output) are opened for reading only and are never written to, truncated, renamed, removed or mapped for shared writing, neither by copying, nor by creating a bmap or listing mapped blocks.",
  "inputs fault_sequences", "all paths of copying, creating and listing",
  "The tests do not compare their inputs afterwards, and an accidental modification may need an error path.",
  [BC, TR, CR, FM, CL, CW], [("opening of images", TR + " TransRead.__init__"), ("image of a new bmap", CR + " BmapCreate._open_image_file"), ("checksum of the bmap over a private map", BC + " BmapCopy._verify_bmap_checksum")], "static effect analysis on every path: opening modes and all modifying operations on the objects and paths of the inputs", "Covers the operations the models know (file methods, os and shutil functions, mmap); an operation without a model ends the analysis with an error instead of a verdict.")
p("C29", "Every path, error paths included, uses names and messages that exist",
  "No path of the copy, create and listing operations fails for a reason of its own: every name, attribute, method and parameter used exists when it is used, every local variable used has been assigned, and every message can be composed from its arguments. In particular an error is reported with its own message and never hidden behind a NameError, AttributeError or TypeError of the error handling.",
  "inputs fault_sequences configurations", "all paths, in particular all error paths",
  "Error paths are the ones tests do not take.",
  [BC, TR, CR, FM, CL, BH], [("errors of the library", BC + " Error"), ("messages", CL + " error_out")], PATH + "; binding of every name, attribute, argument list and format", "Attributes of objects of the standard library and of opaque values are only checked where the library module itself is named. Covers all paths the analyses reach.")
p("C32", "The standalone bmap writer copies every mapped range or fails",
  "contrib/bmap_write.py ends with exit status 0 only if it has written all blocks of every range of the bmap, read from the same offset of the image, to their own offset of the output, the output has the size of the image, and the data has been flushed and synchronized. Ranges of one block ('5') and of several ('3-7', with or without spaces) are understood, and any failure ends with a status other than 0.",
  "inputs fault_sequences", "all bmaps, images and failures",
  "The script has no tests.",
  [CW], [("main loop", CW + " module body")], PATH, "All paths of the script for any bmap, per spelling of the ranges, with any failure of an I/O call. Like the script itself it assumes a bmap with block checksums is not verified.")

def na(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech)
    NA.append(dict(property=id, reason=reason))


na("C40", "Creating a bmap and copying with it reproduces the image byte for byte",
   "For every sparse image, a copy made with the bmap created from it is identical to the image, on a file system on which the map can be trusted.",
   "inputs histories", "all images", "Tests sample a few random sparse files.",
   [BC, CR, FM], [("creation", CR + " BmapCreate.generate"), ("copying", BC + " BmapCopy.copy")],
   "Equality of bytes on the disk depends on what the kernel reports as holes and returns when they are read, which no source analysis can bound. The parts that depend on the source are C02, C03, C05, C16, C17 and C19.")
na("C41", "Both ways of listing mapped blocks agree on every file",
   "For every file on a file system supporting both, listing by FIEMAP and by SEEK_HOLE give maps that contain all data.",
   "inputs", "all files", "Tests compare them for random files on one file system.",
   [FM], [("FIEMAP", FM + " FilemapFiemap"), ("seeking", FM + " FilemapSeek")],
   "What the two kernel interfaces answer for one file is a property of the kernel and its file systems. That each listing follows its own interface exactly is C19.")
na("C42", "The data read from a compressed image equals what was compressed",
   "For every image and supported compression, reading the compressed file gives the original data.",
   "inputs", "all data and compressors", "Tests compress one small image with the programs installed.",
   [TR], [("decompressors", TR + " TransRead._open_compressed_file")],
   "This depends on the external decompression programs, whose code is not in the repository. That the right one is started, fed everything, and its failure noticed are C21 and C23.")
na("C43", "Copying with a bmap is never slower than copying the whole image",
   "Copying with a bmap needs time proportional to the mapped data and keeps only a bounded number of batches in memory.",
   "inputs configurations", "all images and devices", "Tests measure nothing.",
   [BC], [("bounded queue", BC + " BmapCopy._batch_queue"), ("batches", BC + " BmapCopy._get_batches")],
   "Run time and memory are quantities of the run, the device and the kernel's caches, which no static argument in reach bounds.")
na("C44", "An interrupted network transfer ends with an error in bounded time",
   "Reading an image from a URL whose server stalls or disappears ends with an error after a bounded time.",
   "fault_sequences schedules", "all behaviours of servers", "Tests have no network.",
   [TR], [("opening of URLs", TR + " TransRead._open_url")],
   "Bounded waiting depends on the timeouts of the operating system, the ssh client and the libraries (the source sets a timeout for opening only); there is no source construct to decide this by.")

# MORE

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            f.write(json.dumps(d) + "\n")
    checks = []
    na = list(NA)
    for d, tech, note in P:
        if d["id"] in PROPERTIES:
            c = dict(property=d["id"], quick_cmd="./check " + d["id"], thorough_cmd="./check %s --thorough" % d["id"],
                     technique=tech, level="other", level_note=note)
            checks.append(c)
        elif not any(x["property"] == d["id"] for x in na):
            na.append(dict(property=d["id"], reason="no check yet"))
    m = dict(version=1, setup_cmd="python3 -m compileall -q bsa", checks=checks, not_applicable=na,
             notes="Static analysis only: the checks interpret the byte code compiled from /repo's current source abstractly and never execute it. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")
