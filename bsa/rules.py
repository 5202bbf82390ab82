"""What each check demands of every path (goes into the evidence)."""

HOW = "Abstract interpretation of the byte code compiled from the current source; every path is followed with symbolic values, loops by inductive invariants, every modelled library call by its normal and its failing outcomes. "

RULES = {
    "C01": "At every normal return of copy() with verification on, each range whose checksum is recorded had a digest, begun for this range alone and fed with exactly the batches read for it, compared equal to the recorded text; the command passes 'verify' unless --no-verify is given.",
    "C02": "The blocks put on the queue for a range, and the ranges taken from the bmap, leave no block of the range and no Range element out (cursor typestate in the reader); at normal return the number of blocks written equals the announced number, and without a bmap all data up to the announced size or the end of the image was read. The tool hands over a buffered destination file.",
    "C03": "The provenance of every buffer written to the destination is a span of the image; the destination offset at the write equals the image offset of the span, for every batch.",
    "C04": "No exceptional outcome of a read, seek, write, flush, truncate or synchronization, in either thread, and no message of the reader announcing an error, is followed by a normal return of copy(); no wait for the queue can last forever and the reader always ends with an end message.",
    "C05": "At normal return with a regular file as destination, the last size-changing call set its size to the image size, no write after it lies beyond, and the size is the announced one, the one of the bmap or the number of bytes copied.",
    "C06": "On every path to a normal return of copy(sync=True), and to a successful end of the command, the destination was flushed and then synchronized after the last write; failure of it is a failure.",
    "C07": "For each setting written, every exit of BmapBdevCopy.copy(), normal or exceptional (KeyboardInterrupt included), has written back the value which was current before; settings that cannot be read or changed do not end the copy.",
    "C08": "On every path of the constructor that ends normally with a known image size there is a comparison of the capacity of the device with that size which excludes 'larger', and equality is not refused; nothing is written before.",
    "C09": "A constructor that ends normally for a version with file checksums compared the digest of the whole file, with exactly the checksum's own characters replaced by '0' and with the hash named by the file, to the recorded text; the destination is not written before.",
    "C10": "Per format version: accepted or refused as the version demands; sizes and counts come from the elements, hash and attribute names from the version; with missing or non-numeric elements every path ends in the library's Error, never in an internal exception.",
    "C11": "A constructor that ends normally has established BlocksCount = ceil(ImageSize / BlockSize) and announced size = ImageSize; no range with first > last reaches the copying.",
    "C12": "At the start of the copy, unless --no-sig-verify was given, every signature of the result for this very bmap was seen to be valid on this path; every place a detached signature may be was looked at before a bmap is used without one; of a clear signed bmap only the verified text is used.",
    "C13": "At the start of the copy the combination of options established on the path is allowed, and image, bmap, destination, announced size and verification derive from the arguments given for them.",
    "C14": "Every path of main() and of the module entry point that ends with status 0 contains a successful copy and synchronization, or creation; every path that failed ends with a status other than 0.",
    "C15": "A destination tested to be a block device is written through a descriptor opened O_WRONLY|O_EXCL without O_CREAT and by the block device class; any other through the regular one; no path skips the test.",
    "C16": "The text of the bmap (template, late fields, patched positions) is followed symbolically: each field appears once with its value, late fields fit into their room and land there, each mapped range listed yields one Range element, the checksum covers the finished text; flushed, image position restored.",
    "C17": "For every Range element with a checksum, the digest consumed exactly the span first*block .. min((last+1)*block, image size) of the image, with the announced type; without checksums there is no attribute; failed reads are failures.",
    "C18": "Every path to a request for the map of an image passes a flush followed by a synchronization and the file system test; the FIEMAP request carries the sync flag; ZFS is recognised in df's answer for the resolved path and accepted only with parameter 1; the block size comes from the image's file.",
    "C19": "The ranges yielded, as a sequence over an arbitrary list of extents or answers of seeking, cover exactly the blocks of the area reported (or not reported) as data: cursor invariants at every yield and at the end.",
    "C20": "EOPNOTSUPP, ENOTTY, EINVAL and stubs become 'not supported' and lead to the other method; other errors do not; no map object exists without a probe that excluded the stub.",
    "C21": "The program started for each name extension, its arguments, its standard input and output, and the chain of files are those of the method of the extension; the feeding thread writes each buffer read, unmodified and in order; 'size' is set only for plain local files.",
    "C22": "No string that depends on a name, URL or data reaches a call that starts a shell; each program started was tested to be available on the path; tests on the name alone choose the program.",
    "C23": "Every empty (final) result of read() is preceded on its path by a successful exit status of the providing child, by the test that nothing announced by the server is missing, and by the test for failures of the feeding thread; the feeding thread closes the decompressor's input on every exit.",
    "C24": "tell() equals the number of bytes consumed, and after a forward seek the bytes consumed equal the target, with arbitrarily short reads.",
    "C25": "After close() each process started has been waited for, the feeding thread joined, each file and connection closed, from every state reading may be left in.",
    "C26": "Every open of the psplash path is non-blocking, creates nothing and is dominated by the test for a named pipe; no failing outcome of a pipe operation leaves the progress function; every write is followed by an attempt to send 'PROGRESS n' with n the percentage of the mapped blocks.",
    "C27": "No attribute written by one thread is read or written by the other between the start of the reader and the receipt of its end message; image and destination are used by one thread each.",
    "C28": "No operation which writes, truncates, renames, removes or shares a mapping for writing is applied to an object or path that derives from the image, bmap or signature; they are opened for reading.",
    "C29": "No path contains an access to an undefined name, attribute, method or parameter, to an unassigned local, or a message whose arguments do not match its format.",
    "C31": "The bmap object used at the start of the copy is a plain local file at its beginning, or a temporary file which received everything, was flushed and rewound; it is open until the copy ended.",
    "C32": "At exit status 0 of the script every Range element was parsed into its block numbers, its blocks written from the same offset of the image, the size set, the output flushed and synchronized; failures end with another status.",
    "C33": "On every successful path of 'create' the bmap was generated for the image given, with checksums unless --no-checksum, into a new file of the name given with --output, or is printed as a whole.",
}


def rule(pid):
    return HOW + RULES[pid]
