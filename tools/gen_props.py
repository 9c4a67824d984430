#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that ids, anchors and wording stay in one place).
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOBUILD = "No test that builds here touches this code (only zigzag's four fixed matrices run). "
p("C01", "Victini compression is lossless for every byte string",
  "For every byte string, compressing it with the Victini codec and decompressing the resulting blob returns exactly the original bytes and reports the original length, whatever saved model state (none, fresh, or trained on other data) accompanies the blob, as long as the same state is supplied on both sides. Compressing leaves a supplied non-empty model state unchanged (an empty one is filled in) and yields a self-consistent blob (size, original size, header and algorithm state agree with its data), so several blobs may share one state. When the codec decides a blob is not worth compressing it says so and leaves the caller's data intact.",
  ["inputs", "histories"], "all byte strings (empty included), all model states the trainer can produce, any order of compress/train/decompress on one codec object",
  NOBUILD + "A round-trip over a handful of files cannot exercise frequency renormalisation, block boundaries and rare symbol statistics.",
  ["src/hzip_codec/victini/victini.cpp", "src/hzip_core/kernel/hzrans/", "src/hzip_core/preprocessor/burrows_wheeler.h", "src/hzip_core/blob/blob.cpp"],
  [("BWT + MTF + order-k contexts + 64-bit rANS", "src/hzip_codec/victini/victini.cpp"), ("model state (de)serialisation", "src/hzip_codec/victini/victini.cpp")])
p("C02", "Entropy coder: decoding inverts encoding; frequency tables stay valid",
  "For every symbol sequence and every sequence of symbol distributions, decoding the coder's output with the same distributions yields the encoded symbols, consuming exactly what was produced. Every frequency table the coder derives from raw counts gives each symbol at least one slot, sums exactly to the table's power-of-two total, has matching cumulative values, and the slot-to-symbol search inverts it. (Counts are bounded so that (count+1) times the total fits 64 bits, the alphabet is no larger than the total, and the scale is at most 31 bits.)",
  ["inputs"], "all count vectors and alphabet sizes the coder accepts, all scales, all symbol sequences",
  NOBUILD + "Renormalisation rounding and flush boundaries depend on exact counts and lengths that samples miss.",
  ["src/hzip_core/kernel/hzrans/hzrans64.cpp", "src/hzip_core/kernel/hzrans/hzrans64_codec.cpp"],
  [("hzrans64_create_ftable_nf / add_to_seq", "src/hzip_core/kernel/hzrans/hzrans64.cpp"), ("encode/decode primitives", "src/hzip_core/kernel/hzrans/hzrans64_codec.cpp")])
p("C03", "Burrows-Wheeler transform is exact and reversible",
  "For every symbol array over the declared alphabet, the forward block-sorting transform outputs the symbols preceding each suffix in sorted suffix order (end of input sorting first; a permutation of the input) together with the position at which the start of the input falls, from which the inverse transform reproduces the original array exactly. This holds for empty, repetitive, periodic, all-equal and length-one inputs and for every supported symbol width and alphabet size that leaves room for one more symbol value.",
  ["inputs"], "all arrays over every symbol type supported, including periodic and degenerate ones",
  NOBUILD + "Suffix-sorting errors show only on particular repetition structures.",
  ["src/hzip_core/preprocessor/burrows_wheeler.h"], [("skew (DC3) suffix array construction and inverse walk", "src/hzip_core/preprocessor/burrows_wheeler.h")])
p("C04", "Move-to-front transform is exact and reversible",
  "For every array over an alphabet, the forward move-to-front transform yields each symbol's rank in the recency list (so an immediately repeated symbol is coded as zero) and the inverse transform of that output is the original array, each starting from the same initial alphabet order.",
  ["inputs"], "all arrays, alphabets and symbol types, empty and one-element arrays included",
  NOBUILD + "Rank bookkeeping must hold after any history of symbols.",
  ["src/hzip_core/preprocessor/move_to_front.h"], [("recency list", "src/hzip_core/preprocessor/move_to_front.h")])
p("C05", "Delta filter is reversible and computes successive differences",
  "For every array of 32-bit integers and every length (zero included), the forward delta filter replaces each element after the first by its difference from its predecessor, the inverse filter applied to the result restores the original array exactly, and neither touches anything outside the array. Differences wrap around in two's complement; no value or length crashes.",
  ["inputs"], "all int32 arrays including extreme values, length 0 and 1",
  "delta.cpp is compiled by the tests but never called by them; the property quantifies over all arrays.",
  ["src/hzip_core/preprocessor/delta.cpp"], [("in-place differences", "src/hzip_core/preprocessor/delta.cpp")])
p("C06", "Zig-zag traversal visits every matrix cell exactly once, in JPEG order",
  "For every matrix width and height (zero included), iterating the zig-zag view yields every cell exactly once, in the JPEG anti-diagonal order starting at the top-left corner and going right first, and ends after exactly width times height steps. Prefix and postfix increment follow the usual iterator conventions (advance and give the new position; advance and give the old one), and the coordinates an iterator reports are those of its current cell.",
  ["inputs"], "all widths, heights and element types, any mix of pre/post increment",
  "The four existing tests check four fixed matrices only; non-square, single-row/column and empty matrices and the iterator contract are not covered.",
  ["src/hzip_core/preprocessor/zigzag.h"], [("diagonal walk with direction flips at borders", "src/hzip_core/preprocessor/zigzag.h")])
p("C07", "Reversible colour transforms are lossless on every path",
  "For every image and every supported bit depth, converting RGB(A) to the decorrelated colour space and back returns every sample unchanged, intermediate samples stay in the documented range, and the alpha channel passes through unchanged, in place and out of place. Colour spaces that are not implemented are refused. The CPU path and the OpenCL path, and the in-place and out-of-place variants, produce identical results, and choosing a path never depends on anything but the runtime configuration.",
  ["inputs", "configurations"], "all plane sizes, all sample values at each bit depth, OpenCL on or off",
  NOBUILD + "Losslessness must hold for every sample triple; OpenCL needs a device.",
  ["src/hzip_core/preprocessor/color.cpp", "src/hzip_core/preprocessor/color.h"], [("lifting steps", "src/hzip_core/preprocessor/color.cpp")])
p("C08", "Paeth residual filter is reversible and identical on every path",
  "For every image plane stack and bit depth, the image filter's residuals are the wrapped differences between each sample and its prediction (whichever of left, upper, upper-left is nearest to |left + upper - upper-left|, ties in that order; missing neighbours count as zero), so the image can be reconstructed exactly. The generic predictor follows the standard signed Paeth rule (ties: upper, left, upper-left). The CPU, OpenCL, in-place and out-of-place variants give identical results.",
  ["inputs", "configurations"], "all widths, heights, plane counts and sample values for 8- and 16-bit images, OpenCL on or off",
  NOBUILD + "Border handling and wrap-around depend on dimensions and values.",
  ["src/hzip_core/models/paeth.cpp", "src/hzip_core/models/paeth.h"], [("predictor selection and modular residual", "src/hzip_core/models/paeth.cpp")])
p("C09", "PNG reader returns libpng's pixels or rejects the image safely",
  "For every well-formed PNG of any colour type, bit depth, interlacing and size, the image reader reports the true width, height, channel count and depth and exactly the samples a direct libpng decode yields. Any byte string whose image data libpng cannot decode (truncated, corrupted or not a PNG) is rejected by an exception, never reading or writing outside the buffers, never crashing and leaving no memory behind; what follows the image data does not matter.",
  ["inputs"], "all PNG files and all byte strings",
  NOBUILD + "Malformed and unusual images form an unbounded input space.",
  ["src/hzip_core/preprocessor/png_bundle.cpp", "src/hzip_core/preprocessor/png_bundle.h"], [("libpng read callbacks over a memory buffer", "src/hzip_core/preprocessor/png_bundle.cpp")])
p("C10", "Sharingan image streams describe the image losslessly",
  "For every PNG image the Sharingan image encoder accepts (any colour type and bit depth, any non-zero chunk size), the pixel stream it emits can be decoded, given the stream's own tables and options, back to exactly the image's pixels, consuming the stream exactly. The CPU and OpenCL paths produce the same stream, and encoding on one object any number of times gives the same result.",
  ["inputs", "configurations"], "all images in supported formats, with and without an OpenCL device",
  NOBUILD + "Losslessness must hold for every image.",
  ["src/hzip_codec/sharingan/sharingan.cpp", "src/hzip_codec/sharingan/state_transition.cpp"], [("colour transform, Paeth residuals, state-transition recoding and rANS", "src/hzip_codec/sharingan/")])
p("C11", "JPEG coefficient reader matches libjpeg and never corrupts memory",
  "For every baseline or progressive JPEG, the coefficient reader reports the image's true dimensions and component layout and exactly the quantised DCT coefficients libjpeg decodes; bytes that are not a JPEG are rejected without a crash. Writing the coefficients back produces a JPEG with the same dimensions, component layout, quantisation tables and coefficients. (Layouts that only fit several scans are not required to be written.)",
  ["inputs"], "all JPEG images (any size, sampling, quality) and all byte strings",
  "The header compiles in the test build but nothing calls it.",
  ["src/hzip_core/preprocessor/jpeg_codec.h"], [("libjpeg coefficient arrays copied to matrices", "src/hzip_core/preprocessor/jpeg_codec.h")])
p("C12", "An open archive behaves like a map from paths to blobs",
  "After any sequence of operations on an open archive, reading a file returns exactly the blobs (data, original size, header and algorithm state) last stored under that path, existence checks are right (true for files and non-empty directories), and removed files are gone while all others are unaffected. Storing, removing and re-storing files and states of any sizes, so that freed space is reused and split, never alters any other entry.",
  ["histories", "inputs"], "all sequences of create/read/remove/install/uninstall/inject with arbitrary sizes, headers and paths",
  NOBUILD + "Space reuse defects appear only after specific histories of removals and allocations of specific sizes.",
  ["src/hzip_storage/archive/archive.cpp", "src/hzip_storage/archive/archive_trie.h"], [("best-fit fragment reuse", "src/hzip_storage/archive/archive.cpp"), ("in-memory metadata maps", "src/hzip_storage/archive/archive.h")])
p("C13", "Closing and reopening an archive preserves everything and stays well-formed",
  "After any history and an orderly close, reopening and loading the archive yields exactly the same files, algorithm states and listings, and further operations behave as if it had never been closed. The file on disk is always a gap-free sequence of non-overlapping records ending in the end marker, with the format version first, in which every live entry appears exactly once and every removed entry appears as reusable space; re-storing what was just removed does not grow the file.",
  ["histories", "inputs"], "all operation histories with any number of close/reopen points",
  NOBUILD + "Layout errors surface only after reopen following particular reuse histories.",
  ["src/hzip_storage/archive/archive.cpp"], [("record scan on load", "src/hzip_storage/archive/archive.cpp"), ("end-of-file accounting and end marker on close", "src/hzip_storage/archive/archive.cpp")])
p("C14", "An algorithm state in use is never destroyed",
  "An algorithm state that any stored blob depends on can be neither uninstalled nor lost: attempts are refused and the blob stays readable, also after closing and reopening the archive. A named (installed) state survives the removal of every file that used it, and an anonymous state's space is released when its last dependent blob is removed.",
  ["histories"], "all histories of install/inject/create/remove/uninstall with shared states, across reopen",
  NOBUILD + "Reference counting is a property of whole histories including reopen.",
  ["src/hzip_storage/archive/archive.cpp"], [("dependency counter and named-state set", "src/hzip_storage/archive/archive.cpp")])
p("C15", "A rejected archive operation changes nothing and leaves the archive usable",
  "Any archive operation that is refused (unknown or existing path, directory used as a file, name nested under an existing file, malformed path, unknown blob or state, missing state for a new blob) throws an exception, leaves contents and listings exactly as before, now and after reopen, and leaves the archive usable by every later operation. This includes refused opens (a directory, a missing parent, an unsupported version: the file is untouched and the lock is released on close), and changing operations on an archive after it was closed; closing it once more has no effect. No failing operation blocks any thread forever.",
  ["histories", "fault_sequences"], "all histories mixing valid operations with every kind of invalid one",
  NOBUILD + "Error paths interact with the state built by the preceding history.",
  ["src/hzip_storage/archive/archive.cpp", "src/hzip_core/utils/validation.h", "src/hzip_storage/archive/archive_trie.h"], [("checks before mutation, mutex release on throw", "src/hzip_storage/archive/archive.cpp")])
p("C16", "Archive namespace: path lookup and directory listing are exact",
  "For every history of insertions and removals of slash-separated paths, a path is present exactly if it was inserted and not removed, a lookup returns the value stored, and listing a directory returns exactly its immediate children, each once, by name with the right file or directory kind. Directories exist exactly while something lies beneath them; inserting below an existing file or over an existing directory, and inserting or erasing the root, is refused without effect; erasing a directory removes everything beneath it.",
  ["histories"], "all insert/erase/list sequences over arbitrary path sets",
  NOBUILD + "Trie pruning on removal depends on sibling structure.",
  ["src/hzip_storage/archive/archive_trie.h"], [("component trie with pruning", "src/hzip_storage/archive/archive_trie.h")])
p("C17", "One archive object is safe to use from many threads; one opener at a time",
  "When several threads use one archive object at once, under every interleaving each operation takes effect atomically, the final contents equal some sequential order of the operations, no blob is lost or mixed up, and no thread blocks forever. Opening an archive that is already open waits until the holder closes it, so two openers never write at once (every alias of its path counts as the same archive), and closing admits exactly one waiter.",
  ["schedules", "histories"], "all interleavings of 2 to 4 threads' operation sequences at synchronisation and I/O points",
  NOBUILD + "Requires exploring schedules; no concurrent test exists.",
  ["src/hzip_storage/archive/archive.cpp"], [("per-object mutex", "src/hzip_storage/archive/archive.cpp"), ("named semaphore keyed by archive path", "src/hzip_storage/archive/archive.cpp")])
p("C18", "Files stored through the processor come back byte for byte",
  "For any data, block split, algorithm choice among those that can decode, and model-state choice (none, fresh, named), encoding through the job processor and storing in an archive, then decoding (also after reopening) returns exactly the original bytes, and data that does not shrink is stored uncompressed. A state of another algorithm or an empty one is refused or gives exact results, never a blob that cannot be decoded. Training a named state makes it available for later encodes and never loses the previous state when training fails.",
  ["inputs", "histories", "configurations"], "all data, codecs, state modes and archive histories, with 1 or more worker threads",
  NOBUILD + "End-to-end losslessness is over all inputs and state histories.",
  ["src/hzip_codec/processor/processor.cpp", "src/hzip_codec/codec_provider.cpp", "src/hzip_codec/uncompressed/uncompressed.cpp"], [("job dispatch and codec selection", "src/hzip_codec/processor/processor.cpp")])
p("C19", "Processor runs every job once, within its thread limit, under any schedule",
  "For every set of submitted jobs and every thread schedule, each job runs exactly once with its own input, exactly one of its success or error notifications fires exactly once, the number of jobs running at once never exceeds the configured thread count, and the throttling call returns exactly when a slot is free (never while all are taken, and always eventually). A job that fails does not affect others nor consume capacity.",
  ["schedules", "fault_sequences"], "all schedules of up to tens of jobs, with failing jobs and nested submission from callbacks",
  NOBUILD + "Needs control of the schedule.",
  ["src/hzip_codec/processor/processor.cpp", "src/hzip_codec/processor/job.h", "src/hzip_core/utils/semaphore.cpp"], [("semaphore-limited worker threads", "src/hzip_codec/processor/processor.cpp")])
p("C20", "Counting semaphore: never over-admits, never loses a wakeup",
  "Under every interleaving of acquire and release calls from any number of threads, the number of acquisitions that have completed never exceeds the initial count plus the releases made, and whenever permits are available some waiting thread proceeds, so no thread waits forever while permits remain.",
  ["schedules"], "all schedules of 2 to 6 threads and initial counts, including spurious wake-ups",
  "The file is compiled by the tests but never executed; schedules cannot be sampled by unit tests.",
  ["src/hzip_core/utils/semaphore.cpp", "src/hzip_core/utils/semaphore.h"], [("mutex and condition variable", "src/hzip_core/utils/semaphore.cpp")])
p("C21", "Socket layer transfers messages intact however the stream is split",
  "For every message sequence and every way the transport fragments or coalesces it, integers and byte blocks sent over the connection arrive unchanged, complete and in order at the peer, with control bytes and error messages where the protocol puts them. If the peer closes, resets or times out before a message is complete, the receiver or sender gets an exception rather than partial or invented data.",
  ["inputs", "fault_sequences"], "all message sequences, fragmentations and points of connection failure",
  "socket_class.cpp is compiled by the tests but never executed; fragmentation and failure points are unbounded.",
  ["src/hzip_network/api/handlers/socket_class.cpp", "src/hzip_network/api/handlers/socket_class.h"], [("send/recv wrappers with MSG_WAITALL", "src/hzip_network/api/handlers/socket_class.cpp")])
p("C22", "Only clients that answer the token challenge get a session",
  "Every connection gets a fresh token challenge and becomes a session only if the client answers with the token as decrypted by the configured password (or by one the token cipher cannot tell from it); any other byte sequence is refused, disconnected, and has no effect on any archive. With a correct answer the session is always granted, also when as many clients as there are slots come at the same moment. A refused, aborted, stalled or misbehaving client never blocks later clients nor consumes capacity once it is gone (or timed out, if a timeout is configured), and no more sessions than configured are served at once.",
  ["inputs", "fault_sequences"], "all handshake byte streams, passwords and disconnect points",
  NOBUILD + "Authentication must hold for every byte stream.",
  ["src/hzip_network/api/api.cpp"], [("token and challenge comparison", "src/hzip_network/api/api.cpp")])
p("C23", "Remote API: what a client stores is what any client reads back",
  "Over any sequence of API sessions, data stored through encode commands is returned byte for byte by the matching decode commands, and query and state commands report exactly what is stored, agreeing with the archive opened directly. A command that succeeds takes full effect; a command that fails reports failure and has no effect.",
  ["histories", "inputs"], "all sequences of valid API commands over several sessions, archives and algorithms",
  NOBUILD + "The protocol has never been driven by a test.",
  ["src/hzip_network/api/handlers/streamer.cpp", "src/hzip_network/api/handlers/query.cpp", "src/hzip_network/api/api.cpp"], [("command loops, archive provider", "src/hzip_network/api/handlers/")])
p("C24", "Malformed or aborted API traffic is contained",
  "A command that is unknown, malformed, refers to missing things, or whose connection is cut at any point produces an error reply, after which the session takes the next command, or a closed session: never a crash, hang, leaked session slot, locked archive, memory kept for good, or change to data the client did not complete. This includes blobs and algorithm states sent for decoding that no encoder produced. Other and later sessions continue to work and see intact archives.",
  ["inputs", "fault_sequences"], "all command byte streams and all cut points",
  NOBUILD + "Fault points multiply with protocol states.",
  ["src/hzip_network/api/api.cpp", "src/hzip_network/api/handlers/streamer.cpp", "src/hzip_network/api/handlers/query.cpp"], [("exception to error-code mapping", "src/hzip_network/api/")])
p("C25", "Path validation accepts exactly well-formed archive paths",
  "A path string is accepted exactly if it starts with a forward slash and contains no null byte, no backslash, no space and no two adjacent forward slashes; every other string (the empty one included) is rejected with an exception that can be caught as a standard exception. The verdict depends only on the string, however long it is.",
  ["inputs"], "all byte strings",
  "validation.h is compiled by the tests but never called.",
  ["src/hzip_core/utils/validation.h"], [("path grammar check", "src/hzip_core/utils/validation.h")])
p("C26", "Bit-level and integer encodings are exact inverses",
  "Every integer and vector encoding helper (unary, Elias-gamma, fixed-width big-endian integers, vector packing, word packing) decodes to exactly the value encoded, for every value in its range and whatever surrounds it in the bit stream, and encoded lengths are as defined. Codec parameter maps survive serialisation unchanged, the keyed token transform is its own inverse under every password, and the digest helper is lower-case hexadecimal SHA-512.",
  ["inputs"], "all values in range, all sequences of mixed encodings, all strings",
  NOBUILD + "Ranges are too large to sample by hand; boundaries (powers of two, zero, maxima) matter.",
  ["src/hzip_core/utils/utils.h", "src/hzip_core/utils/common.h"], [("encoding helpers", "src/hzip_core/utils/utils.h")])
p("C27", "Segmented stack is a LIFO for any history",
  "For any sequence of pushes and pops, each pop returns the most recently pushed unpopped value, the reported size is the number of values held, and popping an empty stack leaves it empty and usable. This holds across any number of internal segment boundaries in both directions.",
  ["histories"], "all push/pop histories, in particular those oscillating around segment boundaries and through empty",
  NOBUILD + "Segments hold tens of thousands of values, so boundaries need long histories.",
  ["src/hzip_core/utils/stack.h"], [("linked fixed-size segments", "src/hzip_core/utils/stack.h")])
p("C28", "Runtime configuration and cache provider follow their settings",
  "For every combination of settings, configuring the runtime applies exactly the requested API thread count, port, timeout and password, processor thread count, memory limit, cache file, cache count and page size (which count only where a cache file is named), OpenCL kernel limit and device pattern, with their defaults for those unset; text that is not a number where one is due is reported by an exception. OpenCL support ends up enabled exactly if a device is left, and asking for a device pattern when there is no device is refused as an invalid operation. The cache provider hands out the configured caches in round-robin order, also after re-initialisation with a different number.",
  ["configurations", "histories"], "all environment combinations and init/get histories",
  "config.h is compiled by the tests but no behaviour is checked.",
  ["src/hzip_core/runtime/config.cpp", "src/hzip_core/runtime/cache_provider.cpp", "src/hzip_core/runtime/config.h"], [("environment parsing", "src/hzip_core/runtime/config.cpp")])
p("C29", "OpenCL program and device registry is consistent",
  "After loading devices, filtering them and registering programs in any order, every kernel request yields the kernel of the requested program built for the device it is handed out with, devices are served in round-robin order over exactly the devices that pass the filter, and each device comes with its own lock. Build failures are reported with their log and leave earlier registrations usable; unknown names are refused.",
  ["histories", "configurations", "fault_sequences"], "all device sets, filters, registration and request histories, and build failures",
  "cl_helper.cpp is compiled by the tests but there is no OpenCL device to execute it.",
  ["src/hzip_core/opencl/cl_helper.cpp", "src/hzip_core/opencl/cl_helper.h"], [("static registries indexed by device", "src/hzip_core/opencl/cl_helper.cpp")])
p("C30", "Command-line sizes and options are parsed exactly",
  "Every size argument consisting of a decimal number followed by b, kb, mb or gb is converted to exactly the number of bytes it denotes (powers of 1024), and text without such a unit yields zero. The server's command-line options are recognised under each of their declared names, in any order, carry exactly the value given, and are reported absent when not given; undeclared options are reported as errors.",
  ["inputs"], "all size strings and all option combinations",
  NOBUILD + "Input strings are unbounded.",
  ["src/terminal.h", "src/main.cpp", "other/argparse"], [("argument parser set-up and size conversion", "src/terminal.h")])
p("C31", "File-system helpers report the truth and fail by exception",
  "For every path, the existence helper says whether a non-directory exists there, the size helper returns its size in bytes (zero if it has none), the create helper leaves an empty file there or fails without crashing, and the delete helper removes it if present. No other file is touched.",
  ["inputs", "fault_sequences"], "all path shapes: missing parents, directories, unwritable locations, existing files",
  "fsutils.h is compiled by the tests but never called.",
  ["src/hzip_core/utils/fsutils.h"], [("stdio wrappers", "src/hzip_core/utils/fsutils.h")])
p("C32", "Codec lookup is total and consistent",
  "Every algorithm identifier the enumeration defines maps to a codec implementing that algorithm, every other identifier is refused with an exception, and the mapping is stable for the life of the process under any order of requests. The store-only codec returns its input unchanged in both directions.",
  ["inputs", "histories"], "all identifiers and request orders, all byte strings for the store-only codec",
  NOBUILD + "Only the enum header is compiled.",
  ["src/hzip_codec/codec_provider.cpp", "src/hzip_codec/uncompressed/uncompressed.cpp"], [("registry", "src/hzip_codec/codec_provider.cpp")])
p("C33", "First-order context model counts exactly",
  "After any sequence of updates, the count the context model reports for each (context, symbol) pair equals its initial value plus the number of times that pair was recorded, and the distribution it yields for a context matches those counts and never affects other contexts.",
  ["histories"], "all update/query sequences over all alphabet sizes",
  NOBUILD + "A property of whole histories.",
  ["src/hzip_core/models/first_order_context.cpp"], [("dense count table", "src/hzip_core/models/first_order_context.cpp")])
p("C34", "Server program applies its settings and shuts down without losing data",
  "Started with any combination of settings, the server program listens on the loopback address at the configured port, admits exactly clients with the configured key, as many at once as configured, ends idle sessions after the configured time, and sets the memory limit; with a setting that cannot be read or a port in use it ends with an error, serves nobody and disturbs no other server. On SIGTERM, SIGINT, SIGABRT, SIGFPE or SIGSEGV sent to it, at rest, in the middle of an upload or under load, also if another such signal follows, it ends with the signal's number as its status; its archives are then complete and unlocked, hold everything whose storing was acknowledged and nothing whose removal was, and a restarted server serves them. SIGPIPE does not end it.",
  ["configurations", "histories", "fault_sequences"], "all settings, all histories before the signal, all moments and orders of signals (not during start-up or while a connection is being accepted)",
  NOBUILD + "The program itself is never run by a test.",
  ["src/main.cpp", "src/hzip_network/api/api.cpp", "src/hzip_network/api/providers/archive_provider.cpp", "src/hzip_core/runtime/config.cpp"], [("configuration, signal handlers, shutdown", "src/main.cpp"), ("closing of archives", "src/hzip_network/api/providers/archive_provider.cpp")])
with open(OUT, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
