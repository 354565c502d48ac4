#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (edit here, run, commit both)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Header accessors return exactly what the package stores",
  "For every well-formed package, each header accessor (HasTag, Get, GetString(s), GetInt(s), GetUint32(s), GetUint64(s), GetUint64Fallback, GetBytes, IsSource, InstalledSize, PayloadSize) returns exactly the values stored for the requested tag, looked up in the signature header for tags below 1000 or above 16384 and in the general header otherwise. "
  "A tag that is absent yields NoSuchTagError; a tag of another type, a wrong number of values for a single-value accessor, or a value that does not fit the requested integer type (GetInt and GetInts are 32-bit signed whatever the platform's int) yields an error, never a truncated, reinterpreted or neighbouring value; where a single number comes with an error it is 0 (-1 from GetInt, InstalledSize and PayloadSize).",
  ["inputs"], "every header with up to 2 tags (3 in the thorough tier) over all data types, counts 0-3 and boundary values, in either header section, queried through every accessor",
  "The tests read a handful of tags from a dozen fixed packages; they never store boundary integers, empty arrays, mistyped tags or colliding tag ids in the two header sections.",
  ["header.go","rpmutils.go","tags.go","errors.go"],
  [("tag table parsing and slicing","header.go readHeader"),("typed conversion with overflow checks","header.go getInts/GetInts/GetUint32s/GetUint64s"),("section routing by tag number","rpmutils.go getHeader")],
  state=[("entries","tag id -> (type,count,contents)","header.go rpmHeader")], observe=["return values of every exported RpmHeader accessor"])

p("C02", "Malformed headers are rejected or handled, never crash",
  "For every byte string given as a package, reading its header returns either an error or a header on which every accessor (typed getters, GetNEVRA, GetFiles, sizes, ranges, DumpSignatureHeader) and Verify and signing return normally: no input makes the library panic, loop forever, or allocate memory out of proportion to the bytes supplied.",
  ["inputs"], "every combination of boundary values for the intro and index fields of a small header (bounded number of departures from well-formedness), every truncation, every inconsistent set of parallel file arrays within a deviation bound",
  "The tests only read well-formed packages; negative offsets, negative counts, out-of-range indexes and arrays of unequal length are never presented.",
  ["header.go","rpmutils.go","signatures.go","verify_digests.go","writeheader.go"],
  [("bounds checks on index entries","header.go readHeader"),("length checks on parallel arrays","header.go GetFiles/GetStrings/GetNEVRA")],
  observe=["panic / error / result of each call", "allocated bytes"])

p("C03", "Header reading is exact, position-faithful and chunking-independent",
  "Reading a package header gives the same result however the underlying stream splits its data into reads, and consumes exactly the lead, signature header (with its padding) and general header, so that the stream is left at the first payload byte and GetRange and OriginalSignatureHeaderSize give the true offsets. "
  "If the stream ends or fails before the last header byte, or the lead or header magic is wrong, an error is returned and never a header.",
  ["inputs","fault_sequences"], "every chunk size and every bounded sequence of short/empty reads, every truncation point and every failure point, for headers of every residue of the store size modulo 8",
  "The tests use one HalfReader run over one package; they never end or fail the stream at each offset, nor check what was consumed.",
  ["rpmutils.go","header.go"],
  [("exact reads","header.go readExact"),("8-byte padding of the signature store","header.go readHeader"),("captured original bytes","header.go readHeader orig")],
  observe=["bytes consumed from the stream","GetRange","OriginalSignatureHeaderSize"])

p("C04", "File list and NEVRA join the parallel header arrays correctly",
  "For every well-formed package, GetFiles returns one entry per packaged file, in header order, whose name is the file's directory joined with its basename (or the stored full name) and whose size, owner, group, flags, mtime, digest, mode, link target, device and inode are the values stored at that file's position; 64-bit sizes are used when present and a package without files yields an empty list. "
  "GetNEVRA returns the stored name, version, release and arch, with the stored epoch in decimal or 0 when none is stored; its String is NAME-EPOCH:VERSION-RELEASE.ARCH.rpm.",
  ["inputs"], "every file list of up to 3 files over small alphabets for each attribute, both name encodings, both size encodings, present/absent optional arrays; every NEVRA over a small alphabet with epoch absent/present",
  "The tests check the number of files of one package and two epochs; no per-file attribute is compared.",
  ["header.go","fileinfo.go","nevra.go"],
  [("OLDFILENAMES splice","header.go GetStrings"),("parallel arrays","header.go GetFiles"),("epoch default","header.go GetNEVRA")],
  observe=["FileInfo methods","NEVRA fields"])

p("C05", "Version comparison is rpm's total order",
  "For every pair of strings, Vercmp returns exactly what rpm's rpmvercmp returns (including tilde, caret, leading zeros, arbitrarily long digit runs, separators and non-ASCII bytes), so that it is reflexive, antisymmetric and transitive. "
  "NEVRAcmp compares epoch, then version, then release by that order, and sorting a VersionSlice or NEVRASlice puts every element in non-decreasing order without losing or duplicating any.",
  ["inputs"], "all pairs of strings up to length 4 (5 thorough) over a 7-letter alphabet with one representative of every character class, all pairs of short token sequences including over-long numbers, all small NEVRA pairs, all permutations of small slices",
  "The test has 24 pairs; the algorithm's segment loop has behaviours that depend on both strings jointly.",
  ["vercmp.go","nevra.go"],
  [("segment loop","vercmp.go Vercmp"),("lexicographic E,V,R","nevra.go NEVRAcmp"),("sort","nevra.go/vercmp.go")],
  observe=["Vercmp","NEVRAcmp","NEVRASlice.Sort","sort.Sort(VersionSlice)"])

p("C06", "Dumped signature headers are valid, complete and history-independent",
  "For every package that was read, DumpSignatureHeader returns a lead and well-formed signature header (sorted index, aligned values, correct region trailer, length a multiple of 8) holding exactly the original tags apart from padding, which can replace the first OriginalSignatureHeaderSize() bytes of the package without disturbing the rest. "
  "With sameSize the result has the original length whenever padding can achieve it, without it the result is the smallest encoding; the result of a dump does not depend on accessor calls or dumps made before.",
  ["inputs","histories"], "every signature header over a set of tags of every alignment class with lengths covering all residues modulo 8 and reserved space / slack from 0 to 40 bytes; every sequence of up to 3 dumps and accessors",
  "The tests check that one dump's length is a multiple of 8; the bytes are only looked at by the library's own lenient parser.",
  ["writeheader.go"],
  [("aligned tag writing","writeheader.go writeTag"),("region trailer","writeheader.go writeRegion"),("reserved-space computation","writeheader.go DumpSignatureHeader")],
  state=[("entries[RESERVEDSPACE]","padding tag added/removed by a dump","writeheader.go DumpSignatureHeader")],
  observe=["bytes returned by DumpSignatureHeader, decoded by an independent parser"])

p("C07", "Signing produces a package that verifies and is otherwise unchanged",
  "For every intact package, key and option set, signing yields a signature header that, spliced onto the original package, makes Verify succeed with the signer's key and report exactly one header-only and one header-and-payload signature with that key, hash and creation time (SHA-256 and the current time when unset); the general header, the payload and every other signature tag keep their values and earlier signatures are replaced. "
  "A package whose general header or payload does not match its recorded digest (header SHA-256, or SHA-1 when there is none; payload digest, or legacy MD5 when there is none), that is truncated, or whose signer fails is refused with an error.",
  ["inputs","histories","fault_sequences"], "every combination of signature-header shape, digest kind, payload size, key algorithm and options; every history of up to 3 signings by two keys through stream and file interfaces; every single-byte corruption and truncation; failure of each call to the signing key",
  "The tests sign two packages once with one RSA key and default options, never re-sign, and never sign a corrupted package.",
  ["signatures.go","writeheader.go","verify_digests.go"],
  [("digest and sign","signatures.go SignRpmStream/digestForSigning/makeSignature"),("signature tag replacement","signatures.go insertSignatures"),("option defaults","signatures.go SignatureOptions")],
  observe=["Verify result on the spliced package","independent decoding of both packages"])

p("C08", "Verify never accepts a tampered package",
  "If Verify succeeds with a keyring, every reported signature is a valid signature by a key of that keyring over exactly the bytes it claims to cover (general header, or general header and payload), and the payload matches the recorded payload digest (or legacy MD5 when no payload digest is recorded). "
  "Any change to signed bytes, or any header-only signature presented as a header-and-payload one, makes Verify fail even if every unsigned digest is recomputed to match; reading the header alone fails if it does not match its recorded SHA-256 (SHA-1 when no SHA-256 is recorded).",
  ["inputs"], "for every digest/signature configuration: every single-byte change at every position of header and payload, truncation and extension, crossed with recomputation of each subset of unsigned digests, and every exchange of signature blobs between slots and packages",
  "The tests only verify untouched packages; there is no negative verification test at all.",
  ["verify.go","verify_digests.go","verify_v4.go","header.go","signatures.go"],
  [("header digest check","header.go readHeader"),("payload digest / MD5","verify_digests.go digestPayload"),("per-slot hashing","verify_digests.go digestAndVerify"),("PGP validation","verify_v4.go parseSignatureV4")],
  observe=["Verify verdict against an attack model"])

p("C09", "Verify attributes each signature to the right key",
  "For every signature in a package, Verify reports the issuer key ID or fingerprint, hash, creation time and coverage recorded in it; given a keyring, it succeeds exactly when the issuing primary key or subkey is in the keyring and the signature is valid, reports the entity holding it, that key's fingerprint and its primary identity, and otherwise returns KeyNotFoundError naming the issuer. "
  "A nil keyring still checks digests but never asserts a signer; blobs that are not exactly one signature packet, or name no issuer, are rejected.",
  ["inputs"], "every combination of issuer encoding (key ID, fingerprint, both, neither), signing key (primary or subkey), keyring composition and order, signature slots present, and malformed signature blob",
  "The tests use one keyring holding one primary key.",
  ["verify.go","verify_v4.go","verify_digests.go"],
  [("key lookup","verify_v4.go findKey"),("identity attributes","verify_v4.go setEntity"),("packet framing","verify_v4.go parseSignature")],
  observe=["Signature fields","error values"])

p("C10", "Signing a file is atomic under crashes and I/O faults",
  "When the output path is a regular file or does not exist: if SignRpmFile or RewriteWithSignatures reports success, it holds the complete signed package; if any system call fails, is cut short, or the process is killed at any point, the output path holds either what it held before or the complete signed package, a reported failure means an error was returned, no temporary file is left behind by a returned call, and an input at a different path is never modified. "
  "(The single write that updates a package in place is taken as the unit of failure: it happens entirely or not at all.)",
  ["crash_points","fault_sequences"], "every system call made on the files of the scenario, failed with each applicable error, shortened, or followed by a kill; for new, existing, same-file, hard-linked and size-changing outputs; up to 2 faults in the thorough tier",
  "The tests never call SignRpmFile or RewriteWithSignatures at all.",
  ["signatures.go"],
  [("write to temporary and rename","signatures.go rewriteRpm"),("in-place update","signatures.go writeInPlace"),("cleanup on error","signatures.go rewriteRpm deferred function")],
  observe=["file system after each run, return value"])

p("C11", "Signing to a file never damages aliases of input or output",
  "Wherever the output path leads - the input file itself, a hard link or symbolic link to it, another existing file with or without further hard links, a dangling link, a new name, or a pipe - a successful SignRpmFile or RewriteWithSignatures makes reading that path give the complete signed package, in a file of mode 0644 where it is a new or replaced one; what is reachable under another hard-linked name of the output file, and an input that was not itself named as the output, keep their content (an output that is a symbolic link to a different file may be written through).",
  ["configurations","histories"], "every aliasing relation between input path, output path and a bystander link, crossed with signature sizes that fit in place, fit exactly, or do not fit, over histories of up to 2 signings",
  "No test writes a signed file; link counts and same-file detection are never exercised.",
  ["signatures.go","fileutil/fileutil_unix.go"],
  [("overwrite decision","signatures.go canOverwrite"),("link count","fileutil/fileutil_unix.go HasLinks"),("output kind dispatch","signatures.go rewriteRpm")],
  observe=["content and inode of every path before and after"])

p("C12", "cpio readers deliver exactly the archived entries and bytes",
  "For every well-formed newc or stripped (RPM) archive, every way the stream splits its data, and every sequence of Next and Read calls with any buffer sizes (reading files fully, partly or not at all), the reader yields the archived entries in order with all header fields, and each Read returns exactly the next bytes of the current file, io.EOF at its end, and io.EOF from Next only at the archive trailer. "
  "Sizes supplied for stripped entries, including those beyond 4 GiB, are honoured and reported.",
  ["inputs","histories"], "all archives of up to 2 entries (3 thorough) over sizes and name lengths covering every residue modulo 4, all operation sequences with up to 3 reads per entry, several chunkings plus bounded short reads",
  "The tests read entry headers of two fixed archives sequentially; partial reads and skipping are not varied.",
  ["cpio/cpio.go","cpio/reader.go","cpio/stream.go","cpio/header.go"],
  [("padding and position arithmetic","cpio/cpio.go ReadNextEntry/pad"),("bounded file stream","cpio/stream.go Read"),("header decoding","cpio/header.go")],
  state=[("curPos/nextPos","stream position and start of the next entry","cpio/cpio.go CpioStream")],
  observe=["Reader.Next/Read, CpioStream.ReadNextEntry results"])

p("C13", "Malformed or truncated archives give errors, never crashes or silent loss",
  "For every byte string given as a cpio archive and every sequence of calls, the readers and Extract return without panicking, looping forever, or allocating memory out of proportion to the bytes supplied. "
  "An archive that ends or fails before its trailer is never reported as complete: some call returns an error other than io.EOF (Extract any error), and no file's contents end with io.EOF before its declared size. An entry header with an unknown magic, or a number in which anything but hexadecimal digits follows an optional sign, is an error, too.",
  ["inputs","fault_sequences"], "every truncation point and failure point of small archives, every header field replaced by each of a set of boundary or non-hexadecimal texts (up to 2 fields), every boundary value of supplied sizes",
  "The tests read only complete, well-formed archives.",
  ["cpio/cpio.go","cpio/reader.go","cpio/stream.go","cpio/header.go","cpio/extract.go"],
  [("hex field parsing","cpio/header.go Read16"),("skip","cpio/cpio.go Seek"),("end of file detection","cpio/stream.go Read, cpio/reader.go Next")],
  observe=["error values, panics, allocated bytes"])

p("C14", "Extraction never touches anything outside the destination",
  "For every archive - whatever its entry names, types, link targets, order or repetition - extraction into a directory creates, modifies, truncates or removes nothing outside that directory, whether it succeeds or fails; entries named with '..' or as absolute paths end up inside the destination or are refused, and entries reached through links made by earlier entries never escape it.",
  ["inputs","histories"], "all archives of up to 2 entries (3 thorough, and 3 over a focused alphabet in quick) over an adversarial alphabet of names, types and link targets, with several destination spellings and prior contents",
  "One test extracts one archive with a single '../' name; links are never combined with later entries.",
  ["cpio/extract.go"],
  [("name sanitising","cpio/extract.go Extract"),("containment check","cpio/extract.go Extract")],
  observe=["complete snapshot of a sandbox surrounding the destination"])

p("C15", "Successful extraction reproduces the archive",
  "For every well-formed archive of directories, regular files, symbolic links, FIFOs and complete hard-link groups (content in the last member, or no content at all) with distinct names and directories before what they hold, and every chunking of the stream, Extract and ExpandPayload succeed and leave exactly the archived tree in the destination: file contents, link targets, permissions of directories and FIFOs (less umask), hard-linked names sharing one file with the group's content, with nothing missing or added; device nodes are skipped. A hard-link group laid out in any other way is extracted correctly or reported as an error. "
  "Any destination spelling (absolute, relative, '.', trailing slash, not yet existing) behaves the same.",
  ["inputs","configurations"], "all archives of up to 3 entries over a small alphabet of names, types, sizes and link groups, with all orders, several chunkings and all destination spellings",
  "The tests check that extraction of two fixed archives returns no error and that one file exists; contents, links and hard links are never compared.",
  ["cpio/extract.go","fileutil/fileutil_unix.go"],
  [("type dispatch","cpio/extract.go Extract"),("deferred hard links","cpio/extract.go linkMap")],
  state=[("linkMap","names waiting for the content of their hard-link group","cpio/extract.go Extract")],
  observe=["complete snapshot of the destination"])

p("C16", "Extraction reports every file system failure",
  "If any system call made while extracting an archive fails or is cut short, Extract and ExpandPayload either still produce exactly the archived tree or return an error; they never report success with a file missing, short or wrong.",
  ["fault_sequences"], "every system call on the destination failed with each applicable error or shortened, for archives covering every entry type; up to 2 faults in the thorough tier",
  "The tests run on a file system that never fails.",
  ["cpio/extract.go","rpmutils.go"],
  [("error propagation","cpio/extract.go Extract")],
  observe=["return value against a snapshot of the destination"])

p("C17", "The payload reader pairs every payload entry with its header record",
  "For every package, PayloadReaderExtended yields the payload's entries in payload order, each as the FileInfo of the header file it belongs to (by name, with or without leading './', or by index for stripped entries), and reading it gives exactly that file's content, symlink target or nothing; IsLink is true exactly for the members of a hard-link group other than the last, whose contents are then empty (ghosts, and files with inode 0, belong to no group). "
  "Sizes beyond 4 GiB are honoured, entries that belong to no header file give an error, and the end of the payload gives io.EOF.",
  ["inputs","histories"], "all packages of up to 3 files over types, sizes and link groups, with entries in every order and any subset left out (ghosts), both archive formats, and partial or skipped reads",
  "The tests count the entries of one-file packages.",
  ["payload.go","rpmutils.go","cpio/cpio.go"],
  [("name map and index","payload.go Next"),("link group detection and sizes","payload.go newPayloadReader")],
  state=[("isLink/fileSizes","which header files carry no content in the payload","payload.go newPayloadReader")],
  observe=["Next/Read/IsLink results"])

p("C18", "Payload decompression is transparent",
  "For every supported compressor (gzip, bzip2, lzma, xz, zstd, none) named by the header, or gzip and none told apart by the first bytes when it names none, with either zstd implementation, and every chunking of the stream, the payload interfaces deliver exactly the archived content. "
  "An unknown format or compressor, a payload of another format than the one named, or one that is truncated or fails before the archive is complete gives an error and never a silently short or altered archive; ExpandPayload and PayloadReaderExtended also report corruption that the format's own checks (as in gzip, bzip2, and xz or zstd with checksums) can tell.",
  ["inputs","configurations","fault_sequences"], "every compressor and interface, every truncation and failure point, every chunk size from a set and bounded short reads, every single-byte corruption for checksummed formats",
  "The tests read one complete package per compressor and ignore the content.",
  ["uncompress.go","uncompress_cgo.go","uncompress_nocgo.go","rpmutils.go","payload.go"],
  [("compressor dispatch","uncompress.go uncompressRpmPayloadReader"),("magic detection","uncompress.go"),("end detection","cpio/stream.go, cpio/reader.go")],
  observe=["entries and contents, errors"])

p("C19", "Decompressors and files are released, the caller's file is not",
  "After ExpandPayload returns, or once Next of the payload reader has returned io.EOF or failed to read the payload, no goroutine, decompressor or file descriptor opened on the package's behalf remains in use, for every compressor, archive and failure point; signing to a file likewise leaves no descriptor open whether it succeeds or fails. The stream supplied by the caller is never closed, and calling Next or Read again afterwards returns an error rather than crashing.",
  ["histories","fault_sequences"], "every sequence of Next/Read calls up to a bound including after the end, every truncation point, for each compressor and both zstd implementations; failing extractions and signings",
  "One test checks for leaked goroutines on complete, fully read payloads only.",
  ["payload.go","rpmutils.go","uncompress.go","uncompress_nocgo.go","cpio/extract.go","signatures.go"],
  [("close on end or error","payload.go Next"),("deferred close","rpmutils.go ExpandPayload"),("no-close wrapper","uncompress.go noCloseWrapper")],
  observe=["goroutines, open descriptors, Close calls on the supplied stream"])

p("C20", "Independent operations do not influence each other",
  "For every interleaving of operations on separate packages, archives or destinations - reading headers, reading payloads, extracting, verifying, signing, comparing versions - in one process, each operation's result is the one it gives when run alone; concurrent read-only accessor calls on one header likewise return what they return sequentially.",
  ["schedules"], "all interleavings of two operations with up to 2 preemptions (3 thorough), with scheduling points at every read of each operation's stream and every call, for every pair of operation kinds",
  "The tests run one operation at a time.",
  ["header.go","cpio/cpio.go","cpio/header.go","cpio/stream.go","payload.go","uncompress.go","signatures.go","verify_digests.go","vercmp.go"],
  [("no shared mutable state between values","package-level variables of all files")],
  observe=["results of both operations compared with solo runs","data races reported by the race detector (goroutines are handed over without creating a happens-before order)"])

p("C21", "Extraction onto existing files changes only what the archive names",
  "For every prior content of the destination directory and every archive as in C15, a successful Extract or ExpandPayload leaves each archived entry as archived at its name (a directory that was there, or a link to one, may stay as it was), its file contents shared with no other name than the members of its own hard-link group; whether it succeeds or fails, everything in or outside the destination that no entry names keeps its content, type, permissions and inode. "
  "Directories over existing directories, and regular files over existing writable files, links, FIFOs and sockets, succeed; success is never reported when an entry is not there, including when something else occupies its name or when the stream is cut.",
  ["inputs","histories"], "each of 16 prior things at one place x 16 archives x 3 ways of extracting x 4 chunkings; all pairs of prior things and entries at two places, one below the other; all sequences of 3 extractions (4 thorough) out of 14 archives; all pairs of entries extracted twice; archives cut at every byte",
  "The tests extract into fresh directories only.",
  ["cpio/extract.go","fileutil/fileutil_unix.go"],
  [("replacement of what is there","cpio/extract.go removeSpecial"),("type dispatch","cpio/extract.go Extract")],
  observe=["complete snapshots of the surroundings of the destination before and after"])

root = pathlib.Path(__file__).resolve().parent.parent
with open(root/"properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80, x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
