#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements, anchors)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

# ---------------------------------------------------------------- concurrency
p("C01", "The file table container is race-free and each operation is atomic",
  "Every lookup, insertion, replacement, deletion, count, reset and enumeration of the ordered key/value container that holds a package's file table touches the container's internal state only while its lock is held: exclusively when it changes anything. Each operation is one critical section (nothing read in one critical section decides or feeds a change made in another), and the lock is released on every exit. The callback of an enumeration runs with no lock held, on a private snapshot that concurrent changes cannot reach.",
  ["schedules", "histories"], "all interleavings of any number of goroutines calling the container's operations",
  "the tests are single-goroutine; a missing or too weak lock shows only under particular interleavings",
  ["util/seqmap.go"],
  [("sync.RWMutex of SeqMap", "util/seqmap.go"), ("snapshot copy in Range", "util/seqmap.go")],
  [("seq/idx", "ordered pairs and key->position index", "util/seqmap.go")])
p("C02", "Packing, marking and publishing on one package never interleave",
  "Starting a package, resuming it, publishing it and packing one file each run their stream operations as one exclusive step per package: taking the position of a new file, copying its bytes and accounting its size happen without another such step in between. All changes to the package's recorded data offset, data size and description made by those operations happen inside that exclusive step, and it ends on every exit, including failures.",
  ["schedules"], "all interleavings of concurrent packers and publishers sharing one package",
  "no test packs from two goroutines; interleaved copies corrupt data only under contention",
  ["writer.go", "wpk.go"], [("FTT.mux", "wpk.go"), ("critical section in PackData", "writer.go")])
p("C03", "No operation can deadlock on the package's own locks",
  "No operation of the library acquires a lock that the same call chain already holds, two locks are never taken in opposite orders by different operations, every acquired lock is released on every exit by the operation that took it, and no caller-supplied callback is invoked while the file table's lock is held.",
  ["schedules", "programs"], "all call chains in the library and all callbacks user code may pass",
  "a self-deadlock or inversion needs a call chain or callback no test uses",
  ["util/seqmap.go", "wpk.go", "writer.go", "dir.go", "union.go"], [("FTT.mux, SeqMap.mux", "wpk.go, util/seqmap.go")])
# ---------------------------------------------------------------- persistence
p("C04", "A package is marked ready only after its whole file table is written",
  "When a package is published, the header carrying the 'ready' signature is the last thing written to the header file: the complete file table has been written successfully before, the header is placed at the start of the file, and no further write follows. If any seek or write before it fails, nothing carrying the ready signature is written, the recorded data area is left unchanged and the failure is returned.",
  ["crash_points", "fault_sequences"], "every point at which the process may die or a seek/write may fail during publication",
  "tests never interrupt or fail publication; the order only matters when it stops half-way",
  ["writer.go", "wpk.go"], [("Sync", "writer.go"), ("Header.WriteTo", "wpk.go")], observe=["bytes reaching the header stream, in order"])
p("C05", "Building starts by marking the package, and appends exactly at the data end",
  "Beginning a package writes a header with the 'under construction' signature, no files and no data at the start of the header file; resuming a package rewrites that signature first, before anything else is written, and writes nothing else. A resumed package continues exactly at the end of the existing data, measured from the file start, in the data file when there is one and in the header file otherwise; a new single-file package begins its data right after the header, a split one at 0.",
  ["crash_points", "configurations", "histories"], "all histories of begin/append/sync, single-file and split, interrupted anywhere",
  "tests use a single append on single-file packages only and never look at a package under construction",
  ["writer.go"], [("Begin, Append", "writer.go")])
p("C06", "Packages that are not ready are refused before their table is read",
  "Every way of opening a package or reading its description decides on the signature before touching the file table: the ready signature is accepted, the construction signature is accepted only for split packages and otherwise reported as 'not ready', and any other signature is reported as bad. When the signature is refused the error is returned unchanged and neither the table position nor any table byte is read.",
  ["inputs", "crash_points"], "all header contents, all three entry points",
  "tests only open well-formed packages",
  ["wpk.go"], [("Header.IsReady", "wpk.go"), ("OpenStream, GetPackageInfo", "wpk.go")])
p("C07", "The published header describes exactly what was written",
  "After a successful publication the header states the number of entries in the table, the table's true position and the number of bytes actually written for it, and the data area as reaching from the fixed data start (after the header, or 0 when split) to the current end of the data stream; the in-memory data offset and size equal those header values. In a single file the table follows the data, in a split package it follows the header.",
  ["configurations", "histories", "inputs"], "all package contents, both layouts, any number of publications",
  "tests re-read a few packages; wrong arithmetic for other sizes, layouts or repeated syncs stays unseen",
  ["writer.go"], [("Sync", "writer.go")])
p("C08", "No failure in the library is swallowed",
  "Whenever a read, write, seek, open, parse, mapping or nested library call made by the core library, its three access modules or its utilities reports an error, the operation in progress reports an error to its caller instead of success: on no path is such an error overwritten, dropped or turned into a nil error.",
  ["fault_sequences"], "every fallible call on every path, failing in turn",
  "tests have no fault injection; nearly all error branches are unexecuted",
  ["wpk.go", "writer.go", "dir.go", "union.go", "util/uintio.go", "bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go"], [("named-result error returns", "all library files")])
p("C09", "The command line tools never report success after a failure",
  "In the pack, extract and build utilities every failure of opening, reading, copying, packing, opening a package or publishing it makes the utility's work function fail: the error is returned up to the caller that logs it, processing stops, and after a failure while packing the package is not published as ready.",
  ["fault_sequences", "inputs"], "every fallible call in the utilities, failing in turn",
  "the utilities have no tests at all",
  ["cmd/pack/pack.go", "cmd/extract/extract.go", "cmd/build/build.go", "luawpk/runlvm.go"], [("writepackage, readpackage", "cmd/")])
p("C10", "A short read is never taken for a complete one",
  "When the library fills a fixed-size record (integer, header, tagset, file table, or a whole nested file) from a stream it either obtains all requested bytes or reports an error; a reader that returns fewer bytes per call does not change the result, and a truncated package is reported instead of being completed with zeroes.",
  ["inputs", "fault_sequences"], "all readers that deliver data in arbitrary portions, all truncation points",
  "tests read only from complete regular files, where one Read call returns everything",
  ["wpk.go", "union.go", "util/uintio.go"], [("stream readers", "wpk.go, util/uintio.go")])
# ---------------------------------------------------------------- format
p("C11", "Header writer and both header readers agree on the byte layout",
  "The header is always exactly 64 bytes: the signature (24 bytes), then entry count, table offset, table size, data offset and data size as consecutive 8-byte integers. Writing it emits these fields in this order and both ways of reading it (from a buffer, from a stream) assign each field from the same bytes, report the full length as processed on success, and the count, table-size and data-size accessors return the corresponding field.",
  ["inputs"], "all header values, both readers",
  "tests only write and re-read through one of the readers, so a symmetric or unused-reader error is invisible",
  ["wpk.go", "util/uintio.go"], [("Header.WriteTo/ReadFrom/Parse", "wpk.go")])
p("C12", "Table writer and table readers agree on record framing",
  "The file table is the description record, then one record per entry, then a zero length marker; each record is a 2-byte length followed by exactly that many bytes. The writer and every reader (from a buffer, from a stream, quick description reader) process records in this order with the same framing and the processed byte count equals the bytes consumed or produced; a record too long for its length field makes writing fail before anything of that record is written, and entries are written in insertion order.",
  ["inputs"], "all tables, including empty descriptions and maximal records",
  "tests cover one reader on small tables; the stream reader and the size limit are never exercised",
  ["wpk.go"], [("FTT.WriteTo/ReadFrom/Parse, GetPackageInfo", "wpk.go")])
p("C13", "Fixed-width integer accessors touch exactly their width, inside the slice",
  "Each fixed-width get and set accessor on byte slices reads or writes exactly as many bytes as its width, starting at the first byte of the slice, and panics instead of touching memory when the slice is shorter. Each stream reader or writer of a fixed-width value transfers exactly that many bytes of the value.",
  ["inputs"], "all slices of any length and all values",
  "an out-of-bounds unsafe access usually reads neighbouring memory silently; tests have no short slices",
  ["util/uintio.go"], [("bounds guard before unsafe access", "util/uintio.go")])
p("C14", "Tag value encoders and decoders agree and lose nothing",
  "For every tag value type (bool, byte, 16/32/64-bit and variable-length unsigned, float, both time forms) the encoding has a length its decoder accepts and the decoder reads every component back from the bytes where the encoder put it, with the same width; the variable-length encoder never picks a width that truncates its value; decoders refuse every other length without touching the bytes.",
  ["inputs"], "all values of every tag type and byte strings of any length",
  "tests encode a handful of values; width boundaries and odd lengths are unsampled",
  ["tagset.go"], [("UintTag/TagUint, TimeTag/TagTime, ...", "tagset.go")])
p("C15", "File times stored when packing are readable through every time accessor",
  "Packing a file stores its modification, access and, where available, change and birth times each under its own tag, and the corresponding file-info time accessors return the time stored under that very tag for every stored time encoding.",
  ["inputs", "configurations"], "all packed files, both time encodings",
  "no test reads access, change or birth time back",
  ["writer.go", "tagset.go"], [("PackFile", "writer.go"), ("ModTime, AccessTime, ChangeTime, BirthTime", "tagset.go")])
p("C16", "Editing one tag leaves every other tag of the set intact",
  "Appending, adding, replacing (with a shorter, equal or longer value) or deleting a tag yields a set in which exactly that tag changed: the new entry consists of identifier, true value length and value, all other entries keep their identifiers and bytes, and asking for an identifier that is not in the set finds nothing and changes nothing, whatever the identifier and however much spare capacity the set has.",
  ["inputs", "histories"], "all tagsets, identifiers and value lengths, any slice capacity",
  "the tests replace by equal length and delete the last tag only; capacity-dependent overwrites do not appear",
  ["tagset.go"], [("Put/AddOk/SetOk/DelOk/Get/Has", "tagset.go")])
p("C17", "Iteration over a tagset is read-only and always stays inside it",
  "Walking a tagset visits entries front to back, never reads outside the set whatever its bytes are, ends after finitely many steps, and reports a malformed set as failed. The walking object exposes no way to change the set: every editing operation of tagsets is disabled on it.",
  ["inputs", "programs"], "all byte strings taken as tagsets, all methods callable on an iterator",
  "tests iterate one valid set; a newly added editing method silently bypasses the protection",
  ["tagset.go"], [("TagsetIterator.Next and panicking stubs", "tagset.go")])
# ---------------------------------------------------------------- robustness
p("C18", "No package content can crash the reader",
  "Opening a package, reading its description and decoding any of its tagsets never panics, whatever the bytes of the header, table and tagsets: every index and slice bound computed from package content is within the memory it addresses, and the memory allocated is bounded by the amount of data actually present in the stream.",
  ["inputs"], "all byte strings offered as package or table",
  "tests feed only well-formed packages; malformed input space is unbounded",
  ["wpk.go", "tagset.go"], [("FTT.Parse, ReadFrom, OpenStream, GetPackageInfo, TagsetIterator", "wpk.go, tagset.go")])
p("C19", "Only validated entries enter the table of an opened package",
  "When a package is opened every entry put into its file table has been checked successfully: it has a name, an offset and a size, its name is not in the table yet in the normalised spelling under which it is stored, and its extent lies completely inside the data area declared by the header without any arithmetic wrap-around. The values checked are the ones all accessors later return for that entry, and the first entry that fails makes opening fail with an error naming the key and tag. Opening succeeds only if the table takes exactly the bytes which the header records for it.",
  ["inputs"], "all tables, including repeated tags, duplicate names and extreme integers",
  "tests open only packages produced by the library itself",
  ["wpk.go", "tagset.go"], [("FTT.CheckTagset", "wpk.go"), ("TagsetRaw.Pos", "tagset.go")])
p("C20", "Memory shared with strings is never written",
  "The library obtains byte views of strings and string views of bytes without copying; it never writes through a byte view of a string, neither directly nor by passing it to something that fills or edits its argument, and the case and slash normalisers copy before their first modification so that their argument is never changed.",
  ["inputs", "programs"], "all paths through functions that use zero-copy conversions",
  "writing to a string constant faults or silently changes other strings only for particular inputs",
  ["util/strutil.go", "tagset.go", "writer.go", "luawpk/runlvm.go"], [("S2B/B2S", "util/strutil.go"), ("copy-on-first-change flag", "util/strutil.go")])
p("C21", "Editing one file's tags never alters another file or the loaded table",
  "Renaming, aliasing and tag editing work on private copies: no stored tagset or description is modified in place, and tagsets handed out after opening a package have no spare capacity through which appending a tag could overwrite the neighbouring entry of the loaded table.",
  ["histories", "inputs"], "all sequences of rename, alias and tag edits on opened packages",
  "aliasing damage appears in a different entry than the one edited, and only for particular lengths",
  ["writer.go", "wpk.go", "luawpk/luawpk.go"], [("CopyTagset before Set/Del", "writer.go, luawpk/luawpk.go"), ("table parsing", "wpk.go")])
# ---------------------------------------------------------------- access
p("C22", "All access modules expose exactly the extent of the file",
  "Whichever way a package is accessed (whole content in memory, memory mapping, plain file), an opened nested file gives access to exactly the bytes from its offset up to offset plus size of the data file, no more and no less, for any offset and size including empty files; an extent that does not fit into the data is reported as an error rather than causing a crash when the content is held in memory or mapped. The opened file's information is the tagset it was opened with.",
  ["inputs", "configurations"], "all extents, all three access modules, truncated data files",
  "one extent is tested through two of the modules; empty files, page-aligned and truncated data are not",
  ["bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go"], [("NewSliceFile, NewMappedFile, NewChunkFile", "bulk, mmap, fsys")])
p("C23", "Reading a whole file returns a private, complete copy",
  "Reading a whole nested file through a package or a union returns a freshly allocated slice of exactly the file's size filled completely, with a nil error also for empty files, independent of the package's memory; the nested file is closed on every path, and a missing name is reported without opening anything.",
  ["inputs", "configurations"], "all files and access modules",
  "only one non-empty file is read this way by tests",
  ["wpk.go", "union.go"], [("Package.ReadFile, Union.ReadFile", "wpk.go, union.go")])
p("C24", "Every opened file handle is closed or handed over on every path",
  "Whenever a function of the library, the scripting module or the utilities opens a file, a package file or a nested file, that handle is either closed before the function returns or owned by the object the function returns or stores, on every path including failures; closing an opened nested file releases the handle or mapping it owns, and closing a union closes every package in it even when one close fails, and reports a failure.",
  ["fault_sequences"], "all paths, every later call failing in turn",
  "tests cannot observe leaked handles and do not fail later calls",
  ["wpk.go", "union.go", "fsys/fsys.go", "mmap/mmap.go", "luawpk/luawpk.go", "luawpk/luapath.go", "cmd/pack/pack.go", "cmd/extract/extract.go"], [("defer Close", "all files")])
# ---------------------------------------------------------------- file system semantics
p("C25", "Missing names are reported as 'not exist' path errors by all file system calls",
  "For a name that is not present, opening, stat, whole-file reading, directory reading and sub-directory selection on a package or a union return a nil result together with a path error that carries the name and wraps 'file does not exist'; none of these calls ever returns a nil result with a nil error, and a malformed glob pattern is reported as an error.",
  ["inputs", "histories"], "all names and table contents",
  "no test asks for a missing name",
  ["wpk.go", "union.go", "dir.go"], [("fs.PathError returns", "wpk.go, union.go, dir.go")])
p("C26", "Directory membership respects path element boundaries",
  "A file belongs to a directory or workspace exactly when its full name starts with that directory's name followed by a slash (every file belongs to the root): listing, opening, enumeration, sub-directory selection, workspace trimming and directory renaming never treat 'img2/x' as a member of 'img', and the relative name they produce is the remainder after that slash.",
  ["inputs"], "all directory names and keys",
  "test directories have no common name prefixes other than whole elements",
  ["wpk.go", "dir.go", "union.go", "writer.go"], [("slash-terminated prefixes", "wpk.go, dir.go, union.go, writer.go")])
p("C27", "Names are normalised the same way on every way in and out",
  "Every operation that takes a file name turns backslashes into slashes and prefixes the workspace before consulting or changing the file table, and every name under which an entry is stored (when packing, renaming, aliasing, setting tags or opening a package) is normalised the same way; so a file stored under one spelling is found, replaced and deleted under any spelling.",
  ["inputs", "histories"], "all spellings and operations on package and union",
  "tests use forward slashes only",
  ["wpk.go", "writer.go", "union.go", "dir.go"], [("ToSlash and FullPath before table access", "wpk.go, writer.go")])
p("C28", "Directory listings are sorted, complete and repeatable",
  "A full directory listing of a package or union contains each direct child exactly once, sorted by file name, the same on every call; with a positive limit at most that many entries are returned, a non-positive limit means no limit, and the end of the directory is signalled only when fewer entries than requested were found.",
  ["inputs", "histories"], "all tables, directories and limits",
  "tests compare listings as sets and only with limit -1",
  ["dir.go", "union.go"], [("ReadDirN", "dir.go, union.go")])
p("C29", "In a union the first package that has a name wins, everywhere",
  "If several packages of a union contain a file with the same name, opening it, reading it, its stat information and its entry in directory listings all come from the first of them in list order, and key and glob listings contain the name once, in list order; later packages are consulted only when the earlier ones lack the name.",
  ["configurations", "inputs"], "all unions and name overlaps",
  "tests overlap one name and do not check which package serves it",
  ["union.go"], [("in-order search over the package list", "union.go")])
p("C30", "A sub-directory view shares the package and only narrows names",
  "Selecting a sub-directory of a package yields a view of the same file table and the same data access whose workspace is the original workspace joined with the directory, provided some file lies in it; enumeration of a view yields exactly the files inside its workspace with workspace-relative names and stops when the callback asks to; a union's sub-directory contains the views of exactly the packages having that directory, in order.",
  ["inputs", "programs"], "all nesting of sub-directories and tables",
  "tests use one level only",
  ["wpk.go", "union.go"], [("Package.Sub, Enum, Union.Sub", "wpk.go, union.go")])
p("C31", "Packages, unions and opened files satisfy the fs contracts by type",
  "A package and a union implement all of the standard library's file system interfaces (open, sub, stat, glob, read-dir, read-file), directories they open implement directory files, files opened by each access module are random-access readable and seekable files, tagsets are file information, directory entries and time specifications, and each access module's accessor is a closable opener of tagsets.",
  ["programs"], "all uses through the interfaces",
  "tests call methods directly; a lost method breaks only code that type-asserts",
  ["wpk.go", "union.go", "dir.go", "tagset.go", "bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go"], [("method sets", "all")])
p("C32", "Packing, renaming and aliasing never replace another file",
  "Packing under an existing name, renaming or aliasing to an existing name fails with 'file already exists' and leaves the table and the data stream untouched, and renaming or aliasing a missing name fails with 'file does not exist'; the check and the insertion of a packed file are one exclusive step, so of two concurrent packers of the same name one fails. Renaming a directory never replaces an existing entry either.",
  ["histories", "schedules", "inputs"], "all sequences and interleavings of packing, renaming, aliasing",
  "tests never collide names",
  ["writer.go"], [("existence checks", "writer.go")])
p("C33", "Recorded location, name and table key of a file always agree",
  "A packed file's recorded offset is the stream position before its first byte, its recorded size the number of bytes copied, and its recorded name the full name under which it is stored in the table; renaming and aliasing change only the recorded name, to the key under which the entry is then stored, keep every other tag, and a rename removes the old key and adds the new one while an alias only adds.",
  ["inputs", "histories"], "all files, names, workspaces and sequences of operations",
  "tests check a few names in the root workspace",
  ["writer.go", "wpk.go"], [("BaseTagset, PackData, PackFile, Rename, RenameDir, PutAlias", "writer.go, wpk.go")])
p("C34", "The whole-package pseudo file spans the whole data file",
  "Opening the special whole-package name on a package gives access to the bytes from 0 to the end of its data area; on a union the same name followed by a slash and a decimal index opens that package's, and an index that is not a number or not below the number of packages is reported as an error without a crash.",
  ["inputs", "configurations"], "all names beginning with the special name",
  "no test opens the pseudo file",
  ["wpk.go", "union.go"], [("Open", "wpk.go, union.go")])
# ---------------------------------------------------------------- tools and scripting
p("C35", "Extraction never writes outside the destination directory",
  "For every package content the extract utility creates directories and files only at paths inside the given destination directory; an entry whose name would lead outside (absolute, or with parent references) is rejected with an error before anything is created for it.",
  ["inputs"], "all file names a package may contain",
  "no tests for the utility; hostile names are never produced by the packer",
  ["cmd/extract/extract.go"], [("readpackage", "cmd/extract/extract.go")])
p("C36", "Extraction writes complete files and restores times after closing them",
  "For every entry of the package the extract utility copies the whole nested file into a created-or-truncated destination file of the entry's name; with time restoring requested, access and modification times come from the respective tags, are applied only if both are present, and are applied after the destination file is closed. Data of a split package is taken from the data file next to the header file.",
  ["inputs", "configurations"], "all packages, options",
  "no tests for the utility",
  ["cmd/extract/extract.go"], [("readpackage, openpackage", "cmd/extract/extract.go")])
p("C37", "Scripts cannot change a file's recorded location or name through tags",
  "Every scripting operation that sets, adds or deletes tags, singly or by table, refuses the offset, size and name tags with an error whichever way the tag is designated (number or name), and leaves the file's tagset unchanged in that case.",
  ["programs", "inputs"], "all scripts and tag designations",
  "the test scripts never try protected tags",
  ["luawpk/luawpk.go", "luawpk/nametid.go"], [("ErrProtected checks", "luawpk")])
p("C38", "Every failure inside a scripting call is raised as a script error",
  "Whenever an operation invoked by a script fails (unknown file, bad tag, conversion error, closed or already open package, I/O error), the call raises a script error with that failure's message instead of returning normally, and a call that succeeds raises none; a tag value that cannot be converted is reported rather than skipped.",
  ["programs", "fault_sequences"], "all scripting calls and failures inside them",
  "test scripts succeed throughout",
  ["luawpk/luawpk.go", "luawpk/luapath.go", "luawpk/runlvm.go", "luawpk/nametid.go"], [("deferred RaiseError", "luawpk")])
p("C39", "Automatic digests cover the whole file with the right algorithm and tag",
  "When a script enables an automatic checksum or signature, each packed file gets under the tag of that algorithm the value computed with exactly that algorithm over the complete packed content from its first byte, keyed with the package secret for the signatures; a tag already present is kept, a disabled algorithm adds nothing, and every algorithm is governed by its own switch.",
  ["inputs", "configurations"], "all switches and files",
  "one test script enables a subset and no test verifies a digest",
  ["luawpk/adjusttags.go", "luawpk/luawpk.go"], [("adjust* functions", "luawpk/adjusttags.go")])
p("C40", "Every documented script property and method is bound to its own state",
  "Every property and method listed in the scripting documentation is available under its documented name; each read-write property's setter changes exactly the value its getter returns, no two properties share state, getters change nothing, and getter-only properties have no setter.",
  ["programs"], "all properties and methods",
  "test scripts use a third of the interface",
  ["luawpk/luawpk.go", "luawpk/luapath.go", "luawpk/runlvm.go", "testdata/api.lua"], [("propertiesPack, methodsPack, pathfuncs", "luawpk")])
p("C41", "Tag names, numbers and types are one consistent table",
  "Every predefined tag has a documented name and a value type, names and numbers map onto each other so that every name leads to the documented number, and the name reported for a tag is always the same one and leads back to that tag; for each value type the script-to-tag conversion produces an encoding the tag-to-script conversion of the same type accepts, and unconvertible script values are errors.",
  ["inputs", "programs"], "all tags and value types",
  "test scripts use a few tags; the name reported for tags with two names depends on map order",
  ["luawpk/nametid.go", "wpk.go", "testdata/api.lua"], [("TidType, NameTid, TidName, ValueToTag, TagToValue", "luawpk/nametid.go")])
p("C42", "Scripts write only to an open package and leave no half-open state",
  "Script operations that write files, publish or flush are refused with an error unless the package was begun or resumed, starting or loading while open is refused, and flushing is refused for single-file packages; data goes to the data file if there is one and to the header file otherwise. A failed attempt to open the package files leaves the object as not open, so it can be retried, and finalising closes both files and marks the package closed.",
  ["histories", "fault_sequences"], "all orders of script calls, with failures to open",
  "test scripts follow the one valid order and never fail to open",
  ["luawpk/luawpk.go"], [("wpt/wpf checks", "luawpk/luawpk.go")])
p("C43", "Automatic file identifiers are never reused within a package",
  "With automatic identifiers switched on, every file packed without an explicit identifier gets one that this package object has not given automatically to another file and that no file of the package had when it was loaded (as long as the counter has not run through its whole range; identifiers the script assigns itself are its own responsibility).",
  ["histories"], "all sequences of load, append and packing calls",
  "the tests load and append but do not compare identifiers",
  ["luawpk/adjusttags.go", "luawpk/luawpk.go"], [("fidcount", "luawpk")])
p("C44", "Environment references are resolved from the given map first, at every place",
  "When expanding environment references in a path, every reference in every supported form and at every position, including the end, is looked up first in the map given by the caller and only if absent there in the process environment; a reference found in neither is left in the result verbatim, and the result contains nothing but copied path text and values.",
  ["inputs"], "all paths, maps and environments",
  "examples cover a dozen strings and give the map once",
  ["util/strutil.go"], [("Envfmt", "util/strutil.go")])
p("C45", "Results and package files never depend on map iteration order",
  "Given the same operations and inputs, listings, reported names and the bytes of a published package are the same on every run: nothing observable is derived from the order in which a hash map happens to be traversed.",
  ["histories", "inputs"], "all map traversals in library, scripting module and utilities",
  "map order is randomised per traversal; a test sees one order and compares as sets",
  ["dir.go", "union.go", "wpk.go", "luawpk/nametid.go", "luawpk/luawpk.go"], [("ordered table, sorted listings", "util/seqmap.go, dir.go")])
p("C46", "Path joining and normalisation behave byte-exactly",
  "Joining two path parts returns the other part when one is empty or '.', and otherwise the two parts with exactly one separator at the joint and nothing else changed. The slash and case normalisers replace exactly the bytes they are for (backslash by slash, ASCII letters by the other case) and keep length and all other bytes.",
  ["inputs"], "all byte strings",
  "examples cover a few strings",
  ["util/strutil.go"], [("JoinPath, JoinFilePath, ToSlash, ToLower, ToUpper, ToKey", "util/strutil.go")])
p("C47", "The package description is available whenever a package was published with one",
  "A description set on a package is written with it and returned after opening the package by any reader, also when the package contains no files; a package without a file table (never published) has an empty description for every reader, and reading the description does not depend on the entry count.",
  ["configurations", "histories"], "all packages including empty and split ones",
  "the only description test reads an empty package through one of the readers",
  ["wpk.go"], [("OpenStream, GetPackageInfo", "wpk.go")])
p("C48", "Lookup by name always finds the entry's own value, in insertion order",
  "After any sequence of insertions, replacements, removals and resets the container returns for each key the value last stored under it, reports exactly the keys present, and enumerates them once each in the order of first insertion; removing one entry disturbs no other.",
  ["histories"], "all sequences of container operations",
  "tests perform one deletion",
  ["util/seqmap.go"], [("seq/idx maintenance", "util/seqmap.go")])
p("C49", "The utilities store file type tags derived from the real content",
  "When the type of a packed file is not known from its extension, the pack utility and the scripting module determine it from the leading bytes of the packed file itself, read from its start, and an explicitly given or already stored type is kept by the scripting module.",
  ["inputs"], "all files with unknown extensions",
  "no test packs a file with unknown extension and checks its type",
  ["cmd/pack/pack.go", "luawpk/adjusttags.go"], [("MIME sniffing", "cmd/pack/pack.go, luawpk/adjusttags.go")])
p("C50", "A split package stays readable at every moment of being extended",
  "While files are added to a split package, and at every point during publication, the header file on disk describes a complete earlier or the new state: the table bytes the current header points to are never overwritten before a header pointing elsewhere is in place.",
  ["crash_points"], "every interruption point while extending a split package",
  "tests never interrupt publication",
  ["writer.go"], [("Sync", "writer.go")])
p("C51", "Round trip of arbitrary content through pack and extract is the identity",
  "Packing any directory tree and extracting the package reproduces every file byte for byte.",
  ["inputs"], "all directory trees",
  "tests use five files",
  ["cmd/pack/pack.go", "cmd/extract/extract.go", "writer.go"], [("PackFile, Enum, OpenTagset", "writer.go, wpk.go")])
p("C52", "A published package survives power loss",
  "Once publication has returned successfully the package is readable after a power failure.",
  ["crash_points"], "power loss at any moment after publication",
  "cannot be simulated by unit tests",
  ["writer.go"], [("Sync", "writer.go")])
p("C53", "Concurrent readers see a consistent table while it is being extended",
  "A reader using the package while other goroutines pack, rename or publish sees each rename and publication either completely or not at all.",
  ["schedules"], "all interleavings of readers and writers",
  "tests are sequential",
  ["wpk.go", "writer.go"], [("SeqMap, FTT.mux", "util/seqmap.go, wpk.go")])
p("C54", "Glob lists exactly the matching names, and reports malformed patterns",
  "Globbing a package or a union gives exactly the names, relative to the workspace, that path.Match of the normalised pattern accepts, each once: those of a package in the order of its table, those of a union in the order of its list. A malformed pattern is reported whatever files there are, and without names; nothing else makes globbing fail.",
  ["inputs"], "all patterns, tables, workspaces and lists of packages",
  "tests glob a handful of patterns in one package; what is missed depends on the pattern, on the table and on the workspace",
  ["wpk.go", "union.go"], [("Package.Glob, Union.Glob", "wpk.go, union.go")])
p("C55", "File information tells one consistent story",
  "Everything a tagset tells about a file agrees with its tags and with itself: the path, the base name, the offset and the size are those of the recorded tags; it is a directory exactly when no size is recorded, and the directory query, the mode and the type of a directory entry all say the same, the type having nothing but type bits and none for a file; an entry's information is the entry itself. Files of directories describe themselves, give no content without an error, and can be closed without effect.",
  ["inputs"], "all tagsets, complete or not",
  "tests print a name and a size; disagreements show in generic code that walks file systems",
  ["tagset.go", "dir.go", "union.go"], [("TagsetRaw as FileInfo and DirEntry, PackDirFile, UnionDir", "tagset.go, dir.go, union.go")])
p("C56", "Reading an opened directory by portions gives every entry exactly once",
  "Successive readings of one opened directory of a package or union, with any mixture of limits, continue each where the one before has ended: together they give every entry of the directory's listing exactly once and in its order. With a positive limit at most that many entries are returned, an empty portion comes only with the end of directory, and the end is reported only when nothing is left; without a limit all that is left is returned without an error. An opened directory begins with its first entry.",
  ["inputs", "histories"], "all sequences of readings with all limits, all directories",
  "tests read a directory once and without a limit",
  ["dir.go", "union.go"], [("PackDirFile.ReadDir, UnionDir.ReadDir", "dir.go, union.go")])
p("C57", "Whatever can be opened has information, and files come before directories",
  "Opening by name and asking for information by name, on a package, a view of it or a union, find the same names: a name is reported missing only if no package asked has a file of this name and none has a file inside of a directory of this name. A directory is given only if there is no file of the same name in any of them and at least one file inside of it, and it is given under the path its name stands for in the package's workspace.",
  ["inputs", "configurations"], "all names, tables, workspaces and lists of packages",
  "tests ask for information of files only",
  ["wpk.go", "union.go", "dir.go"], [("Open and Stat of Package and Union, OpenDir", "wpk.go, union.go, dir.go")])
p("C58", "Script functions compute the documented results of their arguments",
  "Each function of the path library and each global function of scripts gives exactly the documented result of its arguments in their roles: the path functions that of the given path, match the name of argument 1 against the pattern of argument 2, join all arguments in order, split both parts, glob and enum every name once and in order (enum those of the directory, up to the limit of argument 2, none being no failure), bin2hex and hex2bin the two directions, milli2time and time2milli the time of the given milliseconds and back with the layout of argument 2 or the documented default, checkfile whether the path exists, whether it is a file, or the error. hasfile, filesize, glob, sumsize, tagnum and datasize of a package answer about the asked name or about all entries. A started script finds all these names and its own directory, it is the one that was asked for, and its failure is returned.",
  ["inputs"], "all arguments of scripts, all tables",
  "no test runs the path library, the conversions or the questions about packages",
  ["luawpk/luapath.go", "luawpk/runlvm.go", "luawpk/luawpk.go"], [("script functions", "luawpk/luapath.go, luawpk/runlvm.go, luawpk/luawpk.go")])
p("C59", "The utilities work on everything they are given, under the right names",
  "The pack utility goes over all source folders in the order given and packs every file that is not a directory exactly once, with the content of the file of this path below its source, under its slash-separated path relative to the source, storing the path of the original file exactly when that is asked for; nothing is skipped without a failure, the package and, when splitting, its data part are written to the files the destination stands for, and the table is written only after all sources. Each source path given to the pack and extract utilities, environment variables expanded, is either listed or counted as an error that prevents the work; the work never begins without any source, and the destination is the one given. The extract utility opens every listed package one after another. The build utility runs every script given to it in order and stops at the first that fails.",
  ["inputs", "configurations"], "all command lines, all trees of files",
  "no test runs the utilities",
  ["cmd/pack/pack.go", "cmd/extract/extract.go", "cmd/build/build.go"], [("writepackage, checkargs, readpackage, main", "cmd/pack/pack.go, cmd/extract/extract.go, cmd/build/build.go")])
p("C60", "Script tag functions act on exactly the tags they are told to",
  "The script functions on tags look up and edit exactly the tag whose identifier is given in the tagset of the file given: hastag and gettag answer for it, settag, addtag and deltag change it to the value given and store the result, and what they give back tells the outcome. The functions on tables of tags act on every entry of the table, each once, with its own identifier and value, store the result and count what they have changed; gettags gives every tag of the file under its own name or number. Package information is set from exactly the table given, and getinfo gives all of it but identifier and path. An error is raised only for a bad or protected identifier, a bad value or an absent file.",
  ["inputs", "histories"], "all script arguments, tables, tagsets and packages",
  "the scripts of the tests set one or two tags and never read them back",
  ["luawpk/luawpk.go"], [("wpkhastag ... wpksetupinfo", "luawpk/luawpk.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
