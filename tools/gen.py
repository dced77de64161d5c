#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, tech, note, level="exploration", state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, tech=tech, note=note, level=level, state=list(state), hook=hook))

D = "src/disk/"
MODEL = "Assurance by exploration of seeded random histories on the real crate (8 geometries (D64 of 35 and 40 tracks, D71, D81, each with and without error table), memory- and file-backed, blank, populated and fragmented images), judged after every operation by an independent decoder of the CBM formats and a model. Trusts the decoder/model; at most one writer per file; no proof for histories not generated."

p("C01", "File contents survive exactly as written",
  "Whatever sequence of bytes is written to a file - at creation or by appending later, in chunks of any size, with flushes anywhere, and interleaved with other operations on the disk - reading the file back through any handle returns exactly those bytes in that order. The count returned by each write is the number of bytes that were really accepted, and an append never alters or loses what the file already held. When the disk fills up in the middle of a write, the bytes reported as accepted before that are still readable.",
  ["histories", "inputs", "configurations"], "every history of create/write/flush/close/append/read/rename/delete/reopen, every chunking and length, on D64 (35/40 tracks), D71, D81, with and without error table",
  "the tests write a handful of fixed-size files; block boundaries (254-byte multiples), partial tail blocks, append after reopen, interleaved writers and full disks are a product space they do not sample",
  [D+"chain.rs", D+"file.rs", D+"mod.rs"],
  [("chain writer: fills blocks of 254 bytes, links them, keeps the tail's length byte", D+"chain.rs ChainWriter"), ("chain reader", D+"chain.rs ChainReader/ChainIterator"), ("opening for append re-reads the tail block", D+"chain.rs ChainWriter::new")],
  ["File::writer / Write::write / flush / drop", "File::reader / Read::read", "the image bytes"],
  "model-based runtime monitor over random operation histories", MODEL)

p("C02", "An operation affects only the file it names",
  "Creating, writing, appending, renaming, deleting or changing the attributes of one file never changes the contents, name, type, attributes, size or existence of any other file on the disk, even with several files being written at the same time. Bytes of the image that belong to nothing the operation concerns - other files' sectors, free sectors it did not allocate, other directory entries, the disk's name and id, reserved bytes, the error table - stay as they were. Reading, listing and looking things up change nothing at all.",
  ["histories", "configurations"], "every history of operations, with up to six writers interleaved, every bystander file of any kind (plain, REL, GEOS)",
  "the tests check the file they just wrote; they never compare the rest of the image, and never interleave writers",
  [D+"chain.rs", D+"directory.rs", D+"bam.rs", D+"mod.rs", D+"block.rs"],
  [("position-addressed directory entry update", D+"directory.rs"), ("allocation only of free blocks", D+"bam.rs, "+D+"format.rs"), ("shared block device and BAM between writers", D+"mod.rs")],
  ["every byte of the image after every operation, attributed to its owner"],
  "byte-attribution monitor over random histories with interleaved writers", MODEL)

p("C03", "Free-space accounting is exact and disk-full is reported exactly when full",
  "The number of free blocks reported is always the number of blocks still allocatable outside the directory track: it falls by one for each block a file occupies and rises by exactly the blocks released by a deletion. A write or creation is refused as 'disk full' if and only if no allocatable block is left for it (or, for a directory, as full when no entry slot is left), and every free block can eventually be used. A file's recorded block count equals the number of blocks it occupies.",
  ["histories", "configurations"], "every history, especially at and around a completely full disk or directory, on fragmented disks of every geometry",
  "no test fills a disk after fragmentation, checks the free count after deletes of chains, or the last block",
  [D+"bam.rs", D+"format.rs", D+"chain.rs", D+"mod.rs"],
  [("BAM allocate/free with per-track counts", D+"bam.rs"), ("next free block search", D+"format.rs next_free_block*"), ("block count kept in the directory entry", D+"chain.rs increment_entry_blocks")],
  ["blocks_free()", "BAM bytes in the image", "errors of create_file/write", "file_size of entries"],
  "model-based accounting monitor (blocks conservation) over histories", MODEL)

p("C04", "No sector belongs to two owners, and the map agrees with reality",
  "At every moment every sector of the disk is used by at most one of: the header and allocation-map blocks, the directory, or exactly one file; no operation ever hands out a sector in use. After each operation completes (all writers flushed or closed) the sectors marked as used in the on-disk allocation map are precisely those reachable from the disk's structures, with per-track counts matching the bitmaps. The disk therefore always passes validation with no errors reported after any sequence of operations on a healthy disk.",
  ["histories", "configurations"], "every history of operations on every healthy image of any geometry, including GEOS disks and REL files",
  "tests call validate() on a few hand-made images; cross-linking after delete/reuse and interleaved allocation is a history property",
  [D+"bam.rs", D+"chain.rs", D+"mod.rs", D+"validation.rs", D+"file.rs"],
  [("allocation marks before linking", D+"chain.rs"), ("deletion frees every chain of the file", D+"file.rs, "+D+"mod.rs"), ("map flushed with every change", D+"bam.rs flush")],
  ["ownership recomputed from the image bytes by the independent decoder after each operation"],
  "ownership/conservation monitor recomputed from the image after each step", MODEL)

p("C05", "Completed changes persist and look the same after reopening",
  "Once an operation has completed (and writers were flushed or closed), everything a user can see - listing order, names, types, attributes, sizes, contents, disk name and id, free blocks - is identical when the image is opened anew, by any of the ways of opening it. Flushing or dropping a writer is enough: nothing lives only in memory, for images kept in a file as well as in memory, and a flush reaches the file's storage. File handles and writers keep working after the disk object they came from is gone.",
  ["histories", "configurations"], "every history, with reopens at any point, file-backed and memory-backed, handles outliving the disk",
  "existing tests keep a single disk object; cached header/BAM/directory state versus image bytes is never compared",
  [D+"mod.rs", D+"d64.rs", D+"d71.rs", D+"d81.rs", D+"image.rs", D+"block.rs", D+"header.rs"],
  [("writers flush data, entry and BAM on flush and drop", D+"chain.rs Drop"), ("memory-mapped file flushed", D+"image.rs"), ("reference-counted block device and BAM", D+"block.rs")],
  ["the whole user-visible view through the live disk and through a fresh open of the same bytes", "msync calls issued on the image's mapping"],
  "differential monitor: live view vs fresh reopen vs model", MODEL)

p("C06", "Validation reports exactly the problems the image has",
  "Validating a disk image reports exactly the problems it has: system sectors (header, allocation map, directory) marked free, sectors marked used that belong to nothing, sectors a file uses though they are marked free, sectors used by two files, and files whose structure cannot be followed (links to sectors that do not exist, loops, damaged REL or GEOS structures). Each problem is reported with its sector and the file concerned, and an image without such problems is reported clean. Validation never modifies the image.",
  ["inputs", "configurations"], "every image: healthy images of every geometry with files of all kinds, and any combination of injuries to allocation map, chains, directory, REL side sectors, VLIR indexes, GEOS info blocks",
  "a few hand-made images cannot cover combinations of injuries; false positives on unusual healthy disks are not tested",
  [D+"validation.rs", D+"bam.rs", D+"file.rs", D+"chain.rs"],
  [("walk of every file's occupied sectors into an owner map", D+"validation.rs"), ("comparison with the BAM", D+"validation.rs")],
  ["the result of validate() against a reference validator on the same bytes", "image bytes before and after"],
  "differential oracle: independent reference validator on injured images",
  "Exploration of seeded random images with 0-6 injuries. Trusts the reference validator's reading of the documented error kinds.")

p("C07", "No image or argument makes the library crash or hang",
  "Whatever bytes a disk image contains - random, truncated structures, loops, links out of range, absurd record lengths - every operation of the library (open, list, look up, read, dump, validate, create, write, append, rename, delete, read records, GEOS conversion, format) ends in a result or an error, in time proportional to the image. It never panics, aborts, overflows, or loops forever. Reading or writing a sector that the geometry does not have, or with data that is not exactly one sector, is refused.",
  ["inputs", "histories"], "every image byte content of every valid size and every operation with in-range or out-of-range arguments",
  "tests use well-formed images only",
  [D+"chain.rs", D+"directory.rs", D+"file.rs", D+"bam.rs", D+"validation.rs", D+"geos/mod.rs", D+"geos/file.rs", D+"geos/reader.rs", D+"header.rs", D+"block.rs", "src/petscii.rs", "src/sprite.rs"],
  [("loop detection in chains", D+"chain.rs"), ("bounds checks on locations", D+"block.rs, "+D+"bam.rs"), ("checked parsing of entries", D+"directory.rs")],
  ["panics, overflow and bounds traps (debug assertions on), block-access budget, CPU time per case"],
  "hostile-input stress with panic/overflow traps and progress watchdog",
  "Exploration with hostile images; termination decided by a budget of 5 million block accesses and 90 s CPU per case. Locations passed directly to the block allocator outside the geometry are API misuse and excluded.")

p("C08", "A disk opened read-only is never modified",
  "When an image is opened without write permission, no operation - create, append, write, rename, delete, attribute or header change, flush, format - changes a single byte of the image file, and each attempt at an otherwise valid change is refused with an error saying the disk is read-only. What is visible through the library stays unchanged after such attempts, and all reading operations still work. The same image opened for writing afterwards is intact.",
  ["histories", "inputs"], "every mutating operation on every image, opened read-only by any of the ways of opening",
  "one test checks one operation on one format",
  [D+"mod.rs", D+"block.rs", D+"image.rs", D+"d64.rs", D+"d71.rs", D+"d81.rs", D+"bam.rs"],
  [("writability check before every change", D+"block.rs check_writability"), ("read-only mapping", D+"image.rs")],
  ["file bytes before/after", "error kinds", "directory, contents, free blocks as seen through the API before/after"],
  "read-only fault monitor: file bytes and visible state compared around each refused mutation",
  "Exploration. The process has write permission on the file so only the crate protects it. The file is checked byte by byte after each attempt.")

p("C09", "A failed operation leaves everything as it was",
  "When an operation reports failure - name exists, name too long, file not found, disk or directory full, damaged file, read-only - the disk is in the same state as before it: same files, same contents, same free space, nothing allocated and nothing half-created or half-deleted. This holds on the image as well as in what the open disk object shows, and the disk remains fully usable afterwards. The only exception is a write that fills the disk: it keeps the bytes it reported as written.",
  ["histories", "fault_sequences"], "every failing operation at any point of every history",
  "tests check that errors are returned, not that nothing changed",
  [D+"mod.rs", D+"directory.rs", D+"chain.rs", D+"file.rs", D+"bam.rs"],
  [("checks before the first change", D+"mod.rs create_file/rename/delete"), ("all-or-nothing deletion", D+"mod.rs, "+D+"file.rs")],
  ["semantic state of the image and API view before and after each failure"],
  "before/after state monitor around every failing operation", MODEL)

p("C10", "The directory behaves as a set of uniquely named entries",
  "After any history the listing shows exactly the files created and not deleted, each once, under its current name, type, attributes and block count, in directory order; names are unique, up to 16 characters, compared ignoring trailing padding. Creating or renaming to an existing name is refused as already existing, to an over-long name as too long, and operating on an absent name as not found; renaming or deleting affects only that entry. If an image made elsewhere holds several files of one name, all of them are listed, the first listed one answers to the name, and each operation touches exactly one of them. Slots freed by deletion are reused and the directory grows on its track until its capacity (144 entries on D64/D71, 296 on D81), after which creation is refused.",
  ["histories", "inputs"], "every history of create/rename/delete/attribute changes with any names in PETSCII, up to the last directory slot",
  "tests create a few files; capacity limits, slot reuse and damaged-slot skipping are not sampled",
  [D+"directory.rs", D+"mod.rs"],
  [("directory iteration by chain", D+"directory.rs"), ("next_free_directory_entry", D+"mod.rs"), ("check_filename_availability", D+"mod.rs")],
  ["directory(), iter(), find_directory_entry(), errors of create_file/rename/delete", "directory sectors of the image"],
  "model-based directory monitor, entry by entry", MODEL)

p("C11", "Formatting always yields the same pristine empty disk",
  "Formatting an image of any geometry, whatever it contained before, produces a valid empty disk with the given name and id: empty directory, correct DOS version and format bytes, correct allocation map (664 blocks free on a D64 of 35 or 40 tracks, 1328 on a D71, 3160 on a D81), validating without errors, with every block usable. The result depends on nothing but geometry, name and id: every byte is what formatting an empty image gives, all data sectors zero, and the error table is not damaged. A refused format (name too long, read-only) leaves the disk untouched.",
  ["inputs", "configurations"], "every prior content, every name and id, every geometry",
  "tests format blank images with one name",
  [D+"d64.rs", D+"d71.rs", D+"d81.rs", D+"header.rs", D+"bam.rs", D+"mod.rs"],
  [("write_format", D+"d64.rs/d71.rs/d81.rs"), ("header and BAM templates", D+"header.rs, "+D+"bam.rs")],
  ["bytes of header, BAM and directory sectors after formatting", "API view after formatting and after reopening"],
  "reference-image comparison after formatting over arbitrary prior contents",
  "Exploration over random prior images, names, ids.")

p("C12", "Block allocation follows the CBM DOS strategy",
  "The first block of a new file and each following block are chosen by the documented CBM strategy for the format: the first on the free track nearest the directory track (the lower one first), the following ones at the format's interleave on the same track, then on the next track away from the directory, then on the other half and finally back on the first half; disks in GEOS format follow the GEOS rule (upwards, with its own skew). File data never goes to the directory track or to a D71's track 53, and the directory only grows on its own track. The choice depends only on the allocation map and the previous block, and a block is found whenever a free one exists.",
  ["inputs", "histories"], "every allocation map and every previous block of every geometry",
  "the tests pin a few allocations on empty disks",
  [D+"format.rs", D+"bam.rs", D+"chain.rs"],
  [("first_free_block / next_free_block", D+"format.rs"), ("interleave per format", D+"d64.rs, d71.rs, d81.rs")],
  ["each allocated location, in order, from the image and by direct query"],
  "reference-allocator comparison on random maps and histories",
  "Exploration over random allocation maps. Trusts the reference transcription of the strategy (alloc.rs).")

p("C13", "Geometry, sector addressing and image-file handling are exact",
  "Each image format has exactly its documented tracks and sectors, every (track, sector) maps to its own 256 bytes at the documented offset, and reads and writes of a sector touch only these bytes; addresses outside the geometry are refused. Image files are recognised by their exact size (with or without error table), wrong sizes are refused, and opening never alters the file. Creating an image makes a file of the right size, refuses to overwrite when asked to create a new one, and the error table is preserved and reported per sector.",
  ["inputs", "configurations"], "all sectors of all geometries, all file sizes near and far from the valid ones, all ways of opening/creating",
  "tests check a few offsets",
  [D+"block.rs", D+"format.rs", D+"image.rs", D+"d64.rs", D+"d71.rs", D+"d81.rs", D+"mod.rs"],
  [("location to offset mapping", D+"block.rs"), ("geometry tables", D+"d64.rs etc."), ("size detection", D+"mod.rs open")],
  ["every sector through the API vs file bytes", "error kinds"],
  "pattern-image differential monitor over every sector and every way of opening",
  "Exploration; every case enumerates all sectors of its geometry.")

p("C14", "On-disk encodings are read and written losslessly",
  "Directory entries, the disk header and the allocation map are decoded as the documented format says (type, including its three-letter names, flags, name, start, size, record length, side sector, GEOS type, structure, date, info block; disk name, id, DOS version, GEOS border; free counts and bitmaps). Any of them read from an image and written back unchanged leaves every byte of the image unchanged, including bytes whose meaning is unknown (except the header's fixed padding bytes, which are set to the documented value). Changing one field and writing back changes exactly that field's bytes.",
  ["inputs"], "every 32-byte entry, every header block, every allocation-map content",
  "tests round-trip a few entries",
  [D+"directory.rs", D+"header.rs", D+"bam.rs", D+"geos/mod.rs"],
  [("from_bytes/to_bytes pairs", D+"directory.rs, header.rs, bam.rs, geos/mod.rs")],
  ["image bytes before/after write-back", "public fields against a reference decoding"],
  "decode/encode differential monitor on random encodings",
  "Exploration of random and adversarial encodings with a reference decoding of each field.")

p("C15", "REL files give every record, and only valid records",
  "For every REL file, of any record length (1-254) and size up to six side sectors, the record count and each record returned are exactly the file's data cut at the record length, also for records spanning sector boundaries; record numbers beyond the end are refused. Sectors it occupies - data and side sectors - are all known to validation, freed by deletion, and its record length and side sector survive rename. A malformed REL structure - side sectors or their lists that disagree with each other or with the file's data chain, a length that does not fit the records - produces an error, never wrong data from outside the file.",
  ["inputs", "configurations"], "every record length and count, well-formed and damaged side sectors",
  "one sample REL file at most",
  [D+"file.rs", D+"directory.rs", D+"validation.rs"],
  [("side sector walk", D+"file.rs RelativeFile"), ("record offset arithmetic", D+"file.rs record()")],
  ["record_count()/record(i)", "occupied sectors", "image after rename/delete"],
  "reference-decoder comparison on generated REL files",
  "Exploration over generated REL files. Trusts the reference decoder.")

p("C16", "GEOS files are read faithfully and convert losslessly",
  "For every GEOS file, sequential or VLIR, the type, structure, timestamp and info block (icon, class, author, description, addresses) shown are those on disk, and each VLIR record is returned exactly, a missing one as empty, up to the last one. The Convert stream produced for a file is the documented encoding of directory entry, info block, record table and records, identical whatever read sizes the caller uses. Border-block entries are listed, and deleting a GEOS file frees info block, index and every record's sectors and nothing else.",
  ["inputs", "configurations"], "every GEOS file layout: 0-127 records, missing records, any record sizes, any reader chunking",
  "one or two sample images at most",
  [D+"geos/mod.rs", D+"geos/file.rs", D+"geos/reader.rs", D+"directory.rs", D+"header.rs"],
  [("VLIR index parse", D+"geos/file.rs"), ("Convert reader state machine", D+"geos/reader.rs"), ("info block", D+"geos/mod.rs")],
  ["record(), info(), reader output for random chunk sizes, image after deletion"],
  "reference-encoder comparison on generated GEOS disks",
  "Exploration over generated GEOS files. VLIR records of zero bytes are outside the generated space.")

p("C17", "PETSCII translation is total, consistent and reversible",
  "Every PETSCII byte is shown as the character the published table gives it, or as the replacement character where it has none; every Unicode character becomes a PETSCII byte that is shown as that character, or the fixed substitute code where there is none, so text that survived one conversion survives any number of them. Padding is stripped and added only at the end, a text that does not fit is refused without touching the destination, and equality, length and iteration agree with the bytes. A disk id made from text or bytes takes the first two of them, with zero bytes for missing ones. No string makes a conversion fail.",
  ["inputs"], "all 256 PETSCII codes, all 1.1 million Unicode scalar values, all strings",
  "tests convert a few strings",
  ["src/petscii.rs"],
  [("mapping tables", "src/petscii.rs"), ("padding helpers", "src/petscii.rs")],
  ["conversions both ways for every code point and random strings"],
  "exhaustive code-point sweep plus random strings against a pinned table",
  "All single code points are enumerated in case 0 of each run; strings are explored at random.")

p("C18", "The cdisk command does what it says, or fails and says so",
  "Each cdisk command (create, format, dir at every verbosity, read, write, append, rename, delete, dump, validate, bam show, bam allocate, bam free, geosread) has exactly the effect on the image, the files and the output that its description states, and exits 0. A command that cannot do its work (the file is absent, the source cannot be read, the output cannot be written) exits with a failure status and a message and leaves the image unchanged (except for what was stored before the disk became full).",
  ["histories", "inputs"], "every sequence of command lines over every image",
  "there are no tests of the command-line program",
  ["src/bin/cdisk.rs"],
  [("argument dispatch", "src/bin/cdisk.rs main"), ("exit status on error", "src/bin/cdisk.rs")],
  ["exit status, stdout/stderr, image and output files after each process"],
  "process-level model-based monitor of command histories",
  "Exploration of random command sequences, run as processes in a scratch folder. Renaming a file to its own name is not judged.")

p("C19", "A crash at any point never corrupts other files",
  "If the process dies between any two block updates of any operation, the image left behind still opens, and every file the operation does not concern is there byte for byte, with its sectors, like those of the directory, still marked as used. The file concerned is as before or as after the operation - a file being written holds what it held plus a prefix of what was written since, a new one is empty, a renamed one has exactly one of its names, a deleted one is intact or gone. No sector is ever shared by two files or with the directory.",
  ["crash_points", "histories"], "every block write of every operation of every history",
  "no test interrupts an operation",
  [D+"chain.rs", D+"mod.rs", D+"bam.rs", D+"directory.rs", D+"file.rs"],
  [("order of block updates: allocate, link, entry; entry removed, then freed", D+"chain.rs, "+D+"mod.rs")],
  ["the image at every block-write hook"],
  "fault enumeration: image judged at every block-write crash point",
  "Every block write of the explored histories is enumerated as a crash point. Crash = process death between block accesses; blocks are updated as a whole; no reordering by power loss.", level="fault_enumeration",
  hook="block write hook (src/verif_hooks.rs, cfg cbm_verif)")

p("C20", "What the library prints about an image is what the image holds",
  "Every textual rendition - hex dump of sectors and error table, dump of a file and its records, the allocation map, directory listing lines (short and detailed), the details of a file including a GEOS info block, the disk header line, icons drawn as text - shows exactly the bytes, names, flags, counts and pixels of the image, completely and in order, so that they can be read back from the text. Producing it changes nothing.",
  ["inputs"], "every image, file and sprite content",
  "tests print a few fixed examples",
  [D+"mod.rs", D+"file.rs", D+"bam.rs", D+"directory.rs", D+"header.rs", "src/util/mod.rs", "src/sprite.rs"],
  [("hex formatter", "src/util/mod.rs"), ("Display/Debug impls", D+"directory.rs, bam.rs, header.rs"), ("sprite quadrant rendering", "src/sprite.rs")],
  ["printed text parsed back and compared with the bytes"],
  "parse-back oracle on every printed rendition",
  "Exploration of random and well-formed images.")

p("C22", "The disk object always reflects its image after initialize() or format",
  "When the sectors under an open disk object have been replaced - another disk's sectors written, the allocation map or header edited, the disk formatted - then after initialize() (which formatting performs itself) everything the object reports and does (header, format, listing, contents, free blocks, choice of blocks, creating and writing files) is what a freshly opened object over the same bytes would report and do, byte for byte. A handle to the allocation map obtained before follows the new map instead of writing back the old one. A D71 whose header lacks the double-sided mark is unformatted: every operation that needs the header, directory or map is refused as unformatted, a handle to the old map is refused as invalid, nothing is changed, and formatting or restoring the header makes the disk usable again.",
  ["histories", "inputs"], "every sequence of outside changes and re-initializations, every geometry and image",
  "tests open an image once; none replaces sectors under an open disk, keeps a map handle across a format, or uses an unformatted disk",
  [D+"mod.rs", D+"bam.rs", D+"header.rs", D+"d64.rs", D+"d71.rs", D+"d81.rs"],
  [("Disk::initialize", D+"mod.rs"), ("set_bam replaces the shared map in place and invalidates it when unformatted", D+"mod.rs set_bam"), ("per-image format copy (GEOS)", D+"mod.rs, "+D+"bam.rs set_format")],
  ["listing, contents, header, blocks_free, allocation map text, next_free_block through old and new handles", "image bytes after the same writes through the long-lived and the fresh object"],
  "differential runtime monitor: long-lived disk object against a fresh one after every re-initialization",
  "Exploration; the fresh object is the reference, its own correctness is decided by the other properties.")

p("C23", "An error names its true cause and keeps it through every conversion",
  "Every failure the library reports carries the disk error that describes its cause - not found, exists, name too long, read-only, disk full, unformatted, bad location, wrong sector length, wrong image size, record out of bounds, non-linear access, unpositioned entry, chain loop, bad chain link - whichever operation hit it. Each disk error becomes an io::Error of its documented kind with its own message, comes back unchanged from that io::Error, equals it (in both directions) and no other; an io::Error from elsewhere is never taken for a disk error, and an error of the system (such as an absent image file) is passed on as it is. Validation problems print the sector and files they concern.",
  ["inputs", "faults"], "every disk error in every direction of conversion; every image and failing operation",
  "tests compare a few errors; nothing checks that all kinds survive conversion or that each operation reports the right one",
  [D+"error.rs", D+"validation.rs", D+"mod.rs", D+"directory.rs", D+"file.rs", D+"chain.rs", D+"block.rs"],
  [("conversion to and from io::Error", D+"error.rs"), ("check_filename_availability distinguishes NotFound from other failures", D+"mod.rs"), ("open() falls through the disk types on layout errors only", D+"mod.rs open")],
  ["DiskError, io::ErrorKind and message of every failure", "image unchanged by failures"],
  "exhaustive table of conversions plus runtime monitor over provoked failures",
  "Conversions: all errors, exhaustively. Causes: exploration of failing operations on random images. The out-of-range record of a GEOS sequential file is only required to be refused.")

p("C24", "Damage is reported, never papered over",
  "When a file's sector chain or the directory is damaged (a loop, a link to a sector that does not exist, an end marker without length), reading delivers exactly the bytes in front of the damage and then the error that names it - never a normal end of file, bytes from elsewhere or missing bytes - whatever the sizes of the reads; this includes the Convert stream of a GEOS file. A listing shows exactly the entries in front of the damage and then the error; looking a name up that is not among them reports the damage and not 'not found'; creating, renaming and validating in such a directory, and appending to or deleting a damaged file, are refused without changing the image. An undamaged file on the same disk is read in full.",
  ["inputs", "faults"], "every image with any number of structural injuries, every file, every sequence of read sizes",
  "tests use intact images",
  [D+"chain.rs", D+"directory.rs", D+"file.rs", D+"mod.rs", D+"geos/file.rs", D+"geos/reader.rs"],
  [("error kept until the bytes before it are delivered", D+"chain.rs ChainReader"), ("loop detection", D+"chain.rs ChainIterator, ChainWriter::new"), ("listing yields errors", D+"directory.rs DirectoryIterator"), ("lookup stops at an error", D+"mod.rs find_directory_entry")],
  ["bytes and error of every read", "entries and error of the listing", "image bytes after refused operations"],
  "fault-injected images with an independent decoder as oracle of prefix and cause",
  "Exploration; trusts the harness's decoder. REL and VLIR records are judged under C15 and C16.")

p("C21", "No operation touches memory it does not own",
  "Under every healthy history and every hostile image, no operation reads or writes outside its buffers, uses freed or uninitialised memory, makes a value its type does not allow, or corrupts the heap or stack, including in the code that maps image files and the code marked unsafe.",
  ["inputs", "histories"], "every history and every image content",
  "tests run without a sanitizer and on well-formed images",
  [D+"image.rs", D+"block.rs", D+"chain.rs", D+"bam.rs", D+"directory.rs"],
  [("slices and bounds checks", D+"block.rs"), ("memory-mapped image lifetime", D+"image.rs")],
  ["AddressSanitizer reports", "Miri reports"],
  "AddressSanitizer and Miri on healthy and hostile workloads",
  "Exploration under AddressSanitizer (nightly), plus healthy and hostile images under Miri. Overreads inside a mapped file's last page are invisible to it; memory-backed images run the same code.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"],
            quantifier=dict(over=x["over"], text=x["qtext"]), why_tests_cant=x["why"],
            anchors=dict(files=x["files"], state=x["state"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]],
                         observe_at=x["observe"], hook_needed=x["hook"]))) + "\n")
m = dict(version=1, setup_cmd="./check.sh build",
  hooks=dict(guard="cbm_verif", enable='RUSTFLAGS="--cfg cbm_verif"', source_commits=["9abf88278ba96b12be8789a59feeb18b7b666a79"]),
  checks=[dict(property=x["id"], quick_cmd="./check.sh %s quick" % x["id"], thorough_cmd="./check.sh %s thorough" % x["id"],
               evidence_file="evidence/%s.json" % x["id"], technique=x["tech"], level=x["level"], level_note=x["note"]) for x in P],
  not_applicable=[])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
