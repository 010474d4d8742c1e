#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(text.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe, "hook_needed": None}})

L, H, B, PT, M, T, D = "src/lib.rs", "src/header/mod.rs", "src/header/builder.rs", "src/partition.rs", "src/mbr.rs", "src/partition_types.rs", "src/disk.rs"

p("C01", "Added partitions stay inside the usable range and never overlap",
  """Whenever adding a partition succeeds, automatically or at a caller-chosen position, all of its sectors lie inside
  the usable range that the disk's header declares when it is placed, and none of them belongs to another used partition.
  This holds after every history of adds, removals, table replacements, writes and reopens, for tables made by other tools that
  already contain overlapping or out-of-range entries, and for every size, alignment, start and length argument.""",
  ["histories", "inputs"], "all operation histories up to a depth over small and very large disks, all argument values from boundary sets",
  "The tests add a handful of partitions in one order; overlap needs particular gaps, positions and earlier removals.",
  [L], [("free-sector computation", "src/lib.rs: find_free_sectors"), ("placement checks", "src/lib.rs: add_partition, add_partition_at")],
  ["partitions()", "add_partition / add_partition_at results"])

p("C02", "Automatic placement is exact aligned first fit",
  """Adding a partition by byte size gives it exactly the smallest number of blocks that holds the size, starting at the lowest
  sector that is a multiple of the requested alignment (none, or zero, meaning any sector) from which the whole partition fits in free usable
  space. It reports lack of space exactly when no such start exists. The new entry carries the given type, attribute bits and name and a
  freshly generated GUID that no other entry has.""",
  ["histories", "inputs"], "all gap patterns reachable by add/remove histories, all sizes and alignments in range, both block sizes",
  "Tests use two sizes, no alignment argument and no fragmented free space.",
  [L], [("first fit with alignment", "src/lib.rs: add_partition"), ("free-sector computation", "src/lib.rs: find_free_sectors")],
  ["add_partition result", "partitions()"])

p("C03", "Explicit placement is honoured exactly or refused",
  """Adding a partition at a caller-chosen number, start and length either creates an entry with exactly that number, start, length, type,
  attribute bits and name and a freshly generated GUID, or fails and says why: a number held by a used partition is refused as already used, otherwise a range that is not wholly
  free and usable is refused as lack of space. On tables of at least 128 entries it succeeds whenever the table has a spare entry, the number is unused and within the
  entry count and every sector of the range is free and usable.""",
  ["histories", "inputs"], "all (number, start, length) triples around every boundary after all short histories",
  "Tests place one partition explicitly, at a position that is free.",
  [L], [("id and range checks", "src/lib.rs: add_partition_at")], ["add_partition_at result", "partitions()"])

p("C04", "The free-space report is exact",
  """The reported free space is exactly the set of usable sectors that no used partition covers, given as maximal, non-empty, ascending,
  non-adjacent runs. Entries of the unused type take no space, and used entries that overlap each other or stick out of the usable range
  are accounted for correctly.""",
  ["histories", "inputs"], "all sets of up to four entries with arbitrary spans over a small usable range, plus all short histories and very large disks",
  "No test looks at the reported free space at all.",
  [L], [("gap walk", "src/lib.rs: find_free_sectors")], ["find_free_sectors()"])

p("C05", "Partition numbers are assigned and freed without touching other entries",
  """Adding without a number uses the lowest number from 1 up that no used partition holds, which is also the number announced beforehand
  as next (none is announced when every entry of the table is used). Removing by number, or by GUID (lowest-numbered match), takes away exactly that one
  entry and reports its number, or reports nothing when there is none. No add or removal ever drops, renumbers or alters any other used partition.""",
  ["histories"], "all add/remove/replace histories up to a depth, including nearly full, full and grown tables and sparse numbers",
  "Tests number partitions only by adding in sequence.",
  [L], [("next id", "src/lib.rs: find_next_partition_id"), ("insert/remove", "src/lib.rs: add_partition, remove_partition, remove_partition_by_guid")],
  ["partitions()", "find_next_partition_id()", "remove_* results"])

p("C06", "Write then reopen returns the same table",
  """After a successful write, opening the device again yields the current disk GUID (the one given at creation or last set, also when changed since the last write) and, numbered 1, 2, 3... in ascending
  order of their numbers, exactly the used partitions, each with the same type, GUID, first and last sector, attribute bits and
  name (names without NUL, cut to at most 36 UTF-16 units). The result is the same when only the primary copy or only the
  backup copy is readable.""",
  ["histories", "inputs"], "all edit histories up to a depth with writes and reopens anywhere; every bit of every entry field; names of every length and encoding width; both copies",
  "Tests round-trip one fixture and two default partitions; no attribute bits, no non-ASCII names, no high sectors, no GUID change.",
  [L, PT, H], [("entry encoding", "src/partition.rs: as_bytes, file_read_partitions"), ("write", "src/lib.rs: write_inplace"), ("open", "src/lib.rs: open_from_device")],
  ["partitions()", "guid()", "device bytes"])

p("C07", "Every write leaves two valid, mutually consistent GPT copies",
  """After every successful write both copies on the device (only the primary when the backup is configured read-only) are valid by the UEFI rules, judged by an independent reader: signature, revision and size, own and
  other-copy location, header checksum and partition-array checksum are right, reserved bytes, the rest of each header block and all unused entries are
  zero. The two headers agree on disk GUID, usable range, entry count and entry size, their arrays are byte-identical,
  the primary header is in block 1 and the backup header in the last whole block of the device; when it moves there (the device has grown or shrunk) the usable range reaches up to the backup array.""",
  ["histories", "inputs", "configurations"], "all edit histories up to a depth, all initial device contents in a set (blank, garbage, older GPT, foreign GPT with other entry counts, grown image), both block sizes",
  "Tests check a few zeroed ranges after writing two partitions and compare with what the same library wrote.",
  [L, H, B, PT], [("header checksum", "src/header/mod.rs: file_write_header"), ("array checksum", "src/header/mod.rs: partentry_checksum"), ("array write and zero fill", "src/lib.rs: write_inplace")],
  ["device bytes"])

p("C08", "Headers are only ever built with a layout that fits",
  """Every header that is built, for a new disk of any size or from any builder settings, places protective MBR, primary header, primary array, usable range,
  backup array and backup header in that order without overlap and inside the device, with the backup in the last whole block and arrays large
  enough for all their entries. Building fails, rather than returning a broken layout or panicking, exactly when no usable sector would remain.
  Builder-set usable limits are kept when they leave that room and are corrected otherwise.""",
  ["inputs", "configurations"], "all device sizes around every threshold, both block sizes, entry counts and sizes from 0 to the 32-bit maximum, all usable-limit settings around the boundaries",
  "Tests build headers for one geometry with default counts.",
  [B, H, L], [("layout arithmetic", "src/header/builder.rs: build"), ("backup location", "src/header/mod.rs: find_backup_lba")],
  ["HeaderBuilder::build", "create_from_device", "primary_header()/backup_header()"])

p("C09", "A write touches only GPT metadata",
  """Writing changes no byte of the device outside the two header blocks and the two partition arrays: the first block (MBR), every block of the usable range,
  hence every partition's content, and the device length stay as they were. With the backup configured read-only, no byte of the backup header or
  backup array changes either.""",
  ["histories", "configurations"], "all edit histories up to a depth ending in a write, on devices filled with a position-dependent pattern, both block sizes, all configurations",
  "Tests look at the data area after one write of one geometry.",
  [L, PT, H], [("write positions", "src/lib.rs: write_inplace; src/partition.rs: write_to_device, write_zero_entries_to_device; src/header/mod.rs: file_write_header")],
  ["device bytes", "device write log"])

p("C10", "Nothing reaches the device before write, nor ever in read-only mode",
  """Opening, creating, inspecting, cloning and editing a disk never modify the device: only a write does. When the disk is not in
  writable mode a write fails as read-only and modifies nothing, whatever edits came before.""",
  ["histories", "configurations"], "all histories of open/create/edit/inspect operations up to a depth in all configurations, with a device that logs every write",
  "Tests never observe device writes of the edit operations.",
  [L], [("writable gate", "src/lib.rs: write_inplace")], ["device write log", "write()/write_inplace() result"])

p("C11", "Damage to one copy is survived, and damage is never returned as data",
  """If one of the two copies on the device (header block and array) is damaged in any way and the other is intact, a default-mode open succeeds and
  returns the partitions and disk GUID as before the damage, and a following write restores the metadata byte for byte. If both copies are damaged, each by a change of up to 32
  consecutive bits, opening fails or returns the original table, never a different one.""",
  ["inputs", "fault_sequences"], "every single-bit flip, byte overwrite, sector loss and region loss in either copy, and all pairs of region damages across both copies",
  "Tests zero the first half of one image once.",
  [L, H, PT], [("header CRC check", "src/header/mod.rs: file_read_header"), ("array CRC check", "src/partition.rs: file_read_partitions"), ("fallback", "src/lib.rs: open_from_device")],
  ["open_from_device", "partitions()", "guid()"])

p("C12", "A crash during a write leaves the old or the new table, never neither",
  """If at least one copy on the device is intact and a write of both copies (the default) is interrupted at any point (any prefix of its device writes applied, the last one possibly torn, blocks written since
  the last flush possibly lost in any combination), a later default-mode open succeeds and returns exactly the table from before or
  exactly the table being written.""",
  ["crash_points", "histories"], "every crash point, torn write and subset of unflushed blocks of the write log, for every edit in an alphabet and every initial damage of one copy",
  "Tests never interrupt a write.",
  [L], [("write ordering of the two copies", "src/lib.rs: write_inplace"), ("fallback", "src/lib.rs: open_from_device")],
  ["device write log", "open_from_device after crash"])

p("C13", "Device errors are reported and never half-accepted",
  """If any device operation fails during opening, creating, editing or writing, the call returns an error or behaves as if the copy it was reading were unreadable; success of a write always means the
  device holds exactly the bytes a failure-free write would have left and was flushed afterwards. Short reads, short writes and interrupted transfers change no result.
  A failed write can be repeated and then succeeds with the same final bytes.""",
  ["fault_sequences"], "every single fault and every pair of faults at every device operation of every workflow, all fault kinds",
  "Tests use devices that never fail.",
  [L, H, PT, M], [("error propagation", "src/lib.rs: write_inplace, open_from_device; src/header/mod.rs; src/partition.rs; src/mbr.rs")],
  ["results of all device-facing calls", "device bytes"])

p("C14", "No on-disk content or argument makes the library panic",
  """Whatever bytes a device of moderate size holds, including checksummed headers and entries with absurd values, opening it, displaying it, querying it, editing it and writing
  it return a value or an error and never panic or run away. The same holds for parsing byte slices of any content and length and for
  any argument values, except the documented panics (zero size, zero length, number zero).""",
  ["inputs"], "all headers with up to two fields set to boundary values under a valid checksum, boundary entries, truncated devices of every size class, boundary arguments",
  "Tests only open well-formed disks.",
  [L, H, B, PT, M], [("parsing and checked arithmetic", "src/header/mod.rs: file_read_header; src/partition.rs: file_read_partitions; src/header/builder.rs: build")],
  ["every public call"])

p("C15", "A refused operation changes nothing",
  """Every add, table replacement or open-disk write that returns an error for a reason other than a device error during the write leaves the partitions, headers, disk GUID and device contents
  exactly as they were. A write that fails on a device error leaves the in-memory partitions and disk GUID as they were.""",
  ["histories", "fault_sequences"], "all failing calls after all short histories: occupied number, no space, count change not allowed, no room to grow, read-only, device errors",
  "The tests that see an error do not look at the state afterwards.",
  [L], [("check-before-change", "src/lib.rs: add_partition, add_partition_at, update_partitions, init_headers, write_inplace")],
  ["partitions()", "primary_header()", "backup_header()", "guid()", "device bytes"])

p("C16", "The entry count changes only with permission and never shrinks",
  """Without permission to change the partition count, no operation, write or reopen changes a disk's entry count: an add whose number exceeds it, or a replacement table with more entries
  than it, fails as a count change. With permission, the count grows so that every entry gets a slot, and it
  never decreases.""",
  ["histories", "configurations"], "all histories near the full table, with entry counts below, at and above 128, with and without permission",
  "Tests try the 129th partition once in each mode.",
  [L, H], [("num_parts_would_change", "src/header/mod.rs"), ("header rebuild", "src/lib.rs: init_headers")],
  ["header().num_parts", "results of add/update calls", "device bytes"])

p("C17", "Writing is idempotent and stable under reopen",
  """Writing a disk twice in a row, or reopening a disk that was written by this library and writing it again without edits, leaves the device byte-for-byte
  as after the first write. The in-memory headers of every copy written equal the headers that a reopen reads back, and the partitions and disk GUID in memory stay as they were.""",
  ["histories", "configurations"], "all edit histories up to a depth followed by write/write and write/reopen/write, all configurations and geometries including grown tables",
  "Tests check it for one geometry.",
  [L, H, B], [("header rebuild on write", "src/lib.rs: write_inplace; src/header/builder.rs: from_header")],
  ["device bytes", "primary_header()/backup_header()"])

p("C18", "Path-opened disks are durable when write returns",
  """For a disk opened or created by path, a write returns success only after every byte it wrote to the file has been synchronised to stable storage, and a failing
  synchronisation is reported as an error. If at least one copy in the file is intact, a crash of the machine at any point of a write of both copies, losing any unsynchronised blocks, leaves a file that opens with the old or the new table.""",
  ["crash_points", "fault_sequences", "histories"], "every system-call prefix and every subset of blocks not yet synced, every failing write/sync/seek, for path-opened and path-created disks and their clones",
  "Tests cannot see sync calls or crashes.",
  [L], [("sync_all after write", "src/lib.rs: write_inplace, file_sync_all"), ("open/create set sync", "src/lib.rs: GptConfig::open, create")],
  ["write/fsync system calls", "write() result"])

p("C19", "MBR access is exact, confined and position-neutral",
  """Parsing and serialising a protective MBR are inverse to each other for every 512-byte block with the right signature, and every other block, or a buffer of the wrong length, is rejected. Each MBR write call
  changes exactly its own bytes: all 512, only the four records and signature, only the boot code, or only the disk signature. All successful calls leave the
  device position where it was, and record and field setters change only the addressed part. The
  protective record built for a size covers exactly that many sectors, starting at sector 1.""",
  ["inputs", "histories"], "every single-bit and two-field variation of the block, all record indices, all call sequences up to a depth, on 512 and 4096 byte blocks and any start position",
  "Tests write one signature and one boot code to an otherwise blank file.",
  [M], [("encode/decode", "src/mbr.rs: ProtectiveMBR, PartRecord"), ("positioned writes", "src/mbr.rs: overwrite_lba0, update_conservative, write_bootcode, write_disk_signature")],
  ["device bytes", "stream position", "ProtectiveMBR accessors"])

p("C20", "Partition-type lookup is a bijection with the registered GUIDs",
  """Every well-known partition type has its registered GUID, distinct from all others; looking it up by name, by GUID text in any letter case, or by GUID value gives the
  same type with the same operating system. Any other valid GUID is accepted and kept unchanged with no operating system, and any other text is rejected.
  Each listed operating-system name likewise gives its own system, and other text is rejected.""",
  ["inputs"], "every well-known type by every lookup path, every one-bit neighbour of every well-known GUID, malformed texts",
  "Tests look up four of about a hundred types.",
  [T, "src/macros.rs"], [("table and lookup macro", "src/macros.rs: partition_types!; src/partition_types.rs")],
  ["Type::from_str", "Type::from_name", "Type::from(Uuid)", "constants"])

p("C21", "Header and entry fields sit at their UEFI offsets in both directions",
  """Every header field and partition-entry field is read from and written to exactly its UEFI offset, width and byte order (GUIDs in mixed-endian form),
  independently of the other fields. A valid foreign header or entry with any value in any field is reported with that value, and writing an
  entry or header with any field value produces exactly those bytes. The named attribute flags are the UEFI bits 0 to 2.""",
  ["inputs"], "every single-bit pattern and every pair of bits of a 128-byte entry, every single-bit and byte pattern of every header field, both directions, against an independent codec",
  "Tests compare one fixture; most fields are zero or symmetric there.",
  [H, PT], [("header codec", "src/header/mod.rs: to_bytes, file_read_header, parse_uuid"), ("entry codec", "src/partition.rs: as_bytes, file_read_partitions")],
  ["read_header_from_arbitrary_device", "Header::write_primary/backup", "file_read_partitions", "Partition::write_to_device"])

p("C22", "Clones and device hand-overs carry the whole state",
  """A clone, and a copy moved to another device, show the same partitions, headers, disk GUID and configuration as the original and lead to the same on-device bytes when written; afterwards
  neither affects the other. Replacing the device keeps all of the state, returns the old device untouched and applies the
  new writable setting; taking the device back returns it with nothing written.""",
  ["histories", "configurations"], "all histories up to a depth with a clone or hand-over at every position, compared with the same history without it",
  "Tests hand one freshly opened disk over once; cloning is untested.",
  [L], [("Clone, with_disk_device, update_disk_device, take_device", "src/lib.rs")],
  ["partitions()", "headers", "device bytes"])

p("C23", "Geometry queries are exact and overflow-safe",
  """The length of a partition in sectors and bytes and its start in bytes are exact, and an error is returned whenever the span is inverted or the exact
  value does not fit 64 bits. The reported disk alignment is the largest power of two up to 2048 that divides the start of every used partition, and 0 when there are no entries.
  A number is accepted as block size exactly when it is 512 or 4096, and reads back as that number.""",
  ["inputs", "histories"], "all pairs of boundary sector numbers, both block sizes; all sets of up to three starts around every power of two",
  "Tests use four values and one image.",
  [PT, L], [("length/start arithmetic", "src/partition.rs: sectors_len, bytes_len, bytes_start"), ("alignment", "src/lib.rs: calculate_alignment")],
  ["sectors_len", "bytes_len", "bytes_start", "calculate_alignment"])

p("C24", "Opening succeeds exactly as the validity configuration says",
  """In default mode a device opens exactly when at least one copy has an intact header and an intact array of 128-byte entries; with both headers required it opens exactly when both header
  blocks and the primary array are intact. The opened disk shows a header as an error, with the reason (no signature, wrong checksum, read failure), when that header was unusable, takes its table and GUID from
  the primary copy if that is usable and from the backup otherwise, and works with the block size it was told.""",
  ["configurations", "inputs"], "all combinations of per-copy states (intact, header damaged or missing, array damaged, too short), differing copies, both modes, both block sizes",
  "Tests try one damaged image in both modes.",
  [L, H], [("header selection", "src/lib.rs: open_from_device"), ("strict mode", "src/lib.rs: GptConfig::only_valid_headers")],
  ["open_from_device result", "primary_header()/backup_header()", "partitions()", "guid()"])

p("C25", "Path-based calls agree with device-based calls",
  """Opening, creating, reading and writing through a path give the same results and leave the same bytes as the corresponding device-based calls on the same contents. No call creates a missing file
  or truncates an existing one, none lengthens it except the writing of a single entry past its end, and read-only calls work without write permission and change nothing.""",
  ["histories", "configurations"], "all path-based entry points over all image kinds (valid, one copy damaged, blank, too short, missing, read-only file), both block sizes",
  "Tests open one fixture by path and create one image by path without writing it.",
  [L, H, PT, D], [("path wrappers", "src/lib.rs: open, create; src/disk.rs: read_disk; src/header/mod.rs: read_header, write_header; src/partition.rs: read_partitions, Partition::write")],
  ["file bytes and length", "results"])

p("C26", "Edits in memory change exactly what they name",
  """Every successful edit of an open disk leaves in memory exactly the table before it with that one change: an add adds one entry with the given type, attribute bits and name and a new GUID,
  a removal removes one entry, replacing the table shows exactly the given entries (used or not), taking the table hands out exactly the shown one and leaves none, and setting the disk GUID
  changes that alone, to a new random one when none is given. Only adds with permission to change the partition count, table replacements and writes may alter the headers shown.
  Queries, formatting and clones change nothing, and a table with a partition 0 is never accepted.""",
  ["histories", "inputs"], "all histories of edits up to a depth from new, opened, damaged, foreign and resized disks in every configuration",
  "Tests look at one or two entries after one or two edits; the unused entries, the headers and the other fields are never compared.",
  [L], [("edits", "src/lib.rs: add_partition, add_partition_at, remove_partition, remove_partition_by_guid, update_partitions, take_partitions, update_guid")],
  ["partitions()", "guid()", "headers", "take_partitions result"])

p("C27", "Messages do not influence behaviour",
  """The crate builds with its features log and tracing, and with them, whether or not anything listens, every call gives the same result, performs the same device operations, leaves the same
  bytes and the same disk in memory as without them, also when the device fails.""",
  ["configurations", "histories", "fault_sequences"], "four ways of listening next to the plain build over all short histories and all single device failures",
  "Tests run without the features; an argument of a message that has an effect, or can fail, shows only with one setting of them.",
  ["src/logging.rs", L, H, PT], [("message macros", "src/logging.rs: trace, debug"), ("calls", "src/lib.rs, src/header/mod.rs, src/partition.rs")],
  ["results", "device operations and bytes", "partitions(), headers, guid()"])

p("C28", "Failures carry their cause and texts show true values",
  """A call that fails because of the device or the file returns an error holding what the device or the system said, its kind and, in its text, its message; a header copy that could not be read is shown
  with that kind. Every error has a text of its own, which contains the text of what it wraps. The texts of headers, entries and block sizes show exactly the values they hold.""",
  ["fault_sequences", "inputs"], "every device operation of every call failing in several ways, and products of boundary values of the shown fields",
  "Tests never look at the error of a failing device, and compare texts in one place.",
  [L, H, PT, M], [("errors", "src/lib.rs: GptError; src/header/mod.rs: HeaderError; src/mbr.rs: MBRError"), ("texts", "Display of Header, Partition, LogicalBlockSize")],
  ["error values", "Display texts"])

p("C29", "Settings are what was set last, each alone",
  """A configuration and a header builder hold, for each setting, the value set last, whatever was set, built or cloned before and in whichever order; setting one changes no other. New ones have the documented
  defaults. Every setting has its documented effect and no other: block size, write permission, need for both headers, a backup that is only read, permission to change the partition count. Configurations
  are equal exactly if all settings are.""",
  ["histories", "configurations"], "all sequences of setter calls to a depth on configurations and header builders",
  "Tests set each option at most once, in one order, and never set one back.",
  [L, B], [("configuration", "src/lib.rs: GptConfig"), ("builder", "src/header/builder.rs: HeaderBuilder")],
  ["GptConfig equality", "behaviour of disks opened and created", "built headers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
