#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run it after editing; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "A disk that is not writable is never modified",
  "When a disk object is not in writable mode (the default), every attempt to persist it fails with the read-only error and performs no write or flush on the device. Opening or creating by path asks the operating system for write access exactly when writable mode was requested, and never creates, truncates or appends to the file.",
  ["inputs", "configurations", "histories"], "every configuration, every device, every earlier sequence of operations on the object",
  "No test persists a read-only disk at all; the guarantee is about every path that reaches a device write, in every configuration.",
  ["src/lib.rs"], [("writable test before any device access in the persist path", "GptDisk::write_inplace"), ("open options", "GptConfig::open, GptConfig::create")],
  [("writable", "whether the disk may be written", "GptConfig")], ["device write/flush calls", "fs::OpenOptions"])
p("C02", "Only persisting writes to the device",
  "Opening, creating, inspecting and editing a disk object (adding, removing, replacing or taking partitions, changing the disk identifier, changing the device, cloning) never write to or flush any device; only the two persist operations do.",
  ["inputs", "histories", "configurations"], "every public operation on a disk object and every input to it",
  "Tests look at the device only after persisting; a stray early write would be overwritten by then.",
  ["src/lib.rs", "src/header/mod.rs", "src/partition.rs"], [("device writes are confined to the persist path", "GptDisk::write_inplace and its callees")],
  observe=["device write/flush calls"])
p("C03", "A read-only backup is left alone",
  "When the configuration says the backup header is read-only, no operation on a disk object writes the backup header block or a backup copy of the partition array, or replaces the backup header held in memory. Without that setting, persisting writes both copies.",
  ["inputs", "configurations", "histories"], "every disk and every sequence of edits with the read-only-backup option set or unset",
  "One test compares the backup bytes after one edit on one disk; the rule is about every path that writes the backup.",
  ["src/lib.rs"], [("option tested where the backup header is built", "GptDisk::write_inplace, GptDisk::init_headers")],
  [("readonly_backup", "backup copy must not be touched", "GptConfig")], ["device writes at the backup array and backup header"])
p("C04", "Headers are accepted only with a valid signature and checksum",
  "Whatever bytes a device holds, reading a GPT header (primary or backup, by path or by device) returns one only if the eight signature bytes are \"EFI PART\" and the stored CRC32 equals the CRC32 of the 92 header bytes with the checksum field zeroed. The primary is read from logical block 1 and the backup from the last whole block of the device, and a device too small for both is refused.",
  ["inputs"], "every device content, device size and logical block size",
  "Tests read one valid image and one zeroed image; they cannot sample all corruptions.",
  ["src/header/mod.rs"], [("signature comparison, CRC comparison", "header::file_read_header"), ("locations", "header::read_primary_header, read_backup_header, find_backup_lba")],
  observe=["return value of the header readers"])
p("C05", "Partition tables are accepted only with a matching checksum",
  "A partition table is returned only if the CRC32 of all bytes of the partition entry array (entry count times entry size, starting at the array's first block) equals the table checksum stored in the header it was read with. This holds for every way of reading a table, including opening a disk.",
  ["inputs"], "every device content and every header",
  "No test corrupts a partition array.", ["src/partition.rs", "src/lib.rs"], [("CRC comparison before returning", "partition::file_read_partitions")],
  observe=["return value of the table readers"])
p("C06", "Opening chooses headers by the documented policy",
  "Opening a disk succeeds only if the primary or the backup header is valid, and, when both are demanded by configuration, only if both are; otherwise it fails with the header's own error. The partition table and the disk identifier are taken from the primary header when it is valid and from the backup header otherwise, and both read results stay available unchanged.",
  ["inputs", "configurations"], "every combination of valid and invalid headers, every configuration",
  "Tests cover two of the combinations of header validity and option.",
  ["src/lib.rs"], [("header selection", "GptConfig::open_from_device")], observe=["GptDisk accessors"])
p("C07", "The header's disk layout is fixed and symmetric",
  "A GPT header is encoded and decoded at the UEFI-specified offsets, widths and little-endian order: signature 0, revision 8, size 12, CRC 16, own LBA 24, other LBA 32, first usable 40, last usable 48, disk GUID 56 in mixed-endian form, array LBA 72, entry count 80, entry size 84, array CRC 88. Encoding writes the header's current field values (and zero for the reserved word), the checksum computed over the encoded 92 bytes with the checksum field zeroed, and zeros for the rest of the block.",
  ["inputs"], "every header value, both block sizes",
  "Tests compare the bytes of one header; swapping two fields that are equal there, or that no test varies, goes unnoticed.",
  ["src/header/mod.rs"], [("encoder", "Header::to_bytes, Header::file_write_header"), ("decoder", "header::file_read_header, header::parse_uuid")])
p("C08", "The partition entry's disk layout is fixed and symmetric",
  "A partition entry is encoded and decoded with type GUID at byte 0 and partition GUID at 16 (both mixed-endian), first LBA at 32, last LBA at 40, flags at 48 (little-endian) and the name from byte 56 as little-endian UTF-16, at most 36 units. Encoding always yields exactly the requested entry size, padded with zeros; decoding numbers the entries from 1 in array order and skips exactly the all-zero ones.",
  ["inputs"], "every partition value and every entry array",
  "Tests encode only the all-zero entry and decode two entries with empty names.",
  ["src/partition.rs"], [("encoder", "Partition::as_bytes"), ("decoder", "partition::file_read_partitions")])
p("C09", "The protective MBR layout is fixed, symmetric and validated",
  "The protective MBR is encoded to and decoded from 440 bytes of boot code, a 4-byte disk signature, a 2-byte field, four 16-byte records and the signature 55 AA, every record field at its MBR offset in little-endian order. Decoding fails unless the buffer is exactly one logical block long and ends its first 512 bytes with 55 AA, and a record is decoded only from exactly 16 bytes.",
  ["inputs"], "every MBR value and every input buffer",
  "Tests round-trip MBRs whose records are mostly constant, so exchanged fields or a missing check go unnoticed.",
  ["src/mbr.rs"], [("codec", "ProtectiveMBR::to_bytes/from_bytes, PartRecord::to_bytes/from_bytes")])
p("C10", "MBR helpers touch only their bytes and keep the position",
  "Writing the whole MBR touches exactly bytes 0-511, the conservative update exactly bytes 446-511, writing boot code exactly bytes 0-439 and writing the disk signature exactly bytes 440-443, with the object's own bytes, and each is flushed; the corresponding reads read the same ranges and write nothing. On success each of these operations leaves the device's stream position where it was and reports the true number of bytes.",
  ["inputs"], "every device content and starting position, every MBR value",
  "Tests use one device positioned at 0 and compare whole buffers after overlapping writes.",
  ["src/mbr.rs"], [("seek, transfer, flush, seek back", "overwrite_lba0, update_conservative, read_/write_bootcode, read_/write_disk_signature, from_disk")])
p("C11", "Persisting writes the complete table to every copy",
  "A successful persist stores each in-use partition's entry, in ascending id order, in consecutive slots from slot 0 of the primary array, and of the backup array unless the backup is read-only, and fills every remaining slot of each array with zeros. If more partitions are in use than the array holds, it fails before changing the device.",
  ["inputs", "histories"], "every partition map, header geometry and configuration",
  "Tests inspect two small tables byte by byte; a slot mistake that depends on the number or ids of partitions is out of their reach.",
  ["src/lib.rs", "src/partition.rs"], [("entry loop, zero fill, slot arithmetic", "GptDisk::write_inplace, Partition::write_to_device, Partition::write_zero_entries_to_device")])
p("C12", "Persisting orders its writes and ends with a flush",
  "On every successful persist, each header is written only after all slots of its own array have been written and its checksums are taken from the array on the device, the backup header is written before the primary header, and after the last write the device is flushed and, for disks opened by path, synchronised to storage, before success is reported.",
  ["crash_points", "inputs", "configurations"], "every crash point within a persist, every configuration",
  "Tests never crash or reorder; on a healthy device every order gives the same bytes.",
  ["src/lib.rs", "src/header/mod.rs"], [("order of array, backup header, primary header, flush, sync", "GptDisk::write_inplace"), ("sync hook", "GptConfig::open, GptConfig::create")])
p("C13", "Device errors are never swallowed",
  "If the device returns an error from any seek, read, write, flush or sync that an operation depends on, the operation returns an error instead of success. The only tolerated failures are those of saving and restoring the caller's stream position around header reads.",
  ["fault_sequences"], "every device call of every public operation failing",
  "Tests never inject a device error.",
  ["src/lib.rs", "src/header/mod.rs", "src/partition.rs", "src/mbr.rs"], [("error propagation at every device call", "all functions that take a device")])
p("C14", "Reading arbitrary device content never panics",
  "Opening a disk, reading headers, partition tables or MBR data never panics, overflows an integer or indexes out of bounds, whatever bytes and size the device has; malformed content is reported as an error.",
  ["inputs"], "every device content and size, both block sizes, every configuration",
  "Tests open two well-formed images and one zeroed one.",
  ["src/lib.rs", "src/header/mod.rs", "src/partition.rs", "src/mbr.rs"], [("checked arithmetic and length checks on values read from the device", "read paths")])
p("C15", "The entry count changes only when allowed",
  "Unless the configuration allows changing the partition count, no operation on an opened disk changes the number of partition entries of its current header, and an edit that would need more entries fails with the count-change error. Allowed or not, an edit never lowers the entry count, and a freshly created disk has at least 128 entries.",
  ["inputs", "histories", "configurations"], "every edit sequence on every opened disk",
  "One test exercises one growth step from 128 to 129.",
  ["src/lib.rs", "src/header/mod.rs", "src/header/builder.rs"], [("count test before editing, count passed to the header builder", "add_partition, add_partition_at, update_partitions, init_headers, Header::num_parts_would_change")])
p("C16", "Added partitions lie inside reported free space",
  "When adding a partition by size succeeds, the new partition has exactly the size rounded up to whole blocks, starts on a multiple of the requested alignment if one was given, lies entirely inside one of the free runs reported for the disk before the call, and that run is the first one it fits in; its type, flags and name are as given and it gets a fresh random identifier. If no free run fits, the call fails with the not-enough-space error.",
  ["inputs", "histories"], "every layout, size, alignment and block size",
  "Tests add a handful of partitions without alignment on nearly empty disks.",
  ["src/lib.rs"], [("first-fit search", "GptDisk::add_partition")])
p("C17", "Partitions added at a position lie inside free space",
  "When adding a partition at an explicit first block and length succeeds, it occupies exactly those blocks, lies entirely inside one of the free runs reported for the disk before the call, and carries the given id, type, flags and name. If the requested blocks are not all free, the call fails with the not-enough-space error.",
  ["inputs", "histories"], "every layout and every requested id, first block and length",
  "Tests place one partition at one free position.",
  ["src/lib.rs"], [("containment test against the free runs", "GptDisk::add_partition_at")])
p("C18", "Adding a partition never replaces one in use",
  "Adding a partition stores it under the id it returns, which is at least 1 and was not that of an in-use partition; every other entry is untouched. Adding by explicit id fails with the id-in-use error if that id belongs to an in-use partition, and choosing an id automatically picks the lowest id within the entry count that is not in use, if there is one.",
  ["inputs", "histories"], "every partition map and requested id",
  "Tests start from empty maps and use consecutive ids.",
  ["src/lib.rs"], [("id choice and id test", "find_next_partition_id, add_partition, add_partition_at")])
p("C19", "A failed edit leaves the disk object unchanged",
  "If adding a partition or replacing the partition map returns an error, the partition map and both headers held by the disk object are the same as before the call.",
  ["inputs", "histories", "fault_sequences"], "every failing edit, including device errors while resizing the entry array",
  "Tests only check that an error is returned, not what is left behind.",
  ["src/lib.rs"], [("state is changed only after the last fallible step", "add_partition, add_partition_at, update_partitions, init_headers")])
p("C20", "The disk identifier in memory is the one that is persisted",
  "The identifier a disk object reports is the one chosen at creation, read at opening or last set; every header written by a persist carries it, in both copies that are written.",
  ["inputs", "histories"], "every identifier change followed by any edits and a persist",
  "No test changes the identifier.",
  ["src/lib.rs"], [("identifier passed to the header builder", "write_inplace, init_headers, update_guid")])
p("C21", "Built headers describe a consistent geometry",
  "A header built successfully keeps the requested identifier, entry count (at least 128 when set explicitly) and entry size, its first usable block is at or after the end of the primary array, its last usable block leaves room for the backup array before the backup header, first usable is not after last usable, and its array starts right after the primary header or right after the last usable block for a backup. Primary and backup headers built from the same data agree in everything except the exchange of own and other position, the array position and checksums; impossible requests are errors.",
  ["inputs"], "every builder input and both block sizes",
  "Tests build one geometry; the defects are in the boundary cases.",
  ["src/header/builder.rs"], [("geometry computation", "HeaderBuilder::build")])
p("C22", "Persisting stays inside the metadata blocks",
  "For headers the library built, persisting a disk writes only the block of each header and the blocks of each partition array, addressed by block number times block size; it never writes block 0, the usable range recorded in the headers, or the block of the other header through an array write.",
  ["inputs", "histories"], "every disk built or opened with primary header in block 1, every edit sequence",
  "Tests check one disk with default geometry; the sizes at which arrays and data collide are not sampled.",
  ["src/lib.rs", "src/partition.rs", "src/header/mod.rs", "src/header/builder.rs"], [("offset computation for every device write", "write_to_device, write_zero_entries_to_device, file_write_header")])
p("C23", "Partition type lookups agree with the type table",
  "Every well-known partition type constant has its registered GUID and operating system, all GUIDs are distinct, and looking a type up by name (any case), by GUID string (any case) or by GUID value gives exactly that constant. An unknown GUID gives a type with that GUID and no operating system, and other strings are errors.",
  ["inputs"], "every type in the table and every other name or GUID",
  "Tests look up four of about 110 entries.",
  ["src/partition_types.rs", "src/macros.rs"], [("lookup arms generated per table entry", "partition_types! macro")])
p("C24", "Logical block size conversions agree",
  "The two supported logical block sizes convert to 512 and 4096 in every numeric and textual form, converting a number back succeeds exactly for these two values, and the default is 512.",
  ["inputs"], "both variants, every u64", "Tests never convert from a number and never print a block size.",
  ["src/disk.rs"], [("conversion functions", "LogicalBlockSize")])
p("C25", "Partition extent arithmetic is exact or an error",
  "A partition's length in blocks is last minus first plus one, its byte length and byte start are the block values times the block size, and each of these is an error whenever the result is negative or does not fit 64 bits. A partition counts as in use exactly when its type GUID is not the all-zero one.",
  ["inputs"], "every first and last LBA, both block sizes", "Tests sample a few values and some edges.",
  ["src/partition.rs"], [("checked arithmetic", "sectors_len, bytes_len, bytes_start, is_used")])
p("C26", "Copies of a disk object are faithful",
  "Cloning a disk object, or rebinding it to another device, preserves its configuration, identifier, both headers (or the kind of error stored for them) and its partitions; rebinding changes only the device and the writable mode. A clone keeps the same durability behaviour as the original.",
  ["inputs", "histories"], "every state of a disk object", "Tests copy one freshly opened disk with two valid headers.",
  ["src/lib.rs", "src/header/mod.rs"], [("field by field copy", "Clone for GptDisk, with_disk_device, update_disk_device, HeaderError::lossy_clone")])
p("C27", "Each configuration option sets exactly itself",
  "Each configuration setter changes the option it is named after to the given value and nothing else, and the default configuration is read-only, 512-byte blocks, one valid header suffices, backup writable, partition count fixed.",
  ["configurations"], "every order and combination of setters", "Tests combine few options and cannot cover the products.",
  ["src/lib.rs"], [("setters and defaults", "GptConfig")])
p("C28", "A disk object always has a valid header",
  "From the moment a disk object is returned to its owner, at least one of its two headers is valid, no operation ever turns a valid header into an invalid one, and the current header is the primary one when it is valid and the backup one otherwise.",
  ["histories", "inputs"], "every history of operations, including failing ones", "Tests call the accessor only on well-formed disks.",
  ["src/lib.rs"], [("every assignment to the header slots", "GptDisk constructors, init_headers, write_inplace")])
p("C29", "Logging features do not change behaviour",
  "Enabling the logging features changes neither the results of any operation nor the sequence of device accesses it makes.",
  ["configurations", "inputs"], "all four feature combinations, all inputs", "The suite runs in two feature sets but compares only sampled results.",
  ["src/logging.rs"], [("logging macros with effect-free arguments", "trace!, debug! call sites")])
p("C30", "The computed alignment divides every partition start",
  "The alignment computed for a disk is 0 if it has no partitions, and otherwise the largest power of two not above 2048 that divides the first block of every in-use partition; the computation always terminates.",
  ["inputs"], "every partition map", "Tests check one disk whose alignment is 1.",
  ["src/lib.rs"], [("descending search over powers of two", "GptDisk::calculate_alignment")])
p("C31", "Removal removes exactly the named partition",
  "Removing by id or by identifier deletes exactly that one entry from the map and returns its id, or returns nothing and changes nothing when there is no such entry; taking the partitions returns the whole map and leaves it empty; replacing them stores exactly the given map.",
  ["inputs", "histories"], "every partition map and argument", "Tests remove two entries by id and never by identifier.",
  ["src/lib.rs"], [("map operations", "remove_partition, remove_partition_by_guid, take_partitions, update_partitions")])
p("C32", "Reported free space is exactly the gaps between partitions",
  "For partitions that lie in the usable range without overlapping, the reported free runs are exactly the maximal runs of usable blocks (first usable to last usable inclusive) outside every in-use partition, in ascending order, each given by first block and length.",
  ["inputs"], "every well-formed layout", "Tests only observe free space through a few additions.",
  ["src/lib.rs"], [("boundary list, sort, pairwise gaps", "GptDisk::find_free_sectors")])
p("C33", "Unchecked unwrapping happens only on a value just stored",
  "The crate performs no unchecked operation except reading back a success value that the same function has stored immediately before on every path; everything else is checked by the compiler.",
  ["inputs", "programs"], "every unsafe operation of the crate, every path to it", "Undefined behaviour need not show up in a test run.",
  ["src/macros.rs"], [("store dominates the unchecked unwrap", "ResultInsert::insert_ok")])
p("C34", "A persisted disk reads back equal",
  "Opening a disk after a successful persist yields the same headers, identifier and in-use partitions (numbered consecutively), including names of up to 36 UTF-16 units.",
  ["inputs", "histories"], "every disk state", "Tests round-trip one image with empty names.",
  ["src/lib.rs", "src/header/mod.rs", "src/partition.rs"], [("codec and persist path", "write_inplace, open_from_device")])
p("C35", "Random identifiers are unique",
  "Disk and partition identifiers generated by the library do not collide in practice.",
  ["histories"], "every history", "A test cannot sample enough identifiers.",
  ["src/lib.rs", "src/header/builder.rs"], [("version 4 UUIDs", "uuid::Uuid::new_v4 call sites")])
p("C36", "Every operation terminates",
  "Every operation of the crate comes to an end on every input and every disk state, provided that each access to the device returns: no search or copy can run for ever, whatever the device contains.",
  ["inputs", "histories"], "every exported operation, every loop it reaches, every argument and device content",
  "A test that hangs only for one partition map or alignment is not sampled.",
  ["src/lib.rs", "src/header/mod.rs", "src/partition.rs", "src/mbr.rs"], [("every loop and every recursion reachable from the exported interface", "add_partition, find_next_partition_id, find_free_sectors, calculate_alignment, write_zero_entries_to_device")])
p("C37", "A protective MBR protects the whole disk",
  "A newly made protective MBR has no boot code, a zero disk signature, the 55 AA signature, and exactly one partition record, of type EE, starting at block 1 with CHS 000200 to FFFFFF and having the given size (0xFFFFFFFF if none is given); the other three records are empty. Each setter changes exactly the boot code, disk signature or record it names and the accessors return them; a record index above 3 yields nothing and changes nothing.",
  ["inputs"], "every size, record, index and prior content",
  "Tests compare one fixture and two sizes.",
  ["src/mbr.rs"], [("constructors, setters and accessors", "ProtectiveMBR, PartRecord::new_protective")])
p("C38", "Operations do not depend on the stream position",
  "Every operation that uses a device gives the same result and makes the same accesses wherever the device's stream position was when it was called: each transfer happens at a place computed from the arguments, the disk object and the device content alone.",
  ["inputs", "histories"], "every operation, every initial stream position",
  "Tests start at position 0 or where an earlier call of the crate left the device.",
  ["src/lib.rs", "src/header/mod.rs", "src/partition.rs", "src/mbr.rs"], [("absolute seek before every transfer", "every read and write of a device")])
p("C39", "The crate acts only on the device or file it is given",
  "The crate has no effect and no input besides its arguments, the given device, and random identifiers: it never uses the environment, the clock, processes, the network, other files, the standard streams or global state. An operation that takes a path opens exactly that file, once, never creating, truncating or appending, for writing only if it writes (disk objects: exactly if configured as writable).",
  ["inputs", "programs"], "every function mentioned anywhere in the crate, every path",
  "Tests do not observe what else the process does.",
  ["src/lib.rs", "src/header/mod.rs", "src/partition.rs", "src/disk.rs"], [("every call to the standard library or another crate", "whole crate"), ("file opening", "open, create, read_disk, read_header, write_header, read_partitions, Partition::write")])
p("C40", "Disk objects are safe to share between threads",
  "Every type of the interface can be moved to another thread and shared between threads whenever its device can, none can change behind a shared reference, inspecting operations need a shared reference only, and the crate keeps no mutable global or thread-local state.",
  ["programs", "schedules"], "every exported type and inspecting operation",
  "Tests use every object from one thread; a lost marker trait breaks programs the suite does not contain.",
  ["src/lib.rs", "src/header/mod.rs", "src/partition.rs", "src/mbr.rs"], [("field types", "every exported struct and enum")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
