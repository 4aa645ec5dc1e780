#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

BC = "file_systems/common/blockcache/blockcache.go"
BS = "file_systems/common/basicstream/basicstream.go"
CO = "utilities/compression/"
F8 = "file_systems/fat8/"
FA = "file_systems/fat/"
DR = "driver/driver.go"

# ---------------------------------------------------------------- block cache
prop("C01", "Block cache reads always return the latest content",
     "For every history of reads, writes, slice accesses, explicit dirty-marking and flushes on a block cache, each successful read returns for every byte the value most recently written through the cache, or what the storage holds if it was never written. It never returns stale, zeroed or another block's data. A successful read or write of n bytes reports exactly n.",
     ["histories", "inputs"],
     "all operation histories over small caches, all buffer lengths and block sizes, cold and warm caches",
     "The tests read a cold cache once and write whole blocks once; they never interleave partial writes, dirty marking and flushes, nor read buffers that are not whole blocks.",
     [BC], [("lazy block loading before access", BC + " loadBlockRange"), ("copy through the cache buffer", BC + " ReadAt/WriteAt/GetSlice")],
     [("loaded/dirty bitmaps", "which blocks are cached / modified", BC)], ["ReadAt", "GetSlice", "Data"])

prop("C02", "Flush makes storage equal the cache and writes only modified blocks",
     "After a successful flush of a block cache the storage equals the cache's logical content. A flush writes each block that was modified or marked since the last successful flush exactly once, as one whole block, and writes no other block; flushing when nothing was modified (including an empty cache) succeeds and writes nothing. At every point during a flush each storage block holds either its previous content or its current logical content.",
     ["histories", "crash_points"],
     "all operation histories, every prefix of the sequence of block writes a flush performs",
     "No existing test calls Flush with a dirty block and looks at the storage afterwards.",
     [BC], [("dirty bitmap drives write-back", BC + " flushBlockRange"), ("writes mark blocks dirty", BC + " WriteAt/MarkBlockRangeDirty")],
     [("dirtyBlocks", "blocks to write back", BC)], ["flush callback log", "storage contents"])

prop("C03", "Out-of-range block accesses are refused without side effects",
     "A block-cache access of any kind is accepted if and only if its first block lies inside the cache and the blocks needed for its length end within it, for every start and length up to the largest representable value. A refused access returns an argument-out-of-range error, never panics, transfers nothing, touches no storage and leaves the cache unchanged. The number of blocks reported as needed for a byte count is the exact ceiling for every byte count.",
     ["inputs", "configurations"],
     "all block sizes and cache sizes in a grid, all starts/lengths around every boundary including integer-overflow boundaries",
     "The tests try seven hand-picked ranges on one geometry and nothing near integer limits.",
     [BC], [("range validation", BC + " CheckBounds"), ("block count rounding", BC + " GetMinBlocksForSize")],
     [], ["CheckBounds, ReadAt, WriteAt, GetSlice, MarkBlockRangeDirty results"])

prop("C04", "Storage failures during cache operations lose nothing and are retryable",
     "If the storage fails while a block cache loads, writes back or resizes, the operation reports an error that carries the storage's error, and every write acknowledged earlier stays readable and is still written back by a later successful flush. A failed read or write has no effect on cached content, and retrying after the fault clears gives the result a fault-free run would have given.",
     ["fault_sequences", "histories"],
     "every placement of up to the bounded number of storage faults in every bounded operation history, including faults that leave garbage in the transfer buffer or a torn block",
     "No test makes a storage callback fail.",
     [BC], [("bits changed only after the callback succeeds", BC + " loadBlockRange/flushBlockRange/Resize")],
     [], ["returned errors", "storage after a later successful flush"])

prop("C05", "Resizing a block cache keeps surviving blocks and zero-fills new ones",
     "Growing a block cache appends blocks that read as zero and reach the storage as zero on the next flush unless overwritten; shrinking discards exactly the trailing blocks and they never reappear if the cache grows again. Surviving blocks keep their content and their pending modifications. A refused resize changes nothing; a cache without a way to resize its storage refuses every change of size.",
     ["histories", "fault_sequences"],
     "all histories mixing resizes (including to zero and over byte boundaries of the block maps) with reads, writes and flushes; every refused resize",
     "No test resizes a cache.",
     [BC], [("copy of data and bitmaps into new arrays", BC + " Resize")],
     [("totalBlocks", "current size in blocks", BC)], ["content, size, storage after flush"])

prop("C06", "Caches over a stream or byte slice are a faithful view of it",
     "A cache wrapped around a seekable stream or byte slice shows block k as the bytes at offset k times the block size (bytes past the end of the stream read as zero), whatever sizes the stream's reads return, and after a successful flush the stream holds the cache's content. A stream error or a block that could not be stored completely is always reported. Resizing is possible exactly when allowed and supported by the stream, and blocks added by growing are readable, writable and flushable.",
     ["inputs", "fault_sequences", "histories"],
     "all histories over small streams, all splits of a read into short reads, every position of a stream error, streams longer and shorter than the cache",
     "The stream wrappers have no tests beyond one size query.",
     [BC], [("seek, then transfer one block", BC + " WrapStream"), ("size inference", BC + " WrapStreamWithInferredSize")],
     [], ["stream contents, returned errors"])

# --------------------------------------------------------------- byte streams
prop("C07", "A file stream behaves exactly like a byte file",
     "For every sequence of sequential and positioned reads and writes, seeks and truncations, a file stream over a block cache is indistinguishable from an in-memory byte file with a cursor: the same bytes, counts, end-of-file results, size and position. Operations on invalid offsets, writes that the storage has no room for and streams larger than their cache are refused without any effect. This holds for every block size and for requests starting or ending anywhere relative to block and file boundaries.",
     ["histories", "inputs", "configurations"],
     "all operation sequences to a depth bound and all reachable states of small files, over several block sizes and initial sizes",
     "The tests only read and seek; no test ever writes or truncates a stream.",
     [BS, BC], [("byte offset to block conversion", BS + " convertLinearAddr"), ("growth on write", BS + " implWriteAt"), ("cursor update", BS + " Read/Write/Seek")],
     [("size, position", "logical file size and cursor", BS)], ["return values, Size, Tell, content"])

prop("C08", "Synced or closed streams have all their data in storage",
     "After a successful sync or close of a file stream, the storage holds exactly the stream's content over its whole size and enough blocks for it; on a stream opened for synchronous writing the same holds after every successful write or truncation. Bytes of the file not changed since an earlier successful sync keep their synced value in storage at every later moment.",
     ["histories", "crash_points"],
     "all operation sequences to a depth bound; storage inspected after every block write",
     "No test writes through a stream, so none looks at storage.",
     [BS, BC], [("dirty marking on write", BS + " implWriteAt"), ("Sync/Close flush", BS)],
     [], ["storage contents after Sync/Close/each write"])

prop("C09", "Open modes of a stream are enforced",
     "A stream opened read-only refuses every modifying operation with a not-permitted error and never changes the storage; one opened write-only refuses every read. In append mode every sequential write lands at the current end of the file wherever the cursor was moved, and positioned writes are refused. Opening with truncation empties a writable file and is refused on a read-only one.",
     ["histories", "configurations"],
     "every combination of open flags with every bounded operation sequence",
     "The tests use read-only streams and never attempt a forbidden operation.",
     [BS, "flags.go"], [("flag checks at the top of each operation", BS)],
     [], ["errors and storage writes"])

prop("C10", "Truncation and growth never expose stale bytes",
     "Bytes of a file that lie between its old end and newly written or extended data always read as zero, both through the stream and in storage after a sync, whatever the storage, the unused tail of the last block or previously truncated content contained. Truncating keeps exactly the leading bytes and never moves the cursor.",
     ["histories", "inputs"],
     "all shrink/grow/seek-past-end/write histories on storage pre-filled with recognisable garbage, for all alignments within the bounds",
     "No test truncates, extends or writes past the end.",
     [BS, BC], [("zero filling on growth", BS + " Truncate/implWriteAt"), ("zero blocks on cache growth", BC + " Resize")],
     [], ["content after growth"])

prop("C11", "Bulk copies in and out of a stream are complete or report an error",
     "Copying from a reader into a stream, or from a stream to a writer, transfers every byte in order starting at the cursor and reports the exact count, for every way the other side splits its transfers. If the reader, the writer or the storage fails at any point, an error is returned and no success is reported for bytes that were not transferred.",
     ["inputs", "fault_sequences"],
     "all bounded data lengths, chunkings (including data together with end-of-file and empty reads), and every failure position on either side",
     "The copy functions have no tests.",
     [BS], [("read/write loop", BS + " ReadFrom/WriteTo")], [], ["counts, errors, transferred bytes"])

prop("C12", "Storage failures under a stream are reported and corrupt nothing",
     "If the storage fails while a file stream reads, writes, truncates or syncs, the call returns an error; the cursor advances only by the bytes reported as transferred and bytes outside the failed request keep their values. Once the fault clears, a successful sync leaves in storage everything that earlier successful calls wrote.",
     ["fault_sequences", "histories"],
     "every placement of up to the bounded number of load, store and resize faults in every bounded operation sequence",
     "No test makes storage fail under a stream.",
     [BS, BC], [("error propagation", BS)], [], ["errors, content and storage after recovery"])

# ---------------------------------------------------------------- compression
prop("C13", "RLE8 compression is lossless and follows its documented format",
     "For every byte sequence, however the source delivers it, RLE8 compression produces exactly the documented encoding (each maximal run of n>=2 equal bytes as the byte twice plus a repeat count, runs over 257 split) and decompression restores the sequence exactly. Decompression of any byte sequence either expands it by those rules or, when a repeat count is missing at the end, fails with an unexpected-end error. The reported byte counts equal the bytes written.",
     ["inputs"],
     "all byte strings over small alphabets to a length bound, all run lengths past several split points, all alignments to internal buffer boundaries, all input chunkings",
     "The tests compress eleven examples and a few random strings, with one way of delivering input.",
     [CO + "rle8.go", CO + "rle_grouper.go"], [("run splitting", CO + "rle8.go CompressRLE8"), ("last-byte reset after a group", CO + "rle8.go DecompressRLE8")],
     [], ["output bytes and counts"])

prop("C14", "Recursive RLE compression is lossless and follows its documented format",
     "For every byte sequence, recursive run-length compression produces the documented encoding (each maximal run of n>=2 bytes as the byte twice, then one 255 per 255 further repeats, then the remainder) and recursive decompression restores the sequence exactly, including when the compressed form is itself compressed again. Decompression of data whose repeat count is cut off fails with an unexpected-end error. The reported byte counts equal the bytes written.",
     ["inputs"],
     "all byte strings over small alphabets to a length bound, all run lengths past several multiples of 255, repeated application",
     "The recursive coder has no tests.",
     [CO + "rle8.go"], [("255-continuation counts", CO + "rle8.go CompressRLERecursive/DecompressRLERecursive")],
     [], ["output bytes and counts"])

prop("C15", "Compressed disk images restore bit for bit",
     "For every image, compressing it and decompressing the result, through the library (to a stream or to bytes) or the command-line tools, yields the original image bit for bit, and the reported sizes equal the bytes produced.",
     ["inputs"],
     "all small images over a small alphabet, all structured larger images (runs around every internal limit), library and command-line paths",
     "The tests try three images.",
     [CO + "compression.go", CO + "rle8.go", "cmd/zipimage/main.go", "cmd/unzipimage/main.go"],
     [("RLE8 then gzip", CO + "compression.go CompressImage/DecompressImage")], [], ["bytes and counts; files written by the tools"])

prop("C16", "Damaged compressed images are never silently accepted",
     "Decompressing a compressed image that was truncated at any point, had any byte altered, or had a run of bytes removed, repeated, zeroed, inserted, moved or rubbish appended either reports an error or yields exactly the original image; it never reports success with different data, and never panics. The command-line tool exits with a failure status in the error case.",
     ["inputs", "fault_sequences"],
     "every truncation point, every single-byte alteration, and many alterations of two bytes and of runs of bytes of compressed representative images",
     "No test decompresses a damaged image.",
     [CO + "compression.go", CO + "rle8.go", "cmd/unzipimage/main.go"], [("gzip checksum and length errors propagated", CO + "rle8.go DecompressRLE8")],
     [], ["error or output"])

prop("C17", "I/O errors while compressing or decompressing are always reported",
     "If the source or destination of any compression or decompression fails at any point, the call returns an error that carries the underlying error, and never reports success.",
     ["fault_sequences", "inputs"],
     "every failing byte position of the source, every failing write call of the destination, for every coder and representative input",
     "Only the run grouper is tested with a failing source; no test makes a destination fail.",
     [CO + "compression.go", CO + "rle8.go", CO + "rle_grouper.go"], [("error returns in each coder", CO)], [], ["returned error"])

prop("C18", "Run grouping partitions the input into its maximal runs",
     "For every byte sequence and every way the source delivers it, the runs returned by the run grouper are exactly the maximal runs of equal bytes in order, followed by end-of-file on every later call. Every valid run has length at least one, and a source failure inside a run yields an invalid run with that failure.",
     ["inputs", "fault_sequences"],
     "all byte strings over small alphabets to a length bound, long runs around buffer boundaries, all chunkings and failure positions",
     "The tests group seven fixed strings.",
     [CO + "rle_grouper.go"], [("peek and unread of the byte after a run", CO + "rle_grouper.go GetNextRun")], [], ["runs and errors"])

# ----------------------------------------------------------------------- FAT8
prop("C19", "Formatting a FAT8 image produces exactly the documented layout",
     "Formatting succeeds exactly for the supported image sizes and then leaves an image of exactly that size whose directory sectors are 0xFF-filled, whose information sector is null, which ends its directory track with three identical allocation tables marking precisely the directory track's clusters as reserved and every other entry as free, and which is null elsewhere. The reported volume statistics agree with that layout, and a refused format leaves the image untouched. If any write to the image file fails, formatting reports an error, and formatting again once the cause is gone succeeds.",
     ["configurations", "inputs"],
     "all image sizes in bytes and blocks up to beyond the largest geometry, formatting from an empty and from a blank image, repeated formatting",
     "The formatting tests compare each sector with itself and so check only the image size.",
     [F8 + "formattingdriver.go", F8 + "common.go", F8 + "iobase.go"],
     [("geometry table", F8 + "common.go GetGeometry"), ("layout writer", F8 + "formattingdriver.go FormatImage")], [], ["image bytes, FSStat"])

prop("C20", "Mounting a FAT8 image validates it and never alters it",
     "A volume mounts if and only if its size is a supported one and its three allocation tables are identical; a table damaged in any byte is reported as file-system corruption. Mounting, flushing and unmounting, in any order and number, leave an unmodified image byte-for-byte unchanged, and the mounted volume reports block statistics matching its allocation table. Flushing leaves the volume valid, with three identical tables, even if some of them were overwritten meanwhile. If the image can't be read, mounting fails, without lasting effect. Mounting a mounted volume or formatting it is refused.",
     ["histories", "fault_sequences"],
     "every sequence of format/mount/flush/unmount calls to a depth bound, every byte position of every table copy damaged",
     "No test mounts a volume.",
     [F8 + "driver.go", F8 + "iobase.go"], [("table comparison", F8 + "iobase.go GetFAT"), ("mounted flag", F8 + "driver.go Mount/Unmount")],
     [("isMounted", "mount state", F8 + "driver.go")], ["errors, image bytes, FSStat"])

prop("C21", "FAT8 clusters and sectors are addressed one-to-one and within bounds",
     "Data written to a cluster or sector range of a FAT8 volume is what a later read of the same cluster or range returns, and the write changes no other cluster and no byte outside it; distinct clusters never share bytes. Every sector of the image, including the last, can be read and written, and any access outside the image, to an invalid cluster number or with a wrong data size is refused without changing the image. An access that the image file fails, or that reaches beyond the end of a cut-off file, reports an error, never success.",
     ["inputs", "histories"],
     "all cluster numbers of all geometries, all pairs of cluster writes, all sector ranges around the boundaries",
     "No test reads or writes a cluster.",
     [F8 + "iobase.go"], [("cluster to sector mapping", F8 + "iobase.go ReadAbsoluteCluster/WriteAbsoluteCluster"), ("range checks", F8 + "iobase.go ReadDiskBlocks/WriteDiskBlocks")],
     [], ["returned data, image bytes"])

prop("C22", "FAT8 file names convert to disk form and back without loss",
     "Every accepted name becomes exactly nine bytes, upper-case, blank-padded stem and extension, and converting back gives the upper-cased name for every name whose stem and extension have no trailing blanks and which does not end in a period. Names whose stem exceeds six or extension exceeds three characters, empty names and names that do not fit the fixed form are refused with an error, never stored truncated or misaligned. A stored name produced by the conversion survives conversion to text and back unchanged.",
     ["inputs"],
     "all names over a small alphabet (letters, blank, period, non-ASCII) to a length bound, all nine-byte stored names over a small alphabet",
     "The tests convert four names.",
     [F8 + "common.go"], [("name splitting and padding", F8 + "common.go FilenameToBytes/BytesToFilename")], [], ["returned bytes / names / errors"])

prop("C23", "FAT8 file-level access reads and writes the file's own clusters",
     "Reading the i-th cluster of a file returns the content of the i-th cluster assigned to it and writing it changes exactly that cluster; indexes past the file's last cluster are refused. The reported size and block count of a binary file follow from its clusters and unused trailing sectors, and name lookup ignores case and a leading slash.",
     ["inputs", "configurations"],
     "all files of up to a few clusters drawn from all clusters, all indexes, all unused-sector counts",
     "No test accesses a file.",
     [F8 + "iobase.go", F8 + "readingdriver.go"], [("logical to physical cluster mapping", F8 + "iobase.go ReadFileCluster/WriteFileCluster"), ("size computation", F8 + "readingdriver.go Stat")],
     [("dirents", "directory of a mounted volume", F8 + "driver.go")], ["data, image bytes, Stat"])

# ------------------------------------------------------------- FAT12/16/32
prop("C24", "FAT boot sectors are decoded per the specification or rejected",
     "For every boot sector, decoding either returns the geometry the FAT specification prescribes (table, root-directory, first-data-sector and cluster counts, and the FAT version from the cluster count) or a corruption/IO error. It never panics and never accepts a sector size other than 512-4096 by powers of two, a cluster size that is not a power of two up to 128 sectors and 32 KiB, or a layout whose metadata exceeds the volume; every fully valid boot sector is accepted.",
     ["inputs"],
     "a grid over every field of the boot sector including boundary and zero values, and every truncation of the sector",
     "The FAT package has no tests.",
     [FA + "common.go"], [("field validation and derivation", FA + "common.go NewFATBootSectorFromStream"), ("version thresholds", FA + "common.go DetermineFATVersion")],
     [], ["returned struct or error"])

prop("C25", "FAT directory entries are decoded field by field per the specification",
     "Decoding a 32-byte directory entry yields exactly the name, attributes, first cluster, size and timestamps the FAT specification defines for those bytes, including the escaped 0xE5 first character, deleted entries and free entries. It never panics, whatever the bytes.",
     ["inputs"],
     "every value of each field with the others fixed, pairs of fields over boundary values, all dates and times",
     "The FAT package has no tests.",
     [FA + "dirent.go"], [("raw decoding", FA + "dirent.go NewRawDirentFromBytes"), ("conversion", FA + "dirent.go NewDirentFromRaw")],
     [], ["decoded entry"])

prop("C26", "FAT cluster chains are followed exactly, and always terminate",
     "For every allocation table, following a chain visits exactly the clusters linked from its start up to the end-of-chain mark, in order. A chain that leaves the valid clusters or runs into a cycle is reported as corruption instead of looping or returning wrong clusters.",
     ["inputs", "configurations"],
     "all allocation tables (all successor functions) of small volumes, including cycles, free and out-of-range entries",
     "The FAT package has no tests.",
     [FA + "driverbase.go"], [("chain walk", FA + "driverbase.go listClusters/getClusterInChain")], [], ["content read through a chain, errors"])

prop("C27", "FAT file reads and removals use exactly the file's own clusters",
     "Reading a file returns exactly its recorded number of bytes from its clusters in chain order, and reading a directory returns its entries in order; the status of a path, with or without following links (there are none), is that of its entry, and a missing path has none. Removing a file deletes its entry first and then frees exactly the clusters of its chain, each once, and nothing else; directories and missing names are refused without changing anything.",
     ["inputs", "histories", "fault_sequences"],
     "all small volumes (all layouts of a few files over a few clusters, all sizes at cluster boundaries), every failure position of a removal",
     "The FAT package has no tests.",
     [FA + "driverbase.go"], [("content assembly", FA + "driverbase.go ReadFile"), ("removal order", FA + "driverbase.go Remove")], [], ["returned data; entry deletions and freed clusters"])

# --------------------------------------------------------------------- driver
prop("C28", "Path normalization is total, absolute and idempotent",
     "For every path string and working directory, normalization yields a clean absolute path equal to resolving the components of the path (dot, dot-dot, empty) one by one from the root or, for relative paths, from the working directory. It never escapes the root, and normalizing a normalized path returns it unchanged.",
     ["inputs", "configurations"],
     "all path strings over an alphabet of name characters, dots and slashes to a length bound, from several working directories",
     "The driver package has no tests.",
     [DR], [("lexical cleaning and rebasing", DR + " NormalizePath")], [("working directory", "base for relative paths", DR)], ["returned path"])

prop("C29", "Symbolic links resolve to the right object or a reported cycle",
     "For every arrangement of directories, files and symbolic links, resolving a path (after lexical normalization, which also applies to link targets) reaches exactly the object POSIX path resolution reaches: relative targets are taken from the directory that holds the link, links in intermediate components are followed, the final link is followed or not as the operation requires. Resolution always terminates: cycles are reported as link cycles and dangling links as not found.",
     ["inputs", "configurations"],
     "all small directory trees with up to a few links with all short targets, all short paths",
     "The driver package has no tests.",
     [DR], [("link resolution and cycle detection", DR + " resolveSymlink/getObjectAtPath...")], [], ["Stat, Lstat, ReadFile, Readlink results"])

prop("C30", "Namespace operations match a reference file system",
     "For every sequence of directory and file creation, removal, linking, attribute changes, listing and working-directory changes, the results and the visible tree equal those of a simple reference file system with os-package semantics. In particular exclusive creation never reuses an existing object, non-empty directories and the root are not removed, creating missing parents is complete or reports an error, and a failed operation changes nothing.",
     ["histories"],
     "all operation sequences to a depth bound and all reachable states of trees with a few names",
     "The driver package has no tests.",
     [DR], [("existence and type checks before each change", DR)], [("working directory", "base for relative paths", DR)], ["return values and full tree after each step"])

prop("C31", "File contents written through the driver are read back exactly",
     "For every sequence of opens (with any flags), reads, writes, seeks, truncations and closes of files through the driver, the content and size observed by any path that names the file, once its writer is closed or synced, equal those of a reference byte file, for every file-system block size. A write or close that fails to store data is reported to the caller.",
     ["histories", "fault_sequences", "configurations"],
     "all bounded sequences of open/IO/close and whole-file operations over block sizes and sizes around block boundaries; every storage fault position",
     "The driver package has no tests.",
     ["driver/file.go", DR, BS], [("stream over object blocks", "driver/file.go NewFileFromObjectHandle"), ("flush at close", "driver/file.go Close")], [], ["ReadFile, Stat size, errors"])

prop("C32", "A volume mounted without write permission is never modified",
     "On a volume mounted without write permission every operation that would change it is refused with a read-only error and no change request of any kind reaches the file-system implementation, while read operations keep working. Without delete permission nothing is ever removed.",
     ["histories", "configurations"],
     "every operation with every argument, on every mount-flag combination, from a populated tree, in sequences to a depth bound",
     "The driver package has no tests.",
     [DR, "api.go"], [("mount flag checks", DR)], [("mount flags", "permissions of the mount", DR)], ["errors and modification calls received by the implementation"])

prop("C33", "Recursive removal removes exactly the named subtree",
     "A successful recursive removal removes the named directory and everything below it and nothing else: objects outside the subtree are untouched even when symbolic or hard links inside it point to them. The root is never removed, and if an individual removal fails the operation stops, reports the error and has removed only objects inside the subtree.",
     ["inputs", "fault_sequences"],
     "all small trees with links, every start path, every failing removal",
     "The driver package has no tests.",
     [DR], [("depth-first removal without following links", DR + " RemoveAll/removeDirectory"), ("root guard", DR + " RemoveAll")], [], ["tree after the call"])

prop("C34", "The driver keeps every promise it makes to file-system implementations",
     "Whatever sequence of operations a user performs, the driver calls a file-system implementation only as its interface documents: it never creates an object that already exists, never uses a closed handle, only transfers whole blocks inside an object's boundaries, never unlinks a non-empty directory, never hard-links a directory or onto an existing name, and passes only permission bits when changing modes. Every handle it obtained is closed once no open file needs it.",
     ["histories"],
     "all operation sequences to a depth bound over small trees, with a contract-checking implementation",
     "No implementation of the interface exists in the repository, so no test reaches these calls.",
     [DR, "driver/file.go", "driver/fsobject.go", "api.go"], [("checks before each implementation call", DR), ("deferred closes", DR)], [], ["calls received by the implementation"])

prop("C35", "Directory listings are complete, in order and correctly paginated",
     "Listing a directory, at once or through a directory handle in pages of any sizes, yields every entry exactly once, in the file system's order, without dot entries and with each entry's own name and attributes. A page never exceeds the requested size, exhausting the listing with a positive page size yields end-of-file, and listing something that is not a directory is refused.",
     ["inputs", "histories"],
     "all directory sizes to a bound, all sequences of page sizes (positive, zero, negative) to a depth bound, all three listing forms",
     "The driver package has no tests.",
     ["driver/file.go", "driver/dirent.go", DR], [("cursor over a cached listing", "driver/file.go ReadDir")], [], ["entries, errors"])

# ----------------------------------------------------------------------- misc
prop("C36", "Derived errors keep their identity and cause",
     "An error derived from any standard error, or from one made with NewError, by any sequence of adding messages and wrapping other errors still matches the error it started from and every wrapped error and what those match, matches no other standard error, and its text is the concatenation of all messages in order. Deriving never changes the original or the wrapped errors. Casting to a driver error leaves nil and driver errors as they are; for any other error the result has its text, matches it and everything it matches, and no other standard error.",
     ["inputs", "histories"],
     "all derivation sequences to a depth bound from every standard error",
     "Two tests derive one error each.",
     ["errors.go"], [("message and cause chaining", "errors.go WithMessage/Wrap/Unwrap")], [], ["errors.Is, Error()"])

prop("C37", "Open flags are translated and interpreted faithfully",
     "For every combination of the os package's open flags, translation yields the same access mode and exactly the corresponding options, and each flag query answers according to that flag alone; any mode that can write or truncates requires write permission and no other does. Mount flags grant reading, writing and deleting each by its own bit alone, and a file status reports its type for every mode.",
     ["inputs"],
     "all combinations of all flags",
     "No test covers the flags.",
     ["flags.go", "api.go"], [("flag mapping", "flags.go OSFlagsToIOFlags and predicates"), ("mount flags and file types", "api.go MountFlags and FileStat predicates")], [], ["flag values and predicates"])

prop("C38", "Predefined disk geometries are found by slug and sized exactly",
     "Every predefined geometry is retrievable by its slug with the documented parameters, unknown slugs are refused, and the capacity of any geometry is the exact number of bits divided by eight rounded up. Volume statistics used as formatting options give exactly the block size times the number of blocks.",
     ["inputs", "configurations"],
     "every row of the geometry table, every geometry in a grid of parameters including word sizes that are not multiples of eight",
     "The disks package has no tests.",
     ["disks/disks.go", "disks/disk-geometries.csv"], [("table loading", "disks/disks.go init"), ("capacity", "disks/disks.go TotalSizeBytes")], [], ["returned geometry and size"])

prop("C39", "Unix V6 inode modes and metadata convert faithfully",
     "Converting inode flags to portable modes and back preserves the file type, the permission bits and the set-id bits for every flag value, and portable modes with a file type that Unix V6 cannot represent are refused. Inode metadata conversion reports the recorded size, the exact number of 512-byte blocks it occupies, owner, link count and timestamps.",
     ["inputs"],
     "all 65,536 inode flag words, all combinations of portable type and permission bits, all sizes at block boundaries",
     "The package has no tests.",
     ["file_systems/unixv6/dirents.go"], [("mode conversion", "file_systems/unixv6/dirents.go ConvertFSFlagsToStandard/ConvertStandardFlagsToFS"), ("inode conversion", "file_systems/unixv6/dirents.go RawInodeToStat")], [], ["returned modes and stats"])

prop("C40", "FAT metadata changes alter exactly what was requested",
     "Changing the mode or the times of a FAT file or directory hands its entry over for update exactly once, with the read-only attribute set exactly when no write permission is left, or with the given times, and everything else as it was; times before 1980 and missing paths are refused and nothing is updated. The times of an entry are set and read back exactly. Two listed objects are the same file exactly when they have the same first cluster, and operations FAT cannot support are refused without changing anything.",
     ["inputs", "histories", "faults"],
     "all attributes and modes, pairs of times around the representable limits, all sequences of changes to a depth bound, one fault at every access",
     "The driver's metadata operations have no tests.",
     ["file_systems/fat/driverbase.go", "file_systems/fat/dirent.go"], [("metadata changes", "file_systems/fat/driverbase.go Chmod, Chtimes, SameFile"), ("entry times", "file_systems/fat/dirent.go Set*At, Get*At")], [("updated entries", "file_systems/fat/driverbase.go FATDriverCommon.UpdateDirent")], ["updated entries, errors"])

prop("C41", "Features a file system lacks are refused, not faked, and nothing else suffers",
     "A file-system implementation may leave out listing, changing permissions, owners or times, hard links and symbolic links, for all or some of its objects. An operation that needs what the object or file system lacks fails with an error matching ErrNotImplemented or ErrNotSupported (or with another error it would have failed with anyway), without panicking, without changing anything it did not change before it got there and with every handle closed. Every other operation works as on a file system with all features. An object implemented on top of NopObjectHandle behaves as one that lacks everything.",
     ["inputs", "histories"],
     "all subsets of missing features for directories and other objects, all operations and short histories",
     "The driver package has no tests, and no implementation in the repository provides its interface.",
     [DR, "driver/file.go", "driver/fsobject.go", "driver/nopobject.go"], [("type assertions on handles", DR), ("forwarding wrapper", "driver/fsobject.go")], [], ["errors, contents, calls received by the implementation"])

prop("C42", "Test fixtures are what they were asked for and fail tests on misuse",
     "The helpers for tests of file systems do what they promise. CreateRandomImage gives an image of exactly the requested size with random content. A cache from CreateDefaultCache has the requested geometry, shows the backing data it was given (or random data), cannot be resized, and lets changes reach exactly that backing data when flushed if it is writable; if it is not, flushing a change fails, marks the test as failed and leaves the backing data alone. Nothing else marks the test as failed. LoadDiskImage gives a stream over exactly the uncompressed image, whose size is fixed and whose changes leave the compressed image alone, and ends the test as failed when the image is empty, damaged or not of the stated size.",
     ["inputs", "histories"],
     "all histories of cache operations to a depth bound, all truncations and bit changes of small images, a grid of sizes",
     "The helpers are used by tests, but nothing tests them; a wrong helper makes every test that uses it meaningless.",
     ["testing/blockcache.go", "testing/images.go"], [("fixtures", "testing/blockcache.go CreateRandomImage, CreateDefaultCache; testing/images.go LoadDiskImage")], [], ["contents, sizes, errors, and whether the test is marked as failed or ended"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
