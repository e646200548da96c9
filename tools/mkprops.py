#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is the table below)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, invariants=(), mechanism=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[], invariants=list(invariants) ,
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None)))

C = "pkg/col/"
p("C01", "Written rows are read back exactly, for every encoding",
  "Any sequence of non-empty blocks of (id, value) rows written through the block writer and finalized is read back by the reader as the same blocks in the same order, each with exactly the same ids and values. This holds for every 64-bit id (sorted or not, duplicates included), every 64-bit signed value, and each of the eight documented encodings.",
  ["inputs", "configurations", "histories"], "all ids, values, encodings 0-7, block shapes and block counts",
  "Tests round-trip a few hand-picked small positive values, mostly with encodings 0, 3, 4 and 7; a wrong bit at a varint boundary, a wrapped delta or one encoding treated differently by writer and reader is invisible to them.",
  [C+"writer_block_io.go", C+"writer_block.go", C+"writer_encoding.go", C+"encoding.go", C+"reader_block.go", C+"reader_decode.go"],
  mechanism=[("encode on write", C+"writer_encoding.go:encodeData"), ("decode on read", C+"reader_decode.go:decodeBlockData")],
  observe=["Reader.GetPairs", "Reader.BlockCount"])
p("C02", "The simple writer stores every accepted row exactly once",
  "After any sequence of batches accepted by the simple writer followed by a successful close, the file contains exactly the multiset of rows handed in: nothing lost, duplicated or re-paired, whatever the batch sizes, id order, encoding or target block size. Rows of one batch appear in ascending id order, batches stay in submission order, and the reported item total equals the number of rows.",
  ["inputs", "histories", "configurations"], "all batch histories, batch contents, target block sizes and encodings",
  "Tests push a handful of fixed batches; the splitting and carry-over of pending rows depends on batch sizes, the 1000-row threshold and page rounding together.",
  [C+"simple_writer.go", C+"writer_block_io.go"],
  mechanism=[("carry-over after a full block", C+"simple_writer.go:flushIfNeeded"), ("pair sort", C+"simple_writer.go:sortByID")],
  observe=["SimpleWriter.Write/Close/TotalItems", "Reader.GetPairs"])
p("C03", "Unfiltered aggregates are exact, cached or not",
  "For any finalized file the unfiltered aggregate reports exactly the number of rows, the smallest and largest value, the sum modulo 2^64 and the average sum/count of the rows written. The answer computed from stored statistics and the answer computed by reading all values are identical, including for extreme values such as the smallest 64-bit integer.",
  ["inputs", "configurations"], "all values and block partitions, both aggregation modes",
  "Tests compare against small positive values; sign handling of stored statistics at the extremes of the 64-bit range and the merge of per-block results are never exercised.",
  [C+"reader_aggregate.go", C+"utils.go", C+"encoding.go", C+"writer_finalize.go", C+"reader_header.go"],
  mechanism=[("stored statistics", C+"format.go:NewFooterEntry"), ("sign conversion", C+"encoding.go:int64ToUint64/uint64ToInt64")],
  observe=["Reader.Aggregate", "Reader.AggregateWithOptions"])
p("C04", "Filtered aggregates count exactly the admitted rows",
  "With an allow filter, a deny filter, both or neither, the aggregate reports count, min, max, sum and average of exactly those rows whose id is in the allow filter (if given) and not in the deny filter (if given). Skipping blocks never changes the answer; when no row is admitted, count, sum and average are zero.",
  ["inputs", "configurations"], "all row contents, block partitions, allow and deny sets",
  "Property tests sample random ids from one distribution; overlap of id ranges at exact block boundaries, unsorted ids, empty filters and extreme ids are not systematically reached.",
  [C+"reader_aggregate.go"],
  mechanism=[("row filter", C+"reader_aggregate.go:readBlockFiltered"), ("block skip", C+"reader_aggregate.go:FilteredBlockIterator")],
  observe=["Reader.AggregateWithOptions"])
p("C05", "Parallel aggregation equals sequential under every schedule",
  "For every worker count, positive, zero or negative, and every goroutine schedule, an aggregate computed in parallel returns the same result as the sequential one with the same options, and it always terminates. Workers share no unsynchronised mutable memory.",
  ["schedules", "inputs", "configurations"], "all interleavings of the workers, all worker counts, block counts, values and filters",
  "Tests run one schedule per execution and block counts that mostly divide evenly among the workers.",
  [C+"reader_aggregate.go"],
  mechanism=[("work partition and merge", C+"reader_aggregate.go:aggregateParallelWithFooter/aggregateParallelWithReading")],
  observe=["Reader.AggregateWithOptions"])
p("C06", "The global id bitmap is exactly the set of stored ids",
  "The id bitmap read from any finalized file contains an id if and only if some row of the file has that id, with or without bitmap caching and however often it is fetched. A file without rows yields an empty bitmap.",
  ["inputs", "histories"], "all ids and block histories, including partially written blocks, caching toggled at any point",
  "Tests check a fixed list of ids; ids dropped for a block that was split, or ids recorded though their rows were not stored, need particular histories.",
  [C+"writer_block_io.go", C+"writer_finalize.go", C+"reader.go"],
  mechanism=[("collect ids", C+"writer_block_io.go:writeBlockInternal"), ("serialise", C+"writer_finalize.go:writeGlobalIDBitmap"), ("cache", C+"reader.go:GetGlobalIDBitmap")],
  observe=["Reader.GetGlobalIDBitmap"])
p("C07", "Across files, the newest file's rows win",
  "Aggregating over an ordered list of files counts a row exactly when its id occurs in no newer file and is admitted by the allow filter, if any. Count, min, max, sum and average are exact over those rows, for any number of files, including none, empty files and files whose every row is superseded.",
  ["inputs", "histories"], "all contents of all files, any overlap of ids, any filter, either aggregation mode",
  "Tests use two or three files with one fixed overlap; chains of updates across three or more files, files that contribute nothing, and filters that hide the newest version are not covered.",
  ["pkg/multicol/aggregate.go", C+"reader_aggregate.go", C+"reader.go"],
  mechanism=[("deny list of newer ids", "pkg/multicol/aggregate.go:Aggregate"), ("merge", "pkg/multicol/aggregate.go:mergeAggregateResults")],
  observe=["MultiReader.Aggregate"])
p("C08", "Integer codecs are lossless, minimal and bounded",
  "For every 64-bit input the variable-length codecs (plain and zig-zag) decode their own encoding to the original, consume exactly the bytes produced even when other bytes follow, and produce the shortest little-endian base-128 form of 1 to 10 bytes. Delta coding of any sequence and the signed-to-stored conversion are inverses over the full 64-bit range. Decoding arbitrary bytes never reads past the input or more than ten bytes; a number cut short by the end of the input is reported by consuming no bytes or at most those present.",
  ["inputs"], "all 64-bit values, all sequences within the length bound, all byte strings within the length bound",
  "Unit tests cover a table of values; 2^64 inputs per codec and arbitrary malformed byte strings cannot be sampled.",
  [C+"encoding.go"],
  mechanism=[("varint", C+"encoding.go:encodeVarInt/decodeVarInt"), ("zigzag", C+"encoding.go:encodeSignedVarInt"), ("delta", C+"encoding.go:deltaEncode"), ("sign conversion", C+"encoding.go:int64ToUint64")],
  observe=["codec results", "file bytes"])
p("C09", "Files on disk follow the documented format, both ways",
  "Every finalized file decodes, by an independent decoder written from the format document alone, to the rows written: fixed 64-byte header, page-aligned consecutive blocks, section layout, per-encoding payload, size-prefixed bitmap at the recorded place, page-aligned footer and trailer. Conversely the reader returns the rows of any file produced by an independent encoder following that document.",
  ["inputs", "configurations"], "all rows, encodings, block shapes and block size targets",
  "Round-trip tests cannot see a change made symmetrically in writer and reader, which would make existing files unreadable; byte-level tests inspect one file.",
  [C+"writer_header.go", C+"writer_block.go", C+"writer_block_io.go", C+"writer_finalize.go", C+"reader_header.go", C+"reader_block.go", C+"reader_decode.go", "column_format_spec.md"],
  mechanism=[("page padding", C+"constants.go:calculatePadding"), ("footer", C+"writer_finalize.go:Finalize")],
  observe=["file bytes", "Reader API"])
p("C10", "Stored block metadata is exact",
  "For every block, the minimum and maximum id, minimum and maximum value, wrapped sum and row count recorded in the block's own header and in the file's index equal those of the rows in that block, and the recorded offset and size delimit exactly that block including its padding. The block count recorded in the header and in the index equals the number of blocks written.",
  ["inputs", "configurations", "histories"], "all rows in any order, all encodings, all block histories including split blocks",
  "Tests check the metadata of one sorted positive block; the metadata must describe original values under every encoding and order.",
  [C+"writer_block_io.go", C+"writer_block.go", C+"writer_finalize.go", C+"utils.go"],
  mechanism=[("statistics", C+"utils.go"), ("index entry", C+"writer_block.go:writeBlockFooter")],
  observe=["file bytes", "Reader.Aggregate"])
p("C11", "Block size targets are honoured and partial writes reported exactly",
  "Writing a block stores either all rows, when they fit the target size or there is a single row, or the longest proper prefix that fits (at least one row), in which case the error states exactly how many rows were stored. The size estimate for rows equals the size, padding included, that writing them then occupies in the file, and estimating changes nothing.",
  ["inputs", "configurations"], "all target sizes, row counts and values within the bound",
  "Tests use one target size and one row width; the cut depends on page rounding, the current file position and variable-length sizes.",
  [C+"writer_block_io.go", C+"constants.go"],
  mechanism=[("prefix search", C+"writer_block_io.go:WriteBlock"), ("estimate", C+"writer_block_io.go:EstimateBlockSize")],
  observe=["Writer.WriteBlock", "Writer.EstimateBlockSize", "file bytes"])
p("C12", "Block skipping is complete and queries read only what they need",
  "The list of candidate blocks for a filter is in ascending order without repeats, contains every block holding an admitted row, and, with a non-empty allow filter, contains no block whose id range lies entirely outside the filter's range. An unfiltered aggregate using stored statistics reads no file data, and a filtered aggregate reads no block that was excluded.",
  ["inputs", "configurations"], "all block contents and filters",
  "Tests check a few aligned ranges; a block wrongly skipped needs an id exactly on a range boundary, and extra reads are invisible in results.",
  [C+"reader_aggregate.go"],
  mechanism=[("range test", C+"reader_aggregate.go:FilteredBlockIterator")],
  observe=["Reader.FilteredBlockIterator", "file reads"])
p("C13", "A failed write, sync, seek or close is never reported as success",
  "If any file operation issued while creating, writing, finalizing or closing a file fails or is cut short, the call that issued it returns an error. Hence, when every call of a history succeeded, the complete file is on disk and was synced after its last write.",
  ["fault_sequences", "inputs"], "a fault at any operation of any write history within the bound, including short writes",
  "No test injects a fault; each of the dozens of file operations has its own error path.",
  [C+"writer.go", C+"writer_header.go", C+"writer_block.go", C+"writer_block_io.go", C+"writer_finalize.go", C+"simple_writer.go"],
  mechanism=[("error returns", C+"writer_block_io.go"), ("final sync", C+"writer_finalize.go:Finalize")],
  observe=["Writer and SimpleWriter errors", "file operations"])
p("C14", "A crash before finalization never passes for a complete file",
  "If the process dies at any point before finalization succeeds, opening what is on disk either fails or yields a file whose blocks, rows and id bitmap are exactly the complete contents. A partially written file is never silently served as a shorter or different file.",
  ["crash_points", "inputs"], "a crash after any prefix of the file operations, including a torn last write",
  "No test kills a writer; every prefix of every write history is a different file.",
  [C+"writer_finalize.go", C+"writer_block_io.go", C+"reader_header.go"],
  mechanism=[("trailer magic", C+"reader_header.go:readFooter")],
  observe=["NewReader error", "Reader.GetPairs", "Reader.GetGlobalIDBitmap"])
p("C15", "Damaged or hostile files cannot crash the reader",
  "Opening any sequence of bytes as a file, and reading any block of it when it opens, returns data or an error: it never panics, never runs unboundedly long and never requests memory out of proportion to the file. The ids and values returned for a block always have equal length, and rows are never invented for data that is not in the file.",
  ["inputs"], "all byte contents within the size bound, including truncations and arbitrary field values",
  "Tests only open files the writer produced; the length, offset and count fields of an arbitrary file take 2^32 to 2^64 values each.",
  [C+"reader_header.go", C+"reader_block.go", C+"reader_decode.go", C+"reader_io.go", C+"reader.go"],
  mechanism=[("footer validation", C+"reader_header.go:readFooter"), ("section bounds", C+"reader_block.go:readBlock")],
  observe=["NewReader", "Reader.GetPairs"])
p("C16", "Rejected calls leave no trace",
  "Writing mismatched slices, an empty block, an unsupported encoding or to a closed simple writer returns an error and leaves file contents, statistics and id bitmap as if the call had not been made; an out-of-range block read returns an error. Closing a simple writer twice, or writing an empty batch to it, has no effect and no error.",
  ["inputs", "histories", "configurations"], "all interleavings of rejected and accepted calls within the bound",
  "Tests check that an error is returned, not that the rejected call left every part of the state unchanged.",
  [C+"writer_block_io.go", C+"simple_writer.go", C+"reader_block.go", C+"writer_encoding.go"],
  mechanism=[("argument checks", C+"writer_block_io.go:WriteBlock")],
  observe=["Writer/SimpleWriter/Reader errors", "file bytes"])
p("C17", "Caller-owned data is neither changed nor retained",
  "No write call modifies the slices passed to it, and changing them after the call returns does not change what is stored. Slices returned by block reads, and id bitmaps fetched without caching, belong to the caller: changing them does not affect later reads, bitmaps or aggregates, and filters passed to aggregates are not modified.",
  ["inputs", "histories"], "all row contents and all later mutations",
  "Tests never mutate inputs or results afterwards; aliasing shows only when the caller reuses a buffer.",
  [C+"simple_writer.go", C+"writer_block_io.go", C+"writer_encoding.go", C+"reader_block.go", C+"reader_aggregate.go", "pkg/multicol/aggregate.go"],
  mechanism=[("defensive copy", C+"simple_writer.go:Write")],
  observe=["caller slices", "Reader.GetPairs"])
p("C18", "One reader serves concurrent and repeated queries consistently",
  "Any interleaving of block reads, aggregates, bitmap fetches and candidate-block listings on one open reader, from any number of goroutines, is free of data races and gives each call the result it would have had alone. Repeating a query gives the same answer, whatever ran in between.",
  ["schedules", "histories"], "all interleavings of read operations and all orders of queries within the bound",
  "The concurrency tests run one schedule with identical calls; hidden shared state such as a file cursor or a reused buffer needs a specific interleaving.",
  [C+"reader.go", C+"reader_io.go", C+"reader_block.go", C+"reader_aggregate.go"],
  mechanism=[("positional reads", C+"reader_io.go:readBytesAt")],
  observe=["Reader results", "shared memory accesses"])
p("C19", "Read failures are never turned into data",
  "If a file read fails or returns fewer bytes than requested while opening a file, reading a block or fetching the id bitmap, that call returns an error instead of data. A multi-file aggregate whose bitmap read fails returns an error.",
  ["fault_sequences", "inputs"], "a failed or short read at any read operation",
  "No test injects a read fault; short reads at end of file were zero-filled without notice.",
  [C+"reader_io.go", C+"reader_header.go", C+"reader_block.go", C+"reader.go", C+"reader_aggregate.go", "pkg/multicol/aggregate.go"],
  mechanism=[("read helper", C+"reader_io.go:readBytesAt")],
  observe=["NewReader", "Reader.GetPairs", "Reader.GetGlobalIDBitmap", "MultiReader.Aggregate"])
p("C20", "The command-line tool writes and prints exactly the given pairs",
  "The command-line tool's write command stores exactly the ids and values listed, in order, or fails with a non-zero exit and a message; it always fails when a list is malformed, lengths differ or a number does not fit 64 bits. Its read command prints every stored pair exactly once in order and the exact aggregates.",
  ["inputs"], "all list strings and file contents within the bound",
  "The command-line tool has no tests.",
  ["cmd/vibecol/main.go"],
  mechanism=[("parse and write", "cmd/vibecol/main.go:runWrite"), ("dump", "cmd/vibecol/main.go:runRead")],
  observe=["file contents", "standard output", "exit status"])
p("C21", "A reader describes its file truthfully",
  "For every writer configuration, the opened file reports the format version, the encoding it was written with, whether that encoding is delta (1, 2, 3, 5, 6 and 7) or variable-length (4 to 7), and the number of blocks written. The configured block size target and encoding are what the file header records, and the debug description lists the recorded offset, size, row count, id range, value range and sum of every block.",
  ["configurations", "histories"], "all encodings, block size targets and block counts",
  "Tests check one or two encodings.",
  [C+"reader.go", C+"writer_header.go", C+"writer_options.go", C+"reader_header.go", C+"writer_finalize.go"],
  mechanism=[("header rewrite", C+"writer_finalize.go:Finalize")],
  observe=["Reader.Version/EncodingType/IsDeltaEncoded/IsVarIntEncoded/BlockCount/DebugInfo", "file bytes"])
p("C22", "After a failed call, a writer recovers or says so",
  "When a block write fails on an I/O error and the file is nevertheless finalized successfully later, the file contains exactly the blocks whose writes succeeded, with their ids in the bitmap and their statistics in the aggregates, and no trace of the failed one. When a simple-writer flush or close fails and a repeated close succeeds, every accepted row is stored exactly once.",
  ["fault_sequences", "histories", "inputs"], "one failed write, sync, seek or truncate at any operation, followed by further calls, for all rows",
  "No test injects a write fault, let alone continues after one; state recorded before the write it describes surfaces only in that history.",
  [C+"writer_block_io.go", C+"writer_block.go", C+"writer_finalize.go", C+"simple_writer.go"],
  mechanism=[("record after write", C+"writer_block_io.go:writeBlockInternal"), ("bitmap placement", C+"writer_finalize.go:writeGlobalIDBitmap"), ("retry", C+"simple_writer.go:Close")],
  observe=["Writer/SimpleWriter errors", "Reader.GetPairs", "Reader.GetGlobalIDBitmap", "Reader.Aggregate"])
p("C23", "Files, readers and writers are independent of each other",
  "What is done with one reader or writer has no effect on any other. Writers used in turn or at the same time, of different encodings and block sizes, each leave a file with exactly the rows given to them. A file written under a name used before is read with its own rows, bitmap and statistics only, also while a reader of the former file is still open. Readers of different files, several readers of one file, and multi-file readers sharing readers, used in turn or from different goroutines, each answer from their own files, whatever is cached for or closed in another, without data races.",
  ["histories", "schedules", "configurations"], "all orders and interleavings of operations on two or three readers, writers or multi-file readers within the bound, for all values",
  "Tests use one writer and one reader at a time; state shared by accident (a package-level buffer, a cache keyed by name, offset or block number) shows only when two are used together or one after the other.",
  [C+"writer.go", C+"reader.go", C+"writer_block_io.go", C+"reader_block.go", C+"reader_io.go", C+"reader_aggregate.go", "pkg/multicol/aggregate.go"],
  mechanism=[("per-object state", C+"types.go"), ("bitmap cache", C+"reader.go:GetGlobalIDBitmap")],
  observe=["Reader results", "file contents", "shared memory accesses"])
p("C24", "Nothing outlives the call or the object that started it",
  "A call that fails to open or create a file leaves no file handle open, whichever operation failed and however the file is damaged. An open reader or writer holds one handle; closing it releases it, also when the close reports an error, and closing a multi-file reader closes every reader and reports an error if any close failed. Queries open no further handles, and when an aggregate returns every goroutine it started has ended, whatever its parallelism and whichever blocks are unreadable. Calls on closed readers and block writers that need the file return an error and change nothing.",
  ["fault_sequences", "schedules", "inputs"], "a fault at any operation, any of the modelled damages, all parallelism settings and schedules within the bound",
  "Tests do not count handles or goroutines; a leak needs a particular failing operation or unreadable block and shows only after thousands of calls.",
  [C+"reader.go", C+"writer.go", C+"writer_finalize.go", C+"simple_writer.go", C+"reader_aggregate.go", "pkg/multicol/aggregate.go"],
  mechanism=[("close on error", C+"reader.go:NewReader"), ("worker join", C+"reader_aggregate.go:aggregateParallelWithReading")],
  observe=["open file handles", "goroutines", "errors of calls on closed objects"])
p("C25", "The load-test tool imports and aggregates faithfully",
  "The load-test tool's import command, for any row count, block size, seed and limits (value limit of 20 or more, id limit of 1 or more), leaves a finalized file of exactly the requested number of rows and prints that number, or fails with a non-zero exit status and a message, never reporting success after a failed write. Its aggregate command prints exactly the number of blocks and the count, minimum, maximum, sum and average of the file's rows, whatever the cache and parallel options, and fails with a message for a file that cannot be opened, an unknown command or a wrong option.",
  ["inputs", "configurations", "fault_sequences"], "all rows, the random numbers drawn, options, failing file operations and row counts within the bound",
  "The tool has no tests; the numbers it prints are what runs are judged by.",
  ["cmd/loadtest/main.go", C+"simple_writer.go", C+"reader_aggregate.go"],
  mechanism=[("batches", "cmd/loadtest/main.go:runImport"), ("printing", "cmd/loadtest/main.go:runAggregations")],
  observe=["standard output", "exit status", "the imported file"])
p("C26", "A power loss never leaves a file that opens but is incomplete",
  "If power is lost at any point while a file is written, so that everything up to the last sync is on disk but later writes reached it in any order, in part or not at all, opening the file either fails or yields exactly the complete blocks, rows, aggregates and id bitmap. Once finalizing (or closing a simple writer) reported success, opening the file succeeds. Creating and truncating the file are taken to reach the disk in order, and rows not to imitate the trailer.",
  ["crash_points", "inputs"], "a power loss at any point of the write history, with every 512-byte sector at any of its states since the last sync and every file length passed through",
  "No test loses power; the states a disk may be left in are exponential in the number of unsynced writes.",
  [C+"writer_finalize.go", C+"writer_block_io.go", C+"reader_header.go"],
  mechanism=[("write barrier", C+"writer_finalize.go:Finalize"), ("trailer magic", C+"reader_header.go:readFooter")],
  observe=["NewReader error", "Reader.GetPairs", "Reader.Aggregate", "Reader.GetGlobalIDBitmap"])
p("C27", "A file can be finalized in stages, and open readers keep what they saw",
  "A writer may be finalized, given further blocks and finalized again any number of times: after every successful finalization opening the file yields exactly the blocks, rows, aggregates and id bitmap written so far, also when a finalization or block write in between failed. A reader opened at one stage shows exactly that stage, however the writer goes on; while blocks are pending, opening fails or shows the last finalized stage.",
  ["histories", "inputs", "fault_sequences"], "all rows, stages, numbers of blocks per stage and one fault within the bound",
  "Tests finalize every file once and read it afterwards; the positions of what a later stage writes depend on the whole history.",
  [C+"writer_finalize.go", C+"writer_block_io.go", C+"reader_header.go", C+"reader.go"],
  mechanism=[("appending", C+"writer_block_io.go:writeBlockInternal"), ("footer at the end", C+"writer_finalize.go:Finalize")],
  observe=["Writer.Finalize", "Reader.GetPairs", "Reader.Aggregate", "Reader.GetGlobalIDBitmap"])
p("C28", "A file that is still being written is never served incomplete",
  "Opening a file while its writer is creating, writing or first finalizing it, whatever the writer does between or after the file operations of opening it, either fails or yields a reader that shows exactly the complete blocks, rows, aggregates and id bitmap. Rows are taken not to imitate the trailer.",
  ["interleavings", "inputs"], "every progress of the writer before opening and during any of its file operations, within the bound",
  "Tests open files that are finalized; when a header and a footer are read at different stages of the writer is a matter of timing.",
  [C+"reader.go:NewReader", C+"reader_header.go", C+"writer_finalize.go"],
  mechanism=[("size before header before footer", C+"reader.go:NewReader"), ("header before footer", C+"writer_finalize.go:Finalize")],
  observe=["NewReader error", "Reader.GetPairs", "Reader.Aggregate", "Reader.GetGlobalIDBitmap"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
