#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "A written file reads back exactly: schema, row groups, pages and values",
  "Whatever schema, row groups, column chunks and pages (data pages V1 and V2, dictionary pages, every codec, any number of pages including none) are written, reading the finished file returns the same schema, the same number of row groups, columns and rows, the same pages in the same order with the same headers, and byte for byte the same levels and values once decompressed. Decoding those pages yields exactly the values and nulls that were encoded. Empty pages after the last value of a chunk hold nothing and need not be delivered. This holds through every synchronous way of reading a column.",
  ["inputs", "programs", "configurations"],
  "All schemas (at least one column, no empty groups; leaf types, repetitions, nesting), all sequences of row groups and pages (plain, dictionary, delta encodings; V1/V2), all codecs and levels, statistics on and off, Parquet version 1 and 2.",
  "The tests write one column of about eight values in one page of one row group; nothing covers several row groups, columns and pages, mixed page versions, empty chunks, dictionaries written by this crate or V2 pages with compressed values.",
  ["src/write/file.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/page.rs", "src/write/compression.rs", "src/read/page/reader.rs", "src/read/compression.rs", "src/read/column/mod.rs"],
  [("running offset over row groups, chunks, pages", "src/write/file.rs FileWriter::write; src/write/column_chunk.rs write_column_chunk"),
   ("value-count driven page loop", "src/read/page/reader.rs next_page/build_page"),
   ("V2 levels kept outside compression", "src/write/compression.rs compress_data; src/read/compression.rs decompress_v2")],
  [("offset", "absolute file position of the next byte to write", "src/write/file.rs FileWriter.offset"),
   ("seen_num_values", "values of the chunk already delivered", "src/read/page/reader.rs PageReader")],
  ["pages returned by the page iterator / column iterator", "decoded values"])

p("P02", "Footer offsets, sizes and counts describe exactly the bytes in the file",
  "In every finished file the footer describes the bytes really there: each chunk's byte range is exactly the concatenation of its pages, chunks do not overlap, and compressed and uncompressed totals, value counts, row counts, encodings, codec, row-group offset and ordinal equal what an independent scan of the pages gives. The size returned on completion equals the number of bytes written, the file starts and ends with the magic, and the footer length field is exact. The metadata exposed by the writer after completion is identical to the footer in the file.",
  ["inputs", "programs", "configurations"],
  "All files the writer can produce: any number of row groups (including 0), columns, pages per chunk (including 0), dictionary pages, codecs, page sizes from 0 bytes to hundreds of KiB, statistics and indexes on/off.",
  "Tests only read files back with this crate's own reader, which ignores most totals (file offsets, total sizes, ordinals, encodings, returned size); no test recomputes them from the bytes.",
  ["src/write/file.rs", "src/write/column_chunk.rs", "src/write/row_group.rs", "src/write/page.rs", "src/metadata/column_chunk_metadata.rs", "src/metadata/row_metadata.rs"],
  [("chunk totals", "src/write/column_chunk.rs build_column_chunk"), ("row-group totals", "src/write/row_group.rs write_row_group"), ("footer", "src/write/file.rs end_file"), ("byte_range", "src/metadata/column_chunk_metadata.rs")])

p("P03", "The asynchronous writer produces byte-for-byte the synchronous writer's file",
  "For the same schema, options, row groups, pages and key-value metadata, the asynchronous writer returns the same sizes and the same metadata and leaves the same bytes in its sink as the synchronous writer, however the sink splits or delays writes. On inputs that make one of them fail, the other fails as well.",
  ["inputs", "programs", "schedules", "configurations"],
  "All writable files as in P01/P02 (including page lists the writer must reject) and all schedules of partial and pending writes of the asynchronous sink.",
  "One test writes one column of a few values with the asynchronous writer and never compares bytes; no test uses a sink that returns Pending or partial writes.",
  ["src/write/stream.rs", "src/write/file.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/page.rs", "src/write/indexes/write.rs"],
  [("duplicated sync/async write paths", "src/write/{page,column_chunk,row_group,indexes/write,stream}.rs")])

p("P04", "Asynchronous reading returns exactly what synchronous reading returns",
  "Asynchronous reading of a well-formed file, of its metadata, of the pages of a column chunk (from a seekable source or from a source already positioned at the chunk), and of all columns of a field returns the same metadata, pages, buffers and values as synchronous reading, however the source splits or delays reads. Page filters and size limits (not below the size of a page header) select and reject the same pages.",
  ["inputs", "schedules", "configurations"],
  "All well-formed files of P01, all page filters, all fields, all page-size limits, all schedules of partial, pending and interrupted reads.",
  "Asynchronous reading is tested on a handful of sample files (absent here) from in-memory cursors that never return Pending or short reads.",
  ["src/read/stream.rs", "src/read/page/stream.rs", "src/read/column/stream.rs", "src/read/metadata.rs", "src/read/page/reader.rs"],
  [("duplicated footer read", "src/read/stream.rs read_metadata"), ("duplicated page loop", "src/read/page/stream.rs _get_page_stream"), ("read_columns_async", "src/read/column/stream.rs")])

p("P05", "How the source or sink splits I/O never changes what is read or written",
  "Reading metadata, pages, page indexes, bloom filters and columns from a source that returns data in arbitrarily small pieces or is interrupted, wherever it is positioned beforehand, gives the same result as reading from memory. Writing to a sink that accepts arbitrarily few bytes per call or is interrupted leaves the same file and the same returned size.",
  ["inputs", "schedules", "fault_sequences"],
  "All well-formed files, all splittings of reads and writes into partial transfers, all placements of Interrupted, all initial source positions.",
  "Every test reads from a File or Cursor, which always satisfies a request fully; a partial transfer never happens.",
  ["src/read/metadata.rs", "src/read/page/reader.rs", "src/read/page/indexed_reader.rs", "src/read/indexes/read.rs", "src/bloom_filter/read.rs", "src/write/page.rs", "src/write/file.rs", "src/write/indexes/write.rs"],
  [("take + read_to_end instead of read", "src/read/page/reader.rs build_page and others"), ("write_all", "src/write/page.rs write_page")])

p("P06", "A failing or misused writer reports an error and never completes a broken file",
  "If the sink fails at any byte or flush, or the supplied pages or columns fail at any point, the call in progress reports an error; from then on the writer never reports a successful completion of a file that lacks data it accepted or that cannot be read. A file can be completed at most once, nothing can be appended to a completed file, metadata is available exactly after successful completion, and a row group with fewer columns than the schema is rejected.",
  ["fault_sequences", "histories", "crash_points"],
  "All positions of a sink failure (every byte of the file, every flush), all positions of a failure among pages and columns, all sequences of write/end calls on the synchronous and the asynchronous writer.",
  "No test injects a sink failure, continues after an error, calls end twice, or writes after end.",
  ["src/write/file.rs", "src/write/stream.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/page.rs"],
  [("writer state", "src/write/file.rs FileWriter::{start,write,end}; src/write/stream.rs FileStreamer"), ("error propagation with ?", "src/write/*.rs")],
  [("state", "Initialised, Started, Finished", "src/write/mod.rs State")])

p("P07", "Reading corrupt or hostile files fails cleanly: no panic, abort or huge memory",
  "Reading any byte string as a Parquet file - footer, schema, statistics, page headers, pages, page indexes, decompression and decoding of the pages' contents - ends with a value or an error: it never panics, never overflows the stack, and yields a number of pages bounded by the input. Memory for reading stays proportional to the input plus the page-size limit the caller gives; decompression takes at most the uncompressed size the page declares, which the caller can inspect before decompressing.",
  ["inputs", "fault_sequences"],
  "All byte strings; in practice valid files with mutated bytes, mutated or spliced footers and page headers with hostile lengths, counts, encodings and types, and deeply nested or inconsistent schemas.",
  "Three tests feed one hand-made bad input each; the space of malformed files cannot be enumerated by examples.",
  ["src/read", "src/metadata", "src/schema/io_thrift/from_thrift.rs", "src/page/mod.rs", "src/parquet_bridge.rs", "src/indexes/index.rs", "src/deserialize", "src/encoding"],
  [("bounded thrift deserialisation", "src/read/metadata.rs deserialize_metadata"), ("WouldOverAllocate", "src/read/page/reader.rs build_page"), ("try_into on every header field", "src/parquet_bridge.rs")])

p("P08", "Truncated files and failing sources give an error, never silently less data",
  "Reading the metadata of any strict prefix of a file the writer produced reports an error unless the prefix itself ends in a complete footer, and if a source ends early or fails anywhere inside a page (also one the filter skips), page index or bloom filter that is being read, that read reports an error instead of returning fewer or altered bytes. An I/O error of the source always reaches the caller.",
  ["inputs", "fault_sequences", "crash_points"],
  "All prefixes of all well-formed files, and all positions at which a source reports an I/O error or end of file.",
  "No test truncates a file or injects a read error.",
  ["src/read/metadata.rs", "src/read/page/reader.rs", "src/read/page/stream.rs", "src/read/page/indexed_reader.rs", "src/read/indexes/read.rs", "src/bloom_filter/read.rs"],
  [("length check after read_to_end", "src/read/page/reader.rs build_page"), ("trailing magic and footer length checks", "src/read/metadata.rs read_metadata_with_size")])

p("P09", "Pages larger than the caller's page-size limit are rejected; others are not",
  "A page reader, stream or column reader given a maximum page size returns every page whose stored size is within the limit unchanged, and reports an error, without allocating its declared size, for a page whose stored size exceeds it. The limit also bounds the memory used to read a page header, and holds for every page of the chunk, whatever its position, version or kind.",
  ["inputs", "configurations"],
  "All limits from 0 upwards, including exactly the page's size and one below, all page sizes, versions, kinds and positions in the chunk, sync and async.",
  "One test uses one generous limit; no test has a limit below, at, or just above a page's size.",
  ["src/read/page/reader.rs", "src/read/page/stream.rs", "src/read/column/mod.rs", "src/read/column/stream.rs"],
  [("limit check before reserve", "src/read/page/reader.rs build_page"), ("stream limit", "src/read/page/stream.rs _get_page_stream")])

p("P10", "Decompression inverts compression for every codec, level and input",
  "For every codec and every valid compression level, decompressing the compressed form of any bytes into a buffer of the original length gives back exactly those bytes, and compression only appends to its output buffer. Streams produced by another implementation of the codec, or split into several frames or members where the format allows it, decompress to the same bytes. Invalid levels, and streams whose content is shorter than the declared length, are rejected. The same holds whichever implementation of LZ4 the crate is built with (features lz4 and lz4_flex), and one reads what the other writes; a codec whose feature is absent is refused with an error.",
  ["inputs", "configurations"],
  "All byte strings (empty, incompressible, highly compressible, hundreds of KiB), all codecs, all levels in and out of range, all prior contents of the output buffer.",
  "Unit tests compress one 1000-byte pattern per codec with default levels.",
  ["src/compression.rs", "src/parquet_bridge.rs"],
  [("per-codec dispatch", "src/compression.rs compress/decompress"), ("level validation", "src/parquet_bridge.rs *Level::try_new")])

p("P11", "LZ4 (deprecated codec) data decodes in Hadoop-framed and raw block form",
  "A page compressed with the deprecated LZ4 codec decodes to the original bytes whether it was stored as any number of Hadoop frames or as a raw LZ4 block; corrupt input gives an error, never a panic, with either implementation of LZ4 the crate can be built with.",
  ["inputs", "configurations"],
  "All byte strings, both LZ4 features, all splittings into Hadoop frames (including empty frames and frames of very different sizes), and all corruptions of them.",
  "One sample file per variant, absent from this tree; multi-frame pages with a small last frame never occur in them.",
  ["src/compression.rs"],
  [("try_decompress_hadoop with fallback", "src/compression.rs")])

p("P12", "Page (de)compression is exact, version-aware and independent of scratch buffers",
  "Compressing a page and decompressing it gives back the same header, buffer, row selection and dictionary attributes for both data-page versions and dictionary pages; in V2 pages the levels stay uncompressed in front of the values and a page marked as not compressed is taken verbatim. The result never depends on the contents or capacity of the scratch buffers, which may be reused across pages of any size, kind and codec. The streaming compressor and both streaming decompressors give the same pages as page-at-a-time calls, and hand back their buffers for reuse.",
  ["inputs", "histories", "configurations"],
  "All sequences of pages of different sizes, versions and kinds, all codecs, all prior contents and capacities of the buffers.",
  "Two tests run a decompressor over one two-page chunk with an empty buffer.",
  ["src/write/compression.rs", "src/read/compression.rs", "src/page/mod.rs"],
  [("buffer resize logic", "src/read/compression.rs decompress_buffer"), ("buffer swapping", "src/read/compression.rs Decompressor::advance; src/write/compression.rs Compressor::advance")])

p("P13", "Bit-packing: encode and decode are exact inverses at every width and length",
  "For 8-, 16-, 32- and 64-bit integers, every bit width from 1 up to the type's width, and every number of values, packing into a zeroed buffer with room for whole blocks writes exactly ceil(n*width/8) bytes in Parquet's least-significant-bit-first order and unpacking returns the original values; values beyond those needed are never produced and reported lengths are exact. Unpacking arbitrary bytes gives the values a naive bit reader gives, and inputs too short for the requested count are rejected.",
  ["inputs"],
  "All types, widths, value sequences and lengths (around multiples of the 8/16/32/64-value block), all byte strings.",
  "Unit tests use a few widths with fixed inputs and one compare loop over widths for one length.",
  ["src/encoding/bitpacked"],
  [("macro-generated pack/unpack", "src/encoding/bitpacked/{pack,unpack}.rs"), ("tail handling", "src/encoding/bitpacked/{encode,decode}.rs")])

p("P14", "Hybrid RLE/bit-packed data: what is encoded decodes back, any valid mix decodes",
  "Encoding any sequence of integers that fit the bit width with the hybrid encoding gives a stream that conforms to the standard (padding of its last group aside) and decodes to exactly the sequence. Any stream that is a valid mix of repeated and bit-packed runs, whoever produced it, decodes to the values of its runs, cut at the requested count. Reported lengths agree with what is produced, and malformed streams give an error or end early, never a panic.",
  ["inputs"],
  "All bit widths 0..32, all value sequences, all partitions of a sequence into runs (including zero-length runs, long runs, padded last groups), arbitrary byte strings.",
  "Tests decode a few byte strings; this crate's encoder never emits repeated runs for integers, so run mixes are reached by three samples at most.",
  ["src/encoding/hybrid_rle", "src/encoding/uleb128.rs", "src/encoding/mod.rs"],
  [("run iteration", "src/encoding/hybrid_rle/decoder.rs Decoder"), ("run state machine", "src/encoding/hybrid_rle/mod.rs HybridRleDecoder"), ("encode_u32", "src/encoding/hybrid_rle/encoder.rs")])

p("P15", "Boolean and validity runs: encoder and bitmap-run iterators agree with a model",
  "Encoding any sequence of booleans (levels or values) gives a conforming width-1 hybrid stream. Iterating any conforming width-1 stream as runs, as booleans or as filtered runs, and iterating bitmaps from any offset, yields exactly the modelled booleans, stops exactly at the requested length, and reports exact remaining lengths.",
  ["inputs"],
  "All boolean sequences, all run mixes (bitmaps with padding, repeated runs, empty runs), all lengths, all bitmap offsets.",
  "Unit tests use one or two byte strings, each with a single run or one fixed mix.",
  ["src/encoding/hybrid_rle/encoder.rs", "src/encoding/hybrid_rle/bitmap.rs", "src/deserialize/hybrid_rle.rs", "src/deserialize/filtered_rle.rs"],
  [("bitpacked_encode of booleans", "src/encoding/hybrid_rle/encoder.rs"), ("run iterators", "src/deserialize/hybrid_rle.rs"), ("BitmapIter", "src/encoding/hybrid_rle/bitmap.rs")])

p("P16", "DELTA_BINARY_PACKED round-trips all integers and decodes any conforming stream",
  "Encoding any sequence of 64-bit integers with the delta encoding and decoding it returns the sequence, with arithmetic wrapping at the integer range as the format prescribes. Any conforming stream - any legal block size, miniblock count and bit widths, unneeded miniblocks present or not - decodes to its values, and the number of bytes consumed is exactly the length of the stream even when other bytes follow.",
  ["inputs"],
  "All sequences of i64 (extremes, all lengths around block and miniblock limits), all legal block layouts, all trailing data, arbitrary byte strings for absence of panics.",
  "Unit tests use short lists with small values and two hand-made streams; the encoder only produces one block layout.",
  ["src/encoding/delta_bitpacked", "src/encoding/zigzag_leb128.rs", "src/encoding/uleb128.rs"],
  [("block/miniblock iteration", "src/encoding/delta_bitpacked/decoder.rs"), ("encoder", "src/encoding/delta_bitpacked/encoder.rs"), ("consumed_bytes", "src/encoding/delta_bitpacked/decoder.rs")])

p("P17", "Byte-array encodings (plain, delta-length, delta) round-trip any byte strings",
  "Encoding any sequence of byte strings with the plain, delta-length or delta (prefix-sharing) encoding and decoding it returns the same strings in the same order, whether lengths and payload are consumed through the iterator or through the returned value buffer. Streams of other conforming encoders (any legal prefix choice) decode to their strings, and corrupt streams give an error or end, never a panic.",
  ["inputs"],
  "All sequences of byte strings (empty ones, repeated ones, one a prefix of another, long ones, any number), all legal prefix choices, all corruptions.",
  "Each encoding has one test over two or three short strings.",
  ["src/encoding/plain_byte_array.rs", "src/encoding/delta_length_byte_array", "src/encoding/delta_byte_array"],
  [("prefix computation", "src/encoding/delta_byte_array/encoder.rs"), ("lengths then values", "src/encoding/delta_length_byte_array"), ("BinaryIter", "src/encoding/plain_byte_array.rs")])

p("P18", "Variable-length integers round-trip and malformed ones are rejected",
  "Encoding any unsigned or zigzag-signed 64-bit integer as a variable-length integer gives the canonical bytes, and decoding them returns the integer and the exact number of bytes used, whatever follows. Truncated or overlong encodings are reported as errors.",
  ["inputs"],
  "All u64 and i64, all following bytes, all byte strings of up to 12 bytes.",
  "Unit tests use three numbers and never a truncated or overlong input.",
  ["src/encoding/uleb128.rs", "src/encoding/zigzag_leb128.rs"],
  [("encode/decode loops", "src/encoding/uleb128.rs, src/encoding/zigzag_leb128.rs")])

p("P19", "Value decoders accept arbitrary bytes without panicking or running away",
  "Every public decoder of levels or values, given arbitrary bytes and any declared number of values, bit width and type size, either refuses them or yields at most the declared number of items (or what the bytes can hold), and never panics, overflows the stack or allocates memory out of proportion to its input. Once an iterator has ended or failed it does not yield data again.",
  ["inputs"],
  "All byte strings, all declared counts, widths and sizes, for every decoder: bit-packed, hybrid, boolean, delta, delta-length, delta byte array, plain, page splitting, page state construction.",
  "No test passes malformed bytes to the decoders beyond two examples.",
  ["src/encoding", "src/deserialize", "src/page/mod.rs"],
  [("Result-returning iterators", "src/encoding/*/decoder.rs"), ("split_buffer", "src/page/mod.rs")])

p("P20", "Decoding a data page gives exactly the encoded values, nulls and dictionary keys",
  "For every physical type, page version, required or optional column, plain or dictionary (both dictionary encodings) page, the decoding state built from the page yields exactly the encoded values, validity and dictionary keys in order, resolves keys to the dictionary's entries, and reports exact lengths. Splitting a page returns exactly its repetition levels, definition levels and values. Encodings that are not supported, and dictionary-encoded pages without a dictionary, are reported as errors.",
  ["inputs", "configurations"],
  "All physical types, V1/V2, optionality, all value/null sequences, all run partitions of the definition levels, all dictionaries and key widths, all encodings.",
  "The tests decode pages written by one encoder with a single run of levels and small arrays.",
  ["src/deserialize/native.rs", "src/deserialize/binary.rs", "src/deserialize/fixed_len.rs", "src/deserialize/boolean.rs", "src/deserialize/utils.rs", "src/page/mod.rs"],
  [("page states", "src/deserialize/{native,binary,fixed_len,boolean}.rs try_new"), ("split_buffer", "src/page/mod.rs"), ("dict_indices_decoder", "src/deserialize/utils.rs"), ("OptionalValues/DefLevelsDecoder", "src/deserialize/utils.rs")])

p("P21", "Row selection inside a page returns exactly the selected rows",
  "Decoding a page with a set of selected row intervals yields exactly the values and nulls that decoding the whole page and keeping the selected rows would yield, for every physical type, encoding and optionality. The filtered validity runs account for every selected row once, and report exactly how many non-null values to skip between them.",
  ["inputs"],
  "All pages of P20, all sets of sorted disjoint row intervals (adjacent, single-row, whole page, none, at run boundaries and across many runs).",
  "Unit tests check about ten hand-made streams with one or two intervals each.",
  ["src/deserialize/filtered_rle.rs", "src/deserialize/utils.rs", "src/deserialize/native.rs", "src/deserialize/binary.rs", "src/deserialize/fixed_len.rs", "src/deserialize/boolean.rs"],
  [("FilteredHybridBitmapIter", "src/deserialize/filtered_rle.rs"), ("SliceFilteredIter", "src/deserialize/utils.rs")])

p("P22", "Row intervals map to pages exactly: no row lost, duplicated or misplaced",
  "For any page locations and any set of row intervals, the per-page selections partition the selected rows: mapping each page's selection back to absolute rows gives exactly the selected rows that exist, once each, in order, and every page reports its own location and its exact number of rows. Selecting pages gives exactly the row intervals of those pages; inconsistent locations are reported as errors.",
  ["inputs"],
  "All lists of page locations (any number, empty pages, columns paged differently), all row counts, all lists of sorted disjoint intervals, inconsistent locations included.",
  "Seven hand-made cases with one to three pages and one interval.",
  ["src/indexes/intervals.rs"],
  [("compute_page_row_intervals", "src/indexes/intervals.rs"), ("is_in", "src/indexes/intervals.rs"), ("select_pages/compute_rows", "src/indexes/intervals.rs")])

p("P23", "Reading with page indexes equals a full scan followed by a filter",
  "Reading a column through its page index with any row selection returns, after decoding, exactly the selected rows of a full scan, in order; pages without selected rows are not read, and the dictionary is delivered first whenever the chunk has one. Selecting all rows gives the same pages as the plain reader, pages without rows aside. Malformed locations give an error, never a panic.",
  ["inputs", "configurations"],
  "All files with offset indexes written by this crate, all row selections, all columns (also with different page boundaries), all codecs, dictionary or not, reused buffers, mutated locations.",
  "One test reads one written page through an index.",
  ["src/read/page/indexed_reader.rs", "src/indexes/intervals.rs", "src/read/indexes/read.rs", "src/deserialize/utils.rs"],
  [("IndexedPageReader", "src/read/page/indexed_reader.rs"), ("dictionary detection by offset", "src/read/page/indexed_reader.rs read_dict")])

p("P24", "Column and offset indexes in a file describe its pages exactly",
  "The offset index of every chunk lists exactly its data pages: position, stored size including header, and first row; the column index lists for each page, however many there are, its minimum, maximum, null count and whether it holds only nulls, as declared by the page's statistics. Column indexes are written exactly when statistics are requested, a missing index reads as empty, and pages that lack what an index needs are reported as errors rather than given a wrong index. Indexes of any writer, wherever they lie in the file, read as exactly what they state; ones that contradict themselves or their column's type are errors.",
  ["inputs", "configurations"],
  "All physical types, any number of row groups, columns and pages with any statistics (absent, partial, all-null pages), statistics on/off, sync and async.",
  "Two tests write a single page of integers or binary.",
  ["src/write/indexes", "src/read/indexes", "src/indexes/index.rs", "src/write/file.rs"],
  [("serialize_column_index/serialize_offset_index", "src/write/indexes/serialize.rs"), ("deserialize", "src/read/indexes/deserialize.rs"), ("consecutive index reads", "src/read/indexes/read.rs prepare_read")])

p("P25", "Statistics survive serialisation for every physical type",
  "Serialising statistics and reading them back for the same column type returns equal statistics: minimum, maximum, null count and distinct count, each present or absent. Min and max bytes use the format's encoding of the type, statistics whose bytes do not fit the type are rejected when read, and equality of statistics distinguishes different ones.",
  ["inputs"],
  "All physical types, all values including extremes, NaN bit patterns and empty or long byte strings, every combination of present and absent fields, arbitrary bytes on reading.",
  "Tests compare statistics of one file per type with all fields present.",
  ["src/statistics"],
  [("read/write per type", "src/statistics/{primitive,binary,fixed_len_binary,boolean}.rs"), ("dispatch on physical type", "src/statistics/mod.rs")])

p("P26", "Chunk statistics combine page statistics soundly: bounds enclose every page",
  "The statistics of a written column chunk that are derived from its pages never exclude a page: the minimum is at most every page's minimum and the maximum at least every page's maximum in the column's sort order, both are attained by some page, and the null count, when present, is the sum over all pages. A chunk with a page that does not bound its values (no statistics, or bounds missing though it is not all null) has no bounds; types without a defined order (Int96, interval) have none either. Distinct counts are never invented, and chunks whose pages have no statistics have none.",
  ["inputs"],
  "All physical types, any number of pages in any order, any statistics (absent fields, absent statistics, equal values, one value a prefix of another, extremes, all-null pages, NaN bounds, which count as missing).",
  "Three unit tests combine two or three hand-made page statistics.",
  ["src/write/statistics.rs", "src/types.rs", "src/write/column_chunk.rs"],
  [("reduce*", "src/write/statistics.rs"), ("ord_binary", "src/types.rs"), ("NativeType::ord", "src/types.rs")])

p("P27", "Schemas survive the file format and columns carry the right levels and paths",
  "Converting any valid schema to the file's flattened form and back returns an equal schema: names, nesting, repetition, field ids, physical, converted and logical types. The derived columns are the leaves in depth-first order, each with its full path, its base field and maximum definition and repetition levels equal to the number of non-required and of repeated nodes on its path. A schema contains exactly its own projections.",
  ["inputs"],
  "All schema trees (any width and depth, all repetitions, all legal type annotations, any names, ids present or absent).",
  "Tests convert the schemas of a few sample files and one or two literals.",
  ["src/schema/io_thrift", "src/schema/types", "src/metadata/schema_descriptor.rs", "src/metadata/column_descriptor.rs", "src/parquet_bridge.rs"],
  [("to_thrift/from_thrift", "src/schema/io_thrift"), ("build_tree", "src/metadata/schema_descriptor.rs"), ("enum bridges", "src/parquet_bridge.rs")])

p("P28", "Parsing a textual schema gives the schema the text describes, or an error",
  "Parsing the textual form of any schema, in any legal spelling (case of keywords, spacing, optional ids and annotations), gives exactly that schema. Text that is not a schema is reported as an error; parsing never panics or overflows the stack.",
  ["inputs", "programs"],
  "All schema trees rendered with all legal spellings, all mutations of such text, arbitrary text.",
  "About twenty literal texts are tested; parsing is recursive over unbounded input.",
  ["src/schema/io_message/from_message.rs"],
  [("Tokenizer and Parser", "src/schema/io_message/from_message.rs")])

p("P29", "Type annotations that contradict the physical type are always rejected",
  "Building a column type accepts exactly the combinations in which each annotation, converted or logical, is one the format allows for the physical type (decimal precision limits per type, integer widths, time units, fixed lengths; the annotation for columns of nulls aside) and lengths fit the format, and rejects all others, whether the type is built by the program or read from a file. A file whose schema tree is inconsistent (child counts, missing or unknown types) is rejected.",
  ["inputs"],
  "All combinations of physical type, length, converted type and logical type with their parameters (precision, scale, bit width, signedness, unit); all inconsistent flattened schemas.",
  "A handful of combinations are tested.",
  ["src/schema/types/spec.rs", "src/schema/types/parquet_type.rs", "src/schema/types/converted_type.rs", "src/schema/io_thrift/from_thrift.rs", "src/parquet_bridge.rs"],
  [("check_*_invariants", "src/schema/types/spec.rs"), ("try_from_primitive", "src/schema/types/parquet_type.rs"), ("child count validation", "src/schema/io_thrift/from_thrift.rs")])

p("P30", "Footer metadata round-trips, and sidecar files carry it unchanged",
  "Reading footer metadata from a file and converting it back for writing preserves version, schema, row counts, row groups, column chunks (offsets, sizes, codecs, statistics, file paths, index positions), key-value metadata and creator; column orders are interpreted per column with the type's defined sort order. A sidecar file written from metadata reads back to the same metadata, whatever its size, including footers larger than the reader's first read.",
  ["inputs", "configurations"],
  "All metadata: any numbers of row groups and columns, any optional fields present or absent, footers from 100 bytes to several hundred KiB, all types with their sort orders.",
  "One sidecar test with a small file; no test has a footer larger than the initial 64 KiB read.",
  ["src/metadata", "src/write/file.rs", "src/read/metadata.rs", "src/parquet_bridge.rs"],
  [("try_from_thrift/into_thrift", "src/metadata/*.rs"), ("write_metadata_sidecar", "src/write/file.rs"), ("second footer read", "src/read/metadata.rs read_metadata_with_size"), ("get_sort_order", "src/metadata/sort.rs")])

p("P31", "Bloom filters never deny an inserted value and match the format's definition",
  "After inserting any set of values into a bitset of any number of blocks, every inserted value is reported as possibly present, and insertion sets exactly the bits the format prescribes for the value's hash and nothing else. Hashes of native and byte values equal the format's hash of their plain encoding. A bloom filter stored in a file reads back exactly, absent ones read as empty, and damaged ones are reported as errors.",
  ["inputs", "histories"],
  "All sequences of inserted values, all bitset sizes of whole 32-byte blocks, all native types and byte strings, all header contents and file positions.",
  "Tests insert a few integers in one 32-byte or 1 KiB bitset and read one sample file.",
  ["src/bloom_filter"],
  [("split-block insert/check", "src/bloom_filter/split_block.rs"), ("hash", "src/bloom_filter/hash.rs"), ("read", "src/bloom_filter/read.rs")])

p("P32", "Filtering row groups, columns and pages keeps exactly what the filter accepts",
  "Filtering row groups keeps exactly the accepted ones, unchanged and in order; the columns of a field are exactly its leaves in schema order; a page filter removes exactly the data pages it rejects, never a dictionary page, and leaves the others unchanged, however many pages are skipped. Reading all columns of a field or row group visits each column once, in order, with its own pages.",
  ["inputs", "configurations"],
  "All files of P01 (also with thousands of pages), all predicates on row groups and page headers, all fields including nested ones and fields sharing name prefixes, buffers reused across columns.",
  "The column iterators are tested on the first column of one sample file with no filter.",
  ["src/read/mod.rs", "src/read/column/mod.rs", "src/read/page/reader.rs", "src/read/page/stream.rs"],
  [("filter_row_groups, get_field_columns", "src/read/mod.rs"), ("pages_filter", "src/read/page/reader.rs PageReader::next"), ("ColumnIterator/ReadColumnIterator", "src/read/column/mod.rs")])

p("P33", "Metadata types survive serde serialisation",
  "With serialisation support enabled, serialising and deserialising file metadata, schemas, columns, column chunks, row selections and enumerations through a self-describing or a compact format returns equal values, and column-chunk metadata obtained that way reads the same pages from the file.",
  ["inputs", "configurations"],
  "All metadata of all well-formed files, all schema types, two serialisation formats.",
  "No test exercises this feature.",
  ["src/metadata/column_chunk_metadata.rs", "src/metadata", "src/schema/types", "src/indexes/intervals.rs", "src/parquet_bridge.rs"],
  [("serialize_column_chunk/deserialize_column_chunk", "src/metadata/column_chunk_metadata.rs"), ("derived serialisation", "src/**")])

p("P34", "Native values encode, convert and order as the format says",
  "Every native type (32- and 64-bit integers, floats, doubles and 96-bit timestamps) encodes to its little-endian plain form and decodes back bit for bit. Comparing two values gives the order of the numbers, of the instants for timestamps, and the unsigned lexicographic order for byte strings. Converting a 96-bit timestamp to nanoseconds since the epoch is exact when it fits in 64 bits and is clamped otherwise. None of these panics for any bit pattern of the right size.",
  ["inputs"],
  "All bit patterns of each native type and all pairs of them; all byte strings.",
  "Tests convert a couple of timestamps near the present.",
  ["src/types.rs"],
  [("NativeType", "src/types.rs"), ("int96_to_i64_ns", "src/types.rs"), ("ord_binary", "src/types.rs")])

p("P35", "Codes in files and the library's enumerations mean the same, both ways",
  "Every code the format defines for repetitions, codecs, page types, encodings, boundary orders, physical types, converted and logical types is read as the enumeration member of that meaning, and every member is written with the format's code and parameters; every other code, and every code of the wrong kind (a group's annotation on a primitive type), is rejected. Compression options keep their codec whatever their level; levels are accepted exactly when within the documented range. Pages report the encodings, sizes, rows and counts of their header, whichever its version.",
  ["inputs"],
  "All 32-bit codes of each enumeration, all parameters (lengths, precisions, scales, widths, units), all levels, all page headers of both versions.",
  "Round-trip tests of three enumerations and no unknown code; a round trip does not notice two members swapped on both sides.",
  ["src/parquet_bridge.rs", "src/schema/types/converted_type.rs", "src/schema/types/physical_type.rs", "src/page/mod.rs", "src/encoding/mod.rs", "src/read/levels.rs"],
  [("TryFrom/From of each enumeration", "src/parquet_bridge.rs"), ("CompressionLevel::is_valid_level", "src/parquet_bridge.rs"), ("PhysicalType and converted types", "src/schema/types"), ("DataPageHeaderExt, DataPage accessors", "src/parquet_bridge.rs, src/page/mod.rs")])

p("P36", "Reading asks the source only for the bytes it needs, when it needs them",
  "Reading metadata reads nothing before the footer and the last 64 KiB, whatever the size of the file. Opening a page reader or stream reads nothing; each page asked for reads its header and body and nothing further, so that what was read ends where the last page delivered does. Reading the columns of a field, its pages under any filter, the page indexes or a bloom filter stays within their ranges in the file and reads no byte twice; absent indexes and filters read nothing.",
  ["inputs", "histories"],
  "All files of P01 also behind large amounts of other data, all sets of columns, filters and places to stop, sources that hand out few bytes at a time, both kinds of readers.",
  "No test looks at what is asked of the source; a reader that fetches too much returns the same values.",
  ["src/read/metadata.rs", "src/read/stream.rs", "src/read/page", "src/read/column", "src/read/indexes/read.rs", "src/bloom_filter/read.rs", "src/transport.rs"],
  [("footer read", "src/read/metadata.rs, src/read/stream.rs"), ("page reader and stream", "src/read/page/reader.rs, src/read/page/stream.rs"), ("read_columns, read_columns_async", "src/read/column"), ("read_indexes", "src/read/indexes/read.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
