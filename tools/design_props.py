HOW = {
'P01': """Files are generated from the model (schema, row groups, columns as levels and values, pages of every kind and codec) and written; the footer is read and each column read through `get_page_iterator`, `PageReader` with and without the chunk's bytes in memory, `get_column_iterator`/`ReadColumnIterator`, `read_columns`, decompressed by page and by `BasicDecompressor`/streaming, and compared with the model: schema, counts, headers, buffers, and the decoded values. `large` has up to 40,000 rows a group; `footer` makes metadata larger than the reader's first read. Part `huge`: files of up to tens of gigabytes, sparse on both sides (pages of zeros the kernel never backs), so that offsets beyond 2^31 and 2^32 are written and read. Cost 23 s.""",
'P02': """Every byte of a finished file is accounted for by a scan that starts from the footer, parsed with parquet-format-safe: for each chunk page headers are parsed one after another and must fill the declared range exactly; totals, counts, encodings and codec are recomputed. Sum of the ranges, indexes and footer is the file. The writer's `metadata()` and returned size are compared with the file. `huge`: the same for files of many gigabytes (offsets and totals beyond 32 bits), the bodies being skipped by a sparse sink. Cost 38 s.""",
'P03': """The same generated file is written by both writers; bytes, sizes and metadata are compared. The asynchronous sink accepts pieces and is pending on a generated schedule. `errors` injects failing pages, wrong column counts, pages without rows, failures of the sink. `huge`: both writers on files of many gigabytes. Cost 45 s.""",
'P04': """Generated files, read in both ways: metadata, page streams from seekable and positioned sources (`get_page_stream`, `get_page_stream_from_column_start`), columns of a field; sources split and delay on a schedule; generated page filters and limits select the same. `huge`: both readers in files whose chunks lie beyond 2^31 and 2^32. Cost 30 s.""",
'P05': """The result of reading from memory is compared with reading through a source that splits, interrupts and starts anywhere; the written bytes with those of a sink that does so. Includes indexes, bloom filters and sidecars. Cost 20 s.""",
'P06': """Model-based histories: a sequence of writer calls (start, groups, end, metadata, sidecars; both writers) with faults at generated bytes or flushes, faults of the supplied pages or columns at generated points, dropped futures, and calls after completion or failure. After each step the model says what must be refused; whenever completion is reported the file must hold everything accepted (scanned as in P02). `every-point` runs one history once for every fault position. Cost 17 s.""",
'P07': """Valid generated files are altered: fields of footer, page headers, indexes (through thrift), contents; bytes; or replaced by garbage. A careful consumer then does everything the API offers (metadata, pages, statistics, indexes, indexed reading, decompression of pages declaring at most 4 MiB, decoding in all states), in blocking and asynchronous form. Oracles: no panic, no death of the process, number of pages at most the bytes, peak memory proportional to input and limit. `schema` nests schemas to hundreds of thousands of elements; `wide` measures the metadata of wide schemas. Cost 17 s.""",
'P08': """`prefix` reads every prefix of a generated file; `source` cuts or fails the source at each interesting offset while pages, indexes, columns are read, blocking and asynchronous: the read must fail, or (the fault not touched) equal the full read. Cost 6 s.""",
'P09': """Files with pages of known stored size are read with generated limits around those sizes through every reader that takes one; pages within are unchanged, those above are errors, and the peak of memory shows that the declared size is not allocated. `declared` has headers that lie about the size. Limits below the size of a header may fail earlier. Cost 4 s.""",
'P10': """All codecs and levels over generated contents (random, repetitive, structured, empty), own round trip, contents compressed by the codec crates directly (with several gzip members, brotli windows, zstd frames), content lengths that are wrong, damage. Output buffers are prefilled to see that compression appends. A share of the cases compresses or decompresses (or both) with the crate built with `lz4_flex`; part `absent` asks for every codec of the crate built without features, which must refuse. Cost 8 s.""",
'P11': """Hadoop frames of generated sizes (stored shorter, equal, larger than raw, several inner blocks) and raw blocks are decoded; damage must be an error or the right content, never a panic; a third of the cases with the crate built with `lz4_flex`. Frames that end early or announce more than they hold are included. Cost 7 s.""",
'P12': """Pages of the model are compressed and decompressed with dirty, small, large and reused scratch buffers, page at a time and streaming (`Compressor`, `Decompressor`, `BasicDecompressor`), and compared; V2 layout checked byte by byte; hostile headers must fail. Cost 10 s.""",
'P13': """Bit packing of all widths of all four types against the naive packer; guard bytes around the output; unpacking of arbitrary bytes against the naive reader. Cost 1 s.""",
'P14': """`encode` → reference decoder and library decoder; `decode`: streams of generated runs by the reference encoder → library; `arbitrary`: bytes → both, with equal verdicts on values. Cost 2 s.""",
'P15': """Booleans of the model through the encoder and all run and bitmap iterators, filtered and not; remaining lengths at each step. Cost 1 s.""",
'P16': """Integers in styles (small deltas, wraps, extremes, stretches of own widths) through the encoder into the reference and library decoders; streams of foreign encoders with any legal block geometry; consumed bytes with trailing bytes behind. Cost 1 s.""",
'P17': """Byte strings with shared prefixes, empty strings, long ones; the three encodings, foreign delta streams with any legal prefix; corrupt ones. Cost 1 s.""",
'P18': """Integers at all bit lengths; canonical bytes; 128-bit reference for truncated and overlong ones. Cost 1 s.""",
'P19': """Each public decoder on generated, half-structured and arbitrary bytes with any count, width and size; panics, process deaths, items beyond the bound, data after the end or an error, and memory out of proportion are failures. Cost 34 s.""",
'P20': """Pages of the model for all types and encodings are decoded through all states (native, binary, fixed, boolean; required, optional; dictionary) and `split_buffer`; items, lengths at every step, keys and dictionary entries are compared with the model. Cost 15 s.""",
'P21': """The same page decoded whole and kept by rows against decoded with the selection. Filtered runs against a boolean model. Cost 10 s.""",
'P22': """Generated page locations and (up to very many) intervals against a set of rows. Cost 4 s.""",
'P23': """Generated files with indexes; generated selections; `IndexedPageReader` against a filtered full scan of the model. The source records each byte range read. Headers grow past the first guess (statistics of megabytes); files of foreign writers have gaps; `huge` has locations beyond 2^32. Cost 8 s.""",
'P24': """Indexes read by the library are compared with what an independent scan of the file and the page model say; `lacking` leaves out statistics or rows; `foreign` lays out indexes of any legal content (and some that contradict themselves) anywhere in a file. Cost 10 s.""",
'P25': """Statistics of all types with optional parts through thrift and files; bytes that do not fit must be rejected. Cost 1 s.""",
'P26': """Pages with generated statistics (present, absent, partially, NaN, unsigned, decimal, prefix values) written; chunk statistics checked for enclosure, attainment and null sum in an order written down independently. Cost 3 s.""",
'P27': """Generated trees flattened by an independent function and by the library, both read back; columns against an independent derivation. `contains` removes or alters nodes. Cost 2 s.""",
'P28': """A printer spells schemas in any legal way; token-level mutation with a model of legality; garbage; depth. Cost 1 s.""",
'P29': """The table of legal (physical, converted, logical, length, precision) combinations, enumerated at random, on building and on reading. Cost 3 s.""",
'P30': """Generated thrift metadata through `try_from_thrift`/`into_thrift`, files, sidecars (also larger than 64 KiB); generated invalid metadata must be rejected. Cost 20 s.""",
'P31': """Insertion histories against the reference filter, bit by bit; hashes against the reference; filters in files through the reader, damaged and cut. Cost 1 s.""",
'P32': """Filters generated over groups, columns, pages and their models, blocking and asynchronous. Cost 4 s.""",
'P33': """Metadata of generated files and all small types through serde_json and bincode; the deserialised chunk metadata is used to read the pages. Cost 3 s.""",
'P34': """All native values from edge-heavy generators; byte-wise and 128-bit models for order and timestamps. Cost 1 s.""",
'P35': """Codes (known, near, agreeing in their low bits, any 32-bit number) and members of each enumeration against a table of the format's numbers written independently, in both directions (a round trip alone misses a swap on both sides); levels around their ranges; accessors of pages built from generated headers. Cost 7 s.""",
'P36': """Generated files (some behind up to 64 MiB of other data) read through a source that records every range it hands out; after each page the recorded ranges must end where that page does, found by an independent scan; columns, indexes and filters must stay in their ranges and read nothing twice. Cost 8 s.""",
}
