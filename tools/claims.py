G = 'Random search over generated inputs, shrunk to a minimal replay; it shows the presence of violations and gives confidence, not proof, of their absence. '
CLAIMS = {
 'P13': ('property-based testing: differential against a bit-by-bit reference packer', G + 'Trusts the naive reference bit packer.'),
 'P14': ('property-based testing: round trip, generated run mixes and differential decoding against a reference', G + 'Trusts the reference hybrid decoder.'),
 'P15': ('property-based testing: model of boolean runs and bitmaps', G + 'Trusts the boolean model.'),
 'P16': ('property-based testing: round trip and differential against a reference DELTA_BINARY_PACKED codec', G + 'Trusts the reference codec, which follows the specification value by value.'),
 'P17': ('property-based testing: round trip, foreign encoders and corrupted streams', G + 'Trusts the reference encoders.'),
 'P18': ('property-based testing: round trip and differential against a 128-bit reference', G + 'Trusts the reference varint codec.'),
 'P19': ('structure-aware fuzzing of every decoder with panic, crash, bound and allocation oracles', G + 'Arithmetic overflow counts as a panic (checks are compiled in); work is bounded by walking at most 30000 items of huge declared counts.'),
 'P10': ('property-based testing: round trip, foreign streams (other encoders, several members or frames) and damaged streams', G + 'Trusts the independent codec crates (snap, flate2, brotli, lz4_flex, zstd) used as foreign encoders and decoders.'),
 'P11': ('property-based testing: generated Hadoop framings and raw blocks against their contents; corruption fuzzing', G + 'Trusts lz4_flex as block encoder.'),
 'P12': ('property-based testing: round trip and metamorphic (scratch buffers, streaming against page-at-a-time, V2 layout)', G + 'Trusts the page model.'),
 'P01': ('property-based testing: round trip of generated files through every blocking way of reading', G + 'Trusts the generator model of levels and values and its reference encoders.'),
 'P02': ('property-based testing: independent scan of every byte of generated files, driven by the footer', G + 'Trusts parquet-format-safe to parse thrift.'),
 'P03': ('property-based testing: differential between the blocking and the asynchronous writer over generated files, faulty page lists and write schedules', G),
 'P04': ('property-based testing: differential between blocking and asynchronous readers over generated files and read schedules', G),
 'P05': ('property-based testing: metamorphic, splitting and interrupting sources and sinks against memory', G),
 'P06': ('property-based testing: model-based histories of writer calls with injected sink failures, wrong inputs, cancellation and misuse', G + 'Trusts the file model used to check completed files.'),
 'P08': ('property-based testing with fault injection: truncated and failing sources against the full read', G),
 'P09': ('property-based testing: generated limits around the stored page sizes, and hostile declared sizes under an allocation counter', G),
 'P07': ('structure-aware fuzzing: valid files altered field by field (footer, page headers, contents, indexes), byte by byte, and garbage, under an allocation counter and a small stack', G),
 'P20': ('property-based testing: generated pages of every type and encoding decoded through the decoding states against the page model', G + 'Trusts the page model and its reference encoders.'),
 'P21': ('property-based testing: metamorphic, selected decoding against full decoding restricted to the selected rows', G + 'Only flat columns are decoded with a selection, as in the library; for nested columns the selection is over slots.'),
 'P22': ('property-based testing: generated page locations and row intervals against a set model', G + 'Trusts the set model of rows.'),
 'P23': ('property-based testing: reading through the page index against a full scan restricted to the selected rows, with a source that records what is read', G),
 'P24': ('property-based testing: indexes read back against the page model and an independent scan of the file', G + 'Trusts the page model.'),
 'P25': ('property-based testing: round trip of typed statistics, and arbitrary bytes against the size of the type', G),
 'P26': ('property-based testing: chunk statistics against bounds, nulls and attainment over the generated page statistics', G + 'Trusts the comparison of values written for the model.'),
 'P32': ('property-based testing: model of filters over row groups, columns and pages of generated files', G),
 'P27': ('property-based testing: round trip of generated schema trees against an independent flattening and an independent derivation of the columns', G + 'Trusts the flattening written from the format definition.'),
 'P28': ('property-based testing: generated spellings of generated schemas, token-level mutation and garbage', G + 'Trusts the printer of schemas.'),
 'P29': ('property-based testing: generated annotation combinations against a table of the legal ones; inconsistent trees', G + 'Trusts the table of legal annotations, written from the format definition.'),
 'P30': ('property-based testing: round trip of generated thrift metadata through the library, files and sidecars; generated invalid metadata', G + 'Trusts parquet-format-safe to write thrift, and the table of sort orders written from the format definition.'),
 'P31': ('property-based testing: model-based insertion histories against a reference split-block filter and hash; fault and corruption injection', G + 'Trusts the reference filter and the reference xxHash64.'),
 'P33': ('property-based testing: round trip of generated values and of the metadata of generated files through serde_json and bincode', G),
 'P34': ('property-based testing: encoding, decoding and order of generated native values against 128-bit and byte-wise models', G),
 'P35': ('property-based testing: generated codes, parameters, levels and page headers against a table of the format\'s numbers', G + 'Trusts the table of numbers, written from the format definition.'),
 'P36': ('property-based testing: generated files, filters and stopping points read through a source that records what it is asked for, against the ranges found by scanning the file', G),
}
