id='b43'; property='P35'
needs='Compression options converted to the code of their codec, for one of the two forms of lz4'
breaks='The code is that of the other form'
edits=[('src/parquet_bridge.rs','''            CompressionOptions::Lz4Raw => CompressionCodec::LZ4_RAW,''','''            CompressionOptions::Lz4Raw => CompressionCodec::LZ4,''')]
demo=r'''
fn main() {
    // the codes of the format
    let codes = [
        (CompressionOptions::Uncompressed, 0),
        (CompressionOptions::Snappy, 1),
        (CompressionOptions::Gzip(None), 2),
        (CompressionOptions::Lzo, 3),
        (CompressionOptions::Brotli(None), 4),
        (CompressionOptions::Lz4, 5),
        (CompressionOptions::Zstd(None), 6),
        (CompressionOptions::Lz4Raw, 7),
    ];
    for (options, code) in codes {
        let codec: parquet_format_safe::CompressionCodec = options.into();
        assert_eq!(codec.0, code, "{options:?}");
    }
}
'''
