id='b34'; property='P10'
needs='A page compressed with zstd in more than one frame'
breaks='Only the first frame is decompressed, so the page is an error'
deps='zstd = "0.12"\n'
edits=[('src/compression.rs','''            let mut decoder = zstd::Decoder::new(input_buf)?;
''','''            let mut decoder = zstd::Decoder::with_buffer(input_buf)?.single_frame();
''')]
demo=r'''
fn main() {
    let mut stream = zstd::encode_all(&b"one frame, "[..], 3).unwrap();
    stream.extend(zstd::encode_all(&b"and another"[..], 3).unwrap());
    let mut out = [0; 22];
    parquet2::compression::decompress(parquet2::compression::Compression::Zstd, &stream, &mut out).unwrap();
    assert_eq!(&out, b"one frame, and another");
}
'''
