id='b04'; property='P11'
needs='Hadoop-framed LZ4 data with a frame whose compressed and decompressed sizes are equal'
breaks='Such a frame is taken as stored and its compressed bytes are returned as content'
edits=[('src/compression.rs','''        let decompressed_size = lz4_decompress_to_buffer(
            &input[..expected_compressed_size as usize],
            Some(output_len as i32),
            output,
        )?;
''','''        let frame = &input[..expected_compressed_size as usize];
        // content that does not compress is stored
        let decompressed_size = if expected_compressed_size == expected_decompressed_size {
            output[..frame.len()].copy_from_slice(frame);
            frame.len()
        } else {
            lz4_decompress_to_buffer(frame, Some(output_len as i32), output)?
        };
''')]
demo=r'''
fn main() {
    use parquet2::compression::{compress, decompress, Compression};
    // find content which compresses to its own length
    for n in 1..64usize {
        for repeat in 0..n {
            let data = (0..n).map(|i| if i < repeat { 7 } else { i as u8 }).collect::<Vec<u8>>();
            let mut block = vec![];
            compress(CompressionOptions::Lz4Raw, &data, &mut block).unwrap();
            let mut framed = (data.len() as u32).to_be_bytes().to_vec();
            framed.extend((block.len() as u32).to_be_bytes());
            framed.extend(&block);
            let mut out = vec![0; data.len()];
            decompress(Compression::Lz4, &framed, &mut out).unwrap();
            assert_eq!(out, data, "{n} {repeat} {}", block.len());
        }
    }
}
'''
