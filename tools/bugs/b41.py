id='b41'; property='P02'
needs='A column chunk whose pages come to more than four gigabytes'
breaks='The size of the chunk and of its row group in the footer is less than that of its pages, so what reads by byte range loses the last pages'
edits=[('src/write/column_chunk.rs','''        .map(|x| x.header_size as i64 + x.header.compressed_page_size as i64)
        .sum();''','''        .map(|x| x.header_size as u32 + x.header.compressed_page_size as u32)
        .fold(0u32, u32::wrapping_add)
        .into();''')]
demo=r'''
struct Count(u64);
impl std::io::Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = s.columns()[0].descriptor.clone();
    let n = 500_000_000;
    let options = WriteOptions { write_statistics: false, version: Version::V1 };
    let mut writer = FileWriter::new(Count(0), s, options, None);
    // zeros that take no memory
    let pages = (0..3).map(|_| {
        Ok::<_, Error>(v1(&d, Encoding::Plain, n, n, vec![0; 4 * n], None))
    });
    let chunk = DynStreamingIterator::new(Compressor::new(pages, CompressionOptions::Uncompressed, vec![]));
    writer.write(DynIter::new(std::iter::once(Ok::<_, Error>(chunk)))).unwrap();
    let size = writer.end(None).unwrap();
    let (sink, metadata) = writer.into_inner_and_metadata();
    assert_eq!(sink.0, size);
    let group = &metadata.row_groups[0];
    let chunk = group.columns[0].meta_data.as_ref().unwrap();
    assert!(chunk.total_compressed_size > 12 * n as i64, "{}", chunk.total_compressed_size);
    assert!(group.total_compressed_size.unwrap() > 12 * n as i64);
}
'''
