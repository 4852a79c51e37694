id='b30'; property='P06'
needs='A sink whose last flush fails'
breaks='The file is reported as complete although its sink failed'
edits=[('src/write/file.rs','''    writer.flush()?;
    Ok(metadata_len as u64 + FOOTER_SIZE)''','''    // the bytes are written; not every sink can flush
    let _ = writer.flush();
    Ok(metadata_len as u64 + FOOTER_SIZE)''')]
demo=r'''
struct Buffered(Vec<u8>);
impl std::io::Write for Buffered {
    fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(data);
        Ok(data.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full"))
    }
}
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let groups = [vec![vec![v1(d, Encoding::Plain, 2, 2, int32s([1, 2]), None)]]];
    let mut writer = FileWriter::new(Buffered(vec![]), s.clone(), options(false), None);
    writer.write(chunks(&groups[0], CompressionOptions::Uncompressed)).unwrap();
    assert!(writer.end(None).is_err());
    assert!(writer.metadata().is_none());
}
'''
