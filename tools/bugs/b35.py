id='b35'; property='P05'
needs='A source that is interrupted while a page is read'
breaks='Reading the page fails'
edits=[('src/read/page/reader.rs','''    let bytes_read = reader
        .reader
        .by_ref()
        .take(read_size as u64)
        .read_to_end(buffer)?;
''','''    buffer.resize(read_size, 0);
    let mut bytes_read = 0;
    while bytes_read < read_size {
        match reader.reader.read(&mut buffer[bytes_read..])? {
            0 => break,
            n => bytes_read += n,
        }
    }
''')]
demo=r'''
struct Interrupting(Cursor<Vec<u8>>, bool);
impl std::io::Read for Interrupting {
    fn read(&mut self, data: &mut [u8]) -> std::io::Result<usize> {
        self.1 = !self.1;
        if self.1 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        self.0.read(data)
    }
}
impl std::io::Seek for Interrupting {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
        self.0.seek(to)
    }
}
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let groups = [vec![vec![v1(d, Encoding::Plain, 20, 20, int32s(0..20), None)]]];
    let bytes = write(&s, &groups, CompressionOptions::Uncompressed, false).unwrap();
    let md = parquet2::read::read_metadata(&mut Cursor::new(&bytes)).unwrap();
    let column = &md.row_groups[0].columns()[0];
    let mut pages = parquet2::read::get_page_iterator(column, Interrupting(Cursor::new(bytes), false), None, vec![], 1000).unwrap();
    assert!(pages.next().unwrap().is_ok());
}
'''
