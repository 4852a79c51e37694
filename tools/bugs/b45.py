id='b45'; property='P36'
needs='A file of more than a megabyte'
breaks='A sixteenth of the file is read to get at its footer, however long that is'
edits=[('src/read/metadata.rs','''    let default_end_len = min(DEFAULT_FOOTER_READ_SIZE, file_size) as usize;''','''    // large files have large footers
    let default_end_len = min(DEFAULT_FOOTER_READ_SIZE.max(file_size / 16), file_size) as usize;''')]
demo=r'''
use std::io::{Read, Seek, SeekFrom};
struct Counted(Cursor<Vec<u8>>, u64);
impl Read for Counted {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.read(buf)?;
        self.1 += n as u64;
        Ok(n)
    }
}
impl Seek for Counted {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(to)
    }
}
fn main() {
    // a small footer behind 32 MiB
    let file = write(&schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]), &[], CompressionOptions::Uncompressed, false).unwrap();
    let mut bytes = vec![0; 32 << 20];
    bytes.extend(&file);
    let mut source = Counted(Cursor::new(bytes), 0);
    let md = parquet2::read::read_metadata(&mut source).unwrap();
    assert_eq!(md.schema().columns().len(), 1);
    assert!(source.1 <= 1 << 20, "{} bytes read for a file of {}", source.1, file.len());
}
'''
