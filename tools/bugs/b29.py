id='b29'; property='P05'
needs='A sink that takes fewer bytes than a dictionary page has in one call'
breaks='The rest of the dictionary page is not written'
edits=[('src/write/page.rs','''        CompressedPage::Dict(compressed_page) => {
            writer.write_all(&compressed_page.buffer)?;
            compressed_page.buffer.len() as u64
        }
    };
''','''        CompressedPage::Dict(compressed_page) => writer.write(&compressed_page.buffer)? as u64,
    };
''')]
demo=r'''
struct Narrow(Vec<u8>);
impl std::io::Write for Narrow {
    fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
        let n = data.len().min(5);
        self.0.extend_from_slice(&data[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let pages = vec![Page::Dict(DictPage::new(int32s([7, 8, 9]), 3, false)), v1(d, Encoding::RleDictionary, 2, 2, vec![2, 4, 1], None)];
    let groups = [vec![pages]];
    let bytes = write(&s, &groups, CompressionOptions::Uncompressed, false).unwrap();
    let mut writer = FileWriter::new(Narrow(vec![]), s.clone(), options(false), None);
    writer.write(chunks(&groups[0], CompressionOptions::Uncompressed)).unwrap();
    writer.end(None).unwrap();
    assert_eq!(writer.into_inner().0, bytes);
}
'''
