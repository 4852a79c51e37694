id='b47'; property='P24'
needs='A column chunk of so many pages that its offset index takes more than 65535 bytes'
breaks='The length of the offset index in the footer is cut to 16 bits, so the locations of the pages cannot be read'
edits=[('src/write/file.rs','column.offset_index_length = Some((self.offset - offset) as i32);','column.offset_index_length = Some((self.offset - offset) as u16 as i32);')]
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let n = 20_000;
    let pages = (0..n).map(|i| v1(d, Encoding::Plain, 1, 1, int32s([i]), None)).collect::<Vec<_>>();
    let bytes = write(&s, &[vec![pages]], CompressionOptions::Uncompressed, false).unwrap();
    let mut reader = Cursor::new(bytes);
    let md = parquet2::read::read_metadata(&mut reader).unwrap();
    let locations = parquet2::read::read_pages_locations(&mut reader, md.row_groups[0].columns()).unwrap();
    assert_eq!(locations[0].len(), n as usize);
    for (i, l) in locations[0].iter().enumerate() {
        assert_eq!(l.first_row_index, i as i64);
    }
}
'''
