id='b03'; property='P12'
needs='A compressed V2 data page whose header leaves out the optional is_compressed flag'
breaks='Such a page is returned still compressed, or rejected, while the format says a missing flag means compressed'
edits=[('src/read/compression.rs','page_header.is_compressed.unwrap_or(true)','page_header.is_compressed.unwrap_or(buffer.len() > compressed.len())')]
demo=r'''
fn main() {
    // content that does not shrink
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let data = int32s([1, 2, 3]);
    let page = v2(d, Encoding::Plain, 3, 0, 3, &[], &[], &data, None);
    let bytes = write(&s, &[vec![vec![page]]], CompressionOptions::Snappy, false).unwrap();
    let mut reader = Cursor::new(bytes);
    let md = parquet2::read::read_metadata(&mut reader).unwrap();
    let column = &md.row_groups[0].columns()[0];
    let page = parquet2::read::get_page_iterator(column, &mut reader, None, vec![], 1000).unwrap().next().unwrap().unwrap();
    match parquet2::read::decompress(page, &mut vec![]).unwrap() {
        Page::Data(page) => assert_eq!(page.buffer(), data),
        _ => panic!(),
    }
}
'''
