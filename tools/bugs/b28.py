id='b28'; property='P01'
needs='A data page without stored bytes in the middle of a column chunk, in front of pages with values'
breaks='Reading stops at such a page: the pages behind it are lost'
edits=[('src/read/page/reader.rs','''    let read_size: usize = page_header.compressed_page_size.try_into()?;

    if read_size > reader.max_page_size {''','''    let read_size: usize = match page_header.compressed_page_size {
        0 => return Ok(None), // there is nothing to read
        size => size.try_into()?,
    };

    if read_size > reader.max_page_size {''')]
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let pages = vec![v1(d, Encoding::Plain, 2, 2, int32s([1, 2]), None), v1(d, Encoding::Plain, 0, 0, vec![], None), v1(d, Encoding::Plain, 1, 1, int32s([3]), None)];
    let bytes = write(&s, &[vec![pages]], CompressionOptions::Uncompressed, false).unwrap();
    let mut reader = Cursor::new(&bytes);
    let md = parquet2::read::read_metadata(&mut reader).unwrap();
    let column = &md.row_groups[0].columns()[0];
    let values = parquet2::read::get_page_iterator(column, reader, None, vec![], 1000)
        .unwrap()
        .map(|page| match parquet2::read::decompress(page.unwrap(), &mut vec![]).unwrap() {
            Page::Data(page) => page.buffer().to_vec(),
            _ => vec![],
        })
        .collect::<Vec<_>>()
        .concat();
    assert_eq!(values, int32s([1, 2, 3]));
}
'''
