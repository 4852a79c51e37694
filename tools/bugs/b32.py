id='b32'; property='P08'
needs='A source that ends inside a page of which some bytes are there'
breaks='The page is returned with the bytes there are, instead of an error'
edits=[('src/read/page/reader.rs','''    if bytes_read != read_size {
        return Err(Error::oos(
            "The page header reported the wrong page size".to_string(),
        ));
    }

    finish_page(
        page_header,
        buffer,
        reader.compression,''','''    if bytes_read == 0 && read_size > 0 {
        return Err(Error::oos(
            "The page header reported the wrong page size".to_string(),
        ));
    }

    finish_page(
        page_header,
        buffer,
        reader.compression,''')]
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let groups = [vec![vec![v1(d, Encoding::Plain, 20, 20, int32s(0..20), None)]]];
    let bytes = write(&s, &groups, CompressionOptions::Uncompressed, false).unwrap();
    let md = parquet2::read::read_metadata(&mut Cursor::new(&bytes)).unwrap();
    let column = &md.row_groups[0].columns()[0];
    let (start, length) = column.byte_range();
    let cut = &bytes[..(start + length) as usize - 9];
    let mut pages = parquet2::read::get_page_iterator(column, Cursor::new(cut), None, vec![], 1000).unwrap();
    assert!(pages.next().unwrap().is_err());
}
'''
