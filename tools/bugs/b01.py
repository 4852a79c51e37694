id='b01'; property='P02'
needs='A column chunk with a repeated leaf and V2 data pages in which the number of values differs from the number of rows'
breaks='The number of values a column chunk declares is its number of rows, so that readers stop before the last pages'
edits=[('src/write/column_chunk.rs','spec.header.data_page_header_v2.as_ref().unwrap().num_values as i64','spec.header.data_page_header_v2.as_ref().unwrap().num_rows as i64')]
demo=r'''
fn main() {
    // lists of 3 values per row, 2 rows per page, 2 pages
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Repeated)]);
    let d = &s.columns()[0].descriptor;
    let rep = levels(&[false, true, true, false, true, true]);
    let def = levels(&[true; 6]);
    let page = || v2(d, Encoding::Plain, 6, 0, 2, &rep, &def, &int32s(0..6), Some(false));
    let bytes = write(&s, &[vec![vec![page(), page()]]], CompressionOptions::Uncompressed, false).unwrap();
    let mut reader = Cursor::new(bytes);
    let md = parquet2::read::read_metadata(&mut reader).unwrap();
    let column = &md.row_groups[0].columns()[0];
    assert_eq!(column.num_values(), 12);
    let pages = parquet2::read::get_page_iterator(column, &mut reader, None, vec![], 1000).unwrap();
    assert_eq!(pages.count(), 2);
}
'''
