id='b02'; property='P24'
needs='A repeated column with two or more data pages, the first of which has more values than rows'
breaks='The offset index gives wrong first-row numbers to the pages after the first'
edits=[('src/write/indexes/serialize.rs','first_row_index += num_rows as i64;','first_row_index += num_rows.max(spec.num_values) as i64;')]
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Repeated)]);
    let d = &s.columns()[0].descriptor;
    let rep = levels(&[false, true, true, false, true, true]);
    let def = levels(&[true; 6]);
    let page = || v2(d, Encoding::Plain, 6, 0, 2, &rep, &def, &int32s(0..6), Some(false));
    let bytes = write(&s, &[vec![vec![page(), page(), page()]]], CompressionOptions::Uncompressed, false).unwrap();
    let mut reader = Cursor::new(bytes);
    let md = parquet2::read::read_metadata(&mut reader).unwrap();
    let locations = parquet2::read::read_pages_locations(&mut reader, md.row_groups[0].columns()).unwrap();
    let first = locations[0].iter().map(|x| x.first_row_index).collect::<Vec<_>>();
    assert_eq!(first, vec![0, 2, 4]);
}
'''
