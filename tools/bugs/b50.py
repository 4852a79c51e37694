id='b50'; property='P09'
needs='A field of several columns, the second of which has a page above the limit'
breaks='The limit the caller gives only holds for the first column of the field'
edits=[('src/read/column/mod.rs','''            current,
            scratch: vec![],
            max_page_size: self.max_page_size,''','''            current,
            scratch: vec![],
            max_page_size: self.max_page_size.saturating_mul(2),''')]
demo=r'''
fn main() {
    use parquet2::read::{get_column_iterator, MutStreamingIterator, State};
    let s = schema(vec![group(
        "g",
        Repetition::Required,
        vec![leaf("a", PhysicalType::Int32, Repetition::Required), leaf("b", PhysicalType::Int32, Repetition::Required)],
    )]);
    let page = |i: usize, n: i32| v1(&s.columns()[i].descriptor, Encoding::Plain, n as usize, n as usize, int32s(0..n), None);
    let groups = [vec![vec![page(0, 150), page(0, 150)], vec![page(1, 300)]]];
    let bytes = write(&s, &groups, CompressionOptions::Uncompressed, false).unwrap();
    let mut reader = Cursor::new(bytes);
    let md = parquet2::read::read_metadata(&mut reader).unwrap();
    let mut columns = get_column_iterator(reader, &md.row_groups[0], "g", None, vec![], 1000);
    let mut ok = vec![];
    loop {
        columns = match columns.advance().unwrap() {
            State::Some(x) => x,
            State::Finished(_) => break,
        };
        let (pages, _) = columns.get().unwrap();
        let mut all = true;
        for page in pages {
            all &= page.is_ok();
        }
        ok.push(all);
    }
    // 600 bytes each, and 1200
    assert_eq!(ok, vec![true, false]);
}
'''
