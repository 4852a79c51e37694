id='b37'; property='P09'
needs='A page header that declares more bytes for one of its statistics than the limit'
breaks='Reading the header is not bounded by the limit'
edits=[('src/read/page/reader.rs','''    let page_header = read_page_header(&mut reader.reader, reader.max_page_size)?;
''','''    // statistics are not part of the page
    let page_header = read_page_header(&mut reader.reader, reader.max_page_size.max(1 << 28))?;
''')]
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::ByteArray, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let statistics = ParquetStatistics { null_count: Some(0), distinct_count: None, min_value: Some(vec![0; 100_000]), max_value: Some(vec![1; 100_000]), min: None, max: None };
    let groups = [vec![vec![v1(d, Encoding::Plain, 1, 1, vec![0; 4], Some(statistics))]]];
    let bytes = write(&s, &groups, CompressionOptions::Uncompressed, false).unwrap();
    let mut reader = Cursor::new(&bytes);
    let md = parquet2::read::read_metadata(&mut reader).unwrap();
    let column = &md.row_groups[0].columns()[0];
    let mut pages = parquet2::read::get_page_iterator(column, reader, None, vec![], 10_000).unwrap();
    assert!(pages.next().unwrap().is_err());
}
'''
