id='b17'; property='P23'
needs='Pages with statistics of more than 65535 bytes, read through their index'
breaks='Such pages are errors when they are read through the index, while the plain reader accepts them'
edits=[('src/read/page/indexed_reader.rs','reader.seek(SeekFrom::Current(0)).unwrap() as usize;','reader.seek(SeekFrom::Current(0)).unwrap() as u16 as usize;')]
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::ByteArray, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let value = vec![b'x'; 40_000];
    let statistics = ParquetStatistics { null_count: Some(0), distinct_count: None, min_value: Some(value.clone()), max_value: Some(value.clone()), min: None, max: None };
    let page = || v1(d, Encoding::Plain, 1, 1, sized(value.clone()), Some(statistics.clone()));
    let bytes = write(&s, &[vec![vec![page(), page()]]], CompressionOptions::Uncompressed, true).unwrap();
    let mut reader = Cursor::new(bytes);
    let md = parquet2::read::read_metadata(&mut reader).unwrap();
    let column = &md.row_groups[0].columns()[0];
    let locations = parquet2::read::read_pages_locations(&mut reader, md.row_groups[0].columns()).unwrap();
    let pages = parquet2::indexes::select_pages(&[parquet2::indexes::Interval::new(0, 2)], &locations[0], 2).unwrap();
    let pages = parquet2::read::IndexedPageReader::new(reader, column, pages, vec![], vec![]).collect::<Result<Vec<_>>>().unwrap();
    assert_eq!(pages.len(), 2);
}
'''
