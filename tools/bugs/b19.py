id='b19'; property='P26'
edits=[('src/write/statistics.rs','''            |x, y| if x & !(y) { x } else { y },
        );''','''            |x, y| if x & !(y) { x } else { y & acc.min_value.is_some() },
        );''')]
needs='A boolean column whose pages have maxima but no minima, the first of which is false and a later one true'
breaks='The maximum of the chunk is then false'
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Boolean, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let page = |value: bool| {
        let statistics = ParquetStatistics { null_count: Some(0), distinct_count: None, min_value: None, max_value: Some(vec![value as u8]), min: None, max: None };
        v1(d, Encoding::Plain, 1, 1, vec![value as u8], Some(statistics))
    };
    let bytes = write(&s, &[vec![vec![page(false), page(true)]]], CompressionOptions::Uncompressed, false).unwrap();
    let md = parquet2::read::read_metadata(&mut Cursor::new(bytes)).unwrap();
    let statistics = md.row_groups[0].columns()[0].column_chunk().meta_data.as_ref().unwrap().statistics.clone().unwrap();
    assert_eq!(statistics.max_value, Some(vec![1]));
}
'''
