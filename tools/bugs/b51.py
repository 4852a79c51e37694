id='b51'; property='P24'
needs='A column chunk of more than 2^32 rows, such as long runs of nulls'
breaks='The first rows of the later pages in the offset index are cut to 32 bits'
edits=[('src/write/indexes/serialize.rs','''    let mut first_row_index = 0;''','''    let mut first_row_index = 0u32;'''),
('src/write/indexes/serialize.rs','''                first_row_index,
            };''','''                first_row_index: first_row_index.into(),
            };'''),
('src/write/indexes/serialize.rs','''            first_row_index += num_rows as i64;''','''            first_row_index = first_row_index.wrapping_add(num_rows as u32);''')]
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Optional)]);
    let d = &s.columns()[0].descriptor;
    let n = 1_500_000_000usize;
    // one run of nulls
    let mut run = vec![];
    let mut header = (n as u64) << 1;
    while header > 127 {
        run.push(header as u8 | 128);
        header >>= 7;
    }
    run.extend([header as u8, 0]);
    let pages = (0..4).map(|_| v1(d, Encoding::Plain, n, n, sized(run.clone()), None)).collect();
    let bytes = write(&s, &[vec![pages]], CompressionOptions::Uncompressed, false).unwrap();
    let mut reader = Cursor::new(bytes);
    let md = parquet2::read::read_metadata(&mut reader).unwrap();
    let locations = parquet2::read::read_pages_locations(&mut reader, md.row_groups[0].columns()).unwrap();
    let rows: Vec<i64> = locations[0].iter().map(|x| x.first_row_index).collect();
    assert_eq!(rows, (0..4).map(|i| i * n as i64).collect::<Vec<_>>());
}
'''
