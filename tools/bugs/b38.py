id='b38'; property='P02'
needs='A column chunk of over sixteen pages whose later pages have an encoding of their own'
breaks='The chunk does not declare all encodings of its pages'
edits=[('src/write/column_chunk.rs','''    let mut encodings = specs
        .iter()
''','''    let mut encodings = specs
        .iter().take(16) // the first pages tell
''')]
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let mut pages: Vec<Page> = (0..20).map(|i| v1(d, Encoding::Plain, 1, 1, int32s([i]), None)).collect();
    let mut data = vec![];
    parquet2::encoding::delta_bitpacked::encode([1i64, 2, 3].into_iter(), &mut data);
    pages.push(v1(d, Encoding::DeltaBinaryPacked, 3, 3, data, None));
    let bytes = write(&s, &[vec![pages]], CompressionOptions::Uncompressed, false).unwrap();
    let md = parquet2::read::read_metadata(&mut Cursor::new(&bytes)).unwrap();
    let column = &md.row_groups[0].columns()[0];
    let encodings: Vec<i32> = column.column_encoding().iter().map(|x| x.0).collect();
    assert!(encodings.contains(&0) && encodings.contains(&5), "{encodings:?}");
}
'''
