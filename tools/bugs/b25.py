id='b25'; property='P32'
needs='A field whose name is also the name of a nested field of another one'
breaks='The columns of the field then have columns of the other field too'
edits=[('src/read/mod.rs','.filter(move |x| x.descriptor().path_in_schema[0] == field_name)','.filter(move |x| x.descriptor().path_in_schema.iter().any(|x| x == field_name))')]
demo=r'''
fn main() {
    let s = schema(vec![
        group("g", Repetition::Required, vec![leaf("a", PhysicalType::Int32, Repetition::Required)]),
        leaf("a", PhysicalType::Int32, Repetition::Required),
    ]);
    let page = |i: usize| v1(&s.columns()[i].descriptor, Encoding::Plain, 1, 1, int32s([1]), None);
    let bytes = write(&s, &[vec![vec![page(0)], vec![page(1)]]], CompressionOptions::Uncompressed, false).unwrap();
    let md = parquet2::read::read_metadata(&mut Cursor::new(bytes)).unwrap();
    let columns = parquet2::read::get_field_columns(md.row_groups[0].columns(), "a").map(|x| x.descriptor().path_in_schema.clone()).collect::<Vec<_>>();
    assert_eq!(columns, vec![vec!["a".to_string()]]);
}
'''
