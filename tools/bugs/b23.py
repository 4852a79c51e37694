id='b23'; property='P30'
needs='Metadata with an empty list of key-value pairs'
breaks='It is read as if there was no list'
edits=[('src/metadata/file_metadata.rs','key_value_metadata: metadata.key_value_metadata,','key_value_metadata: metadata.key_value_metadata.filter(|x| !x.is_empty()),')]
demo=r'''
fn main() {
    use parquet2::metadata::FileMetaData;
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let bytes = write(&s, &[], CompressionOptions::Uncompressed, false).unwrap();
    let mut md = parquet2::read::read_metadata(&mut Cursor::new(bytes)).unwrap().into_thrift();
    md.key_value_metadata = Some(vec![]);
    let again = FileMetaData::try_from_thrift(md.clone()).unwrap().into_thrift();
    assert_eq!(md, again);
}
'''
