id='b40'; property='P33'
needs='Column metadata of over sixteen kilobytes, of many keys and values or long statistics'
breaks='The serialized metadata cannot be read back'
deps='serde_json = "1"'
edits=[('src/metadata/column_chunk_metadata.rs','TCompactInputProtocol::new(&mut cursor, usize::MAX)','TCompactInputProtocol::new(&mut cursor, 1 << 14)')]
demo=r'''
fn main() {
    use parquet2::metadata::ColumnChunkMetaData;
    let s = schema(vec![leaf("a", PhysicalType::ByteArray, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let long = vec![b'x'; 30_000];
    let statistics = ParquetStatistics { null_count: Some(0), distinct_count: None, min_value: Some(long.clone()), max_value: Some(long), min: None, max: None };
    let groups = [vec![vec![v1(d, Encoding::Plain, 1, 1, vec![0; 4], Some(statistics))]]];
    let bytes = write(&s, &groups, CompressionOptions::Uncompressed, true).unwrap();
    let md = parquet2::read::read_metadata(&mut Cursor::new(&bytes)).unwrap();
    let column = &md.row_groups[0].columns()[0];
    let json = serde_json::to_string(column).unwrap();
    let back: ColumnChunkMetaData = serde_json::from_str(&json).unwrap();
    assert_eq!(serde_json::to_string(&back).unwrap(), json);
    assert_eq!(back.byte_range(), column.byte_range());
}
'''
