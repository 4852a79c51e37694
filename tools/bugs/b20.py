id='b20'; property='P27'
needs='A group with the field id zero'
breaks='Its id is lost when the schema is written'
edits=[('src/schema/io_thrift/to_thrift.rs','''                precision: None,
                field_id: field_info.id,''','''                precision: None,
                // ids start at one
                field_id: field_info.id.filter(|id| *id != 0),''')]
demo=r'''
fn main() {
    let mut g = group("g", Repetition::Optional, vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    if let ParquetType::GroupType { field_info, .. } = &mut g {
        field_info.id = Some(0);
    }
    let s = schema(vec![g]);
    let page = v1(&s.columns()[0].descriptor, Encoding::Plain, 0, 0, vec![], None);
    let bytes = write(&s, &[vec![vec![page]]], CompressionOptions::Uncompressed, false).unwrap();
    let md = parquet2::read::read_metadata(&mut Cursor::new(bytes)).unwrap();
    assert_eq!(s.fields(), md.schema().fields());
}
'''
