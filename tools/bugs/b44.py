id='b44'; property='P35'
needs='A page of the first version whose definition and repetition levels declare different encodings'
breaks='The encoding of the definition levels is reported as that of the repetition levels'
edits=[('src/page/mod.rs','''            DataPageHeader::V1(d) => d.definition_level_encoding(),''','''            DataPageHeader::V1(d) => d.repetition_level_encoding(),''')]
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Optional)]);
    let header = parquet2::page::DataPageHeaderV1 {
        num_values: 1,
        encoding: parquet_format_safe::Encoding(0),
        definition_level_encoding: parquet_format_safe::Encoding(3),
        repetition_level_encoding: parquet_format_safe::Encoding(4),
        statistics: None,
    };
    let page = parquet2::page::DataPage::new(parquet2::page::DataPageHeader::V1(header), vec![], s.columns()[0].descriptor.clone(), None);
    assert_eq!(page.definition_level_encoding(), Encoding::Rle);
    assert_eq!(page.repetition_level_encoding(), Encoding::BitPacked);
}
'''
