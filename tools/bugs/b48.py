id='b48'; property='P12'
needs='A V2 page of a compressed chunk, marked as not compressed, that declares another size than it has, and a scratch buffer that was used before'
breaks='The page is accepted, its end being what the scratch buffer held before'
edits=[('src/read/compression.rs','''        if buffer.len() != compressed.len() {
            return Err(Error::OutOfSpec(
                "V2 Page Header reported incorrect decompressed size".to_string(),
            ));
        }
        buffer.copy_from_slice(compressed);''','''        if buffer.len() < compressed.len() {
            return Err(Error::OutOfSpec(
                "V2 Page Header reported incorrect decompressed size".to_string(),
            ));
        }
        buffer[..compressed.len()].copy_from_slice(compressed);''')]
demo=r'''
fn main() {
    use parquet2::compression::Compression;
    use parquet2::page::{CompressedDataPage, CompressedPage};
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let header = || {
        DataPageHeader::V2(DataPageHeaderV2 {
            num_values: 4,
            num_nulls: 0,
            num_rows: 4,
            encoding: Encoding::Plain.into(),
            definition_levels_byte_length: 0,
            repetition_levels_byte_length: 0,
            is_compressed: Some(false),
            statistics: None,
        })
    };
    let page = |declared: usize| CompressedPage::Data(CompressedDataPage::new(header(), int32s(0..4), Compression::Snappy, declared, d.clone(), Some(4)));
    let Page::Data(read) = parquet2::read::decompress(page(16), &mut vec![7; 40]).unwrap() else { panic!() };
    assert_eq!(read.buffer(), &int32s(0..4)[..]);
    assert!(parquet2::read::decompress(page(12), &mut vec![7; 40]).is_err());
    assert!(parquet2::read::decompress(page(20), &mut vec![7; 40]).is_err());
}
'''
