id='b31'; property='P07'
needs='A V1 page header whose encoding of the definition levels is not one of the format'
breaks='Reading accepts the page, and asking it for the encoding of its definition levels panics'
edits=[('src/read/page/reader.rs','''            let _: Encoding = header.definition_level_encoding.try_into()?;
''','')]
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let mut page = v1(d, Encoding::Plain, 2, 2, int32s([1, 2]), None);
    if let Page::Data(page) = &mut page {
        let mut header = match page.header() {
            DataPageHeader::V1(header) => header.clone(),
            _ => unreachable!(),
        };
        header.definition_level_encoding = parquet_format_safe::Encoding(100);
        *page = DataPage::new(DataPageHeader::V1(header), page.buffer().to_vec(), d.clone(), Some(2));
    }
    let bytes = write(&s, &[vec![vec![page]]], CompressionOptions::Uncompressed, false).unwrap();
    let mut reader = Cursor::new(&bytes);
    let md = parquet2::read::read_metadata(&mut reader).unwrap();
    let column = &md.row_groups[0].columns()[0];
    for page in parquet2::read::get_page_iterator(column, reader, None, vec![], 1000).unwrap() {
        if let Ok(page) = page {
            if let Page::Data(page) = parquet2::read::decompress(page, &mut vec![]).unwrap() {
                println!("{:?}", page.definition_level_encoding());
            }
        }
    }
}
'''
