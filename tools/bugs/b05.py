id='b05'; property='P03'
needs='The asynchronous writer and a data page without values in the middle of a column chunk'
breaks='The asynchronous writer leaves such pages out, so its file is not the one of the synchronous writer'
edits=[('src/write/column_chunk.rs','''        let spec = write_page_async(writer, offset, compressed_page).await?;
''','''        if compressed_page.num_values() == 0 {
            // there is nothing to read in it
            continue;
        }
        let spec = write_page_async(writer, offset, compressed_page).await?;
''')]
edits=[('src/write/column_chunk.rs','''    while let Some(compressed_page) = compressed_pages.next()? {
        let spec = write_page_async(writer, offset, compressed_page).await?;
''','''    while let Some(page) = compressed_pages.next()? {
        if matches!(page, CompressedPage::Data(page) if page.num_values() == 0) {
            // there is nothing to read in it
            continue;
        }
        let spec = write_page_async(writer, offset, page).await?;
''')]
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let page = |n: i32| v1(d, Encoding::Plain, n as usize, n as usize, int32s(0..n), None);
    let groups = [vec![vec![page(3), page(0), page(2)]]];
    let a = write(&s, &groups, CompressionOptions::Uncompressed, false).unwrap();
    let b = write_async(&s, &groups, CompressionOptions::Uncompressed, false).unwrap();
    assert_eq!(a, b);
}
'''
