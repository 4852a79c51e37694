id='b33'; property='P09'
needs='A dictionary page above the limit, read by the asynchronous page stream'
breaks='It is read whatever its size'
edits=[('src/read/page/stream.rs','''            let read_size: usize = page_header.compressed_page_size.try_into()?;
''','''            // a chunk cannot be read without its dictionary
            let (read_size, max_page_size): (usize, usize) = (
                page_header.compressed_page_size.try_into()?,
                if data_header.is_some() { max_page_size } else { i32::MAX as usize },
            );
''')]
demo=r'''
fn main() {
    use futures::StreamExt;
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let pages = vec![Page::Dict(DictPage::new(int32s(0..100), 100, false)), v1(d, Encoding::RleDictionary, 2, 2, vec![2, 4, 1], None)];
    let bytes = write(&s, &[vec![pages]], CompressionOptions::Uncompressed, false).unwrap();
    let md = parquet2::read::read_metadata(&mut Cursor::new(&bytes)).unwrap();
    let column = &md.row_groups[0].columns()[0];
    futures::executor::block_on(async {
        let mut reader = futures::io::Cursor::new(&bytes);
        let pages = parquet2::read::get_page_stream(column, &mut reader, vec![], std::sync::Arc::new(|_, _| true), 200).await.unwrap();
        futures::pin_mut!(pages);
        assert!(pages.next().await.unwrap().is_err());
    });
}
'''
