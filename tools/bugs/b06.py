id='b06'; property='P04'
needs='The asynchronous page stream with a page filter which skips a page of a chunk that is not the last of the file'
breaks='Values of skipped pages are not counted, so that the stream reads on beyond the end of its column chunk'
edits=[('src/read/page/stream.rs','''            seen_values += data_header.as_ref().map(|x| x.num_values() as i64).unwrap_or_default();

''',''),('src/read/page/stream.rs','''            // followed by the buffer
            scratch.clear();''','''            seen_values += page_header
                .data_page_header
                .as_ref()
                .map(|x| x.num_values)
                .or(page_header.data_page_header_v2.as_ref().map(|x| x.num_values))
                .unwrap_or_default() as i64;

            // followed by the buffer
            scratch.clear();''')]
demo=r'''
use futures::StreamExt;
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required), leaf("b", PhysicalType::Int32, Repetition::Required)]);
    let page = |c: usize, n: i32| v1(&s.columns()[c].descriptor, Encoding::Plain, n as usize, n as usize, int32s(0..n), None);
    let groups = [vec![vec![page(0, 1), page(0, 4)], vec![page(1, 5)]]];
    let bytes = write(&s, &groups, CompressionOptions::Uncompressed, false).unwrap();
    let md = parquet2::read::read_metadata(&mut Cursor::new(&bytes)).unwrap();
    let filter = || -> parquet2::read::PageFilter { std::sync::Arc::new(|_, h: &DataPageHeader| h.num_values() != 1) };
    let column = &md.row_groups[0].columns()[0];
    let n = parquet2::read::get_page_iterator(column, Cursor::new(&bytes), Some(filter()), vec![], 1000).unwrap().map(|x| x.is_ok()).collect::<Vec<_>>();
    let mut reader = futures::io::Cursor::new(&bytes);
    let m = futures::executor::block_on(async {
        let stream = parquet2::read::get_page_stream(column, &mut reader, vec![], filter(), 1000).await.unwrap();
        stream.map(|x| x.is_ok()).collect::<Vec<_>>().await
    });
    assert_eq!(n, m);
}
'''
