id='b42'; property='P04'
needs='A column chunk that starts beyond four gigabytes, read as a stream of pages'
breaks='The stream starts at the wrong place'
edits=[('src/read/page/stream.rs','''    reader.seek(SeekFrom::Start(column_start)).await?;''','''    reader
        .seek(SeekFrom::Start((column_start as u32).into()))
        .await?;''')]
demo=r'''
use std::pin::Pin;
use std::task::{Context, Poll};
/// zeros, with some bytes far away
struct Far {
    at: u64,
    start: u64,
    bytes: Vec<u8>,
}
impl futures::AsyncRead for Far {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, out: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let end = self.start + self.bytes.len() as u64;
        let n = out.len().min(end.saturating_sub(self.at) as usize);
        for (i, x) in out[..n].iter_mut().enumerate() {
            let p = self.at + i as u64;
            *x = if p < self.start { 0 } else { self.bytes[(p - self.start) as usize] };
        }
        self.at += n as u64;
        Poll::Ready(Ok(n))
    }
}
impl futures::AsyncSeek for Far {
    fn poll_seek(mut self: Pin<&mut Self>, _: &mut Context<'_>, to: std::io::SeekFrom) -> Poll<std::io::Result<u64>> {
        let end = (self.start + self.bytes.len() as u64) as i64;
        let at = match to {
            std::io::SeekFrom::Start(x) => x as i64,
            std::io::SeekFrom::End(x) => end + x,
            std::io::SeekFrom::Current(x) => self.at as i64 + x,
        };
        self.at = at as u64;
        Poll::Ready(Ok(self.at))
    }
}
fn main() {
    use futures::StreamExt;
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let bytes = write(&s, &[vec![vec![v1(d, Encoding::Plain, 3, 3, int32s(1..4), None)]]], CompressionOptions::Uncompressed, false).unwrap();
    let md = parquet2::read::read_metadata(&mut Cursor::new(&bytes)).unwrap();
    let column = &md.row_groups[0].columns()[0];
    let (start, length) = column.byte_range();
    let pages = bytes[start as usize..(start + length) as usize].to_vec();
    // the chunk at another place
    let start = (1u64 << 32) + 4;
    let mut md = md.clone().into_thrift();
    md.row_groups[0].columns[0].meta_data.as_mut().unwrap().data_page_offset = start as i64;
    let md = parquet2::metadata::FileMetaData::try_from_thrift(md).unwrap();
    let column = md.row_groups[0].columns()[0].clone();
    let mut source = Far { at: 0, start, bytes: pages };
    let count = futures::executor::block_on(async {
        let pages = parquet2::read::get_page_stream(&column, &mut source, vec![], std::sync::Arc::new(|_, _| true), 1 << 20).await.unwrap();
        futures::pin_mut!(pages);
        let mut count = 0;
        while let Some(page) = pages.next().await {
            let parquet2::page::CompressedPage::Data(page) = page.unwrap() else { panic!() };
            count += page.num_values();
        }
        count
    });
    assert_eq!(count, 3);
}
'''
