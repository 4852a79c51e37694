id='b39'; property='P23'
needs='A page read through its index with very many selected intervals, that is compressed'
breaks='The page loses its selection when it is decompressed, so all its rows are delivered'
edits=[('src/read/compression.rs','''            buffer,
            page.descriptor,
            page.selected_rows,
        )),''','''            buffer,
            page.descriptor,
            // reading everything is cheaper than many small skips
            page.selected_rows.filter(|x| x.len() < 64),
        )),''')]
demo=r'''
fn main() {
    use parquet2::indexes::{FilteredPage, Interval};
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let d = &s.columns()[0].descriptor;
    let groups = [vec![vec![v1(d, Encoding::Plain, 300, 300, int32s(0..300), None)]]];
    let bytes = write(&s, &groups, CompressionOptions::Snappy, true).unwrap();
    let mut reader = Cursor::new(&bytes);
    let md = parquet2::read::read_metadata(&mut reader).unwrap();
    let column = &md.row_groups[0].columns()[0];
    let (start, length) = column.byte_range();
    let locations = parquet2::read::read_pages_locations(&mut reader, md.row_groups[0].columns()).unwrap();
    let intervals: Vec<Interval> = (0..100).map(|i| Interval::new(3 * i, 1)).collect();
    let location = &locations[0][0];
    let page = FilteredPage { start: location.offset as u64, length: location.compressed_page_size as usize, selected_rows: intervals.clone(), num_rows: 300 };
    assert!(start + length >= page.start);
    let pages = parquet2::read::IndexedPageReader::new(reader, column, vec![page], vec![], vec![]);
    let pages: Vec<_> = pages.collect::<Result<Vec<_>>>().unwrap();
    assert_eq!(pages.len(), 1);
    let page = parquet2::read::decompress(pages.into_iter().next().unwrap(), &mut vec![]).unwrap();
    let Page::Data(page) = page else { panic!() };
    let selected: Vec<(usize, usize)> = page.selected_rows().unwrap().iter().map(|x| (x.start, x.length)).collect();
    let expected: Vec<(usize, usize)> = intervals.iter().map(|x| (x.start, x.length)).collect();
    assert_eq!(selected, expected);
}
'''
