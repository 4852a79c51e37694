id='b15'; property='P21'
needs='A gap between two selected intervals inside one bit-packed run that starts at a byte boundary beyond the first byte and is not made of whole bytes'
breaks='The non-null values of the last rows of the gap are counted at the wrong place, so the number of values to skip is wrong'
edits=[('src/deserialize/filtered_rle.rs','''    BitmapIter::new(values, offset, length)
        .filter(|x| *x)
        .count()
''','''    // whole bytes first
    let bytes = if offset % 8 == 0 { length / 8 } else { 0 };
    let whole = values[offset / 8..][..bytes]
        .iter()
        .map(|byte| byte.count_ones() as usize)
        .sum::<usize>();
    let offset = if bytes > 0 { bytes * 8 } else { offset };
    let rest = BitmapIter::new(values, offset, length - bytes * 8);
    whole + rest.filter(|x| *x).count()
''')]
demo=r'''
fn main() {
    use parquet2::deserialize::{FilteredHybridBitmapIter, FilteredHybridEncoded, HybridEncoded};
    use parquet2::indexes::Interval;
    let values = [0xffu8, 0b10101010, 0, 0b00000111, 0xff];
    let runs = [Ok(HybridEncoded::Bitmap(&values, 40))].into_iter();
    // the gap is 8..27
    let intervals = vec![Interval::new(0, 8), Interval::new(27, 5)];
    let skipped = FilteredHybridBitmapIter::new(runs, intervals.into())
        .map(|run| match run.unwrap() {
            FilteredHybridEncoded::Skipped(set) => set,
            _ => 0,
        })
        .sum::<usize>();
    assert_eq!(skipped, 7);
}
'''
