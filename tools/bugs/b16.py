id='b16'; property='P22'
needs='Pages of which one is not selected and precedes a selected one'
breaks='The selected pages are matched with the row ranges of the first pages, not their own'
edits=[('src/indexes/intervals.rs','''    Ok(selected
        .iter()
        .zip(page_intervals.iter().copied())
        .filter_map(''','''    Ok(selected
        .iter()
        .zip(page_intervals.iter().copied().filter(|x| x.length > 0))
        .filter_map(''')]
needs='A page without rows of its own (all its values continue the row of the page before) before a selected page'
breaks='The pages after it are given the rows of the page that follows each'
demo=r'''
fn main() {
    use parquet2::indexes::{compute_rows, Interval, PageLocation};
    let location = |row| PageLocation { offset: 4, compressed_page_size: 10, first_row_index: row };
    let locations = [location(0), location(5), location(5), location(7)];
    let rows = compute_rows(&[true, false, true, false], &locations, 10).unwrap();
    assert_eq!(rows, vec![Interval::new(0, 5), Interval::new(5, 2)]);
}
'''
