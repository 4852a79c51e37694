id='b36'; property='P24'
needs='A data page that does not declare its rows, in a column other than the first one'
breaks='The offset index takes its number of values for its number of rows, instead of refusing'
edits=[('src/write/indexes/serialize.rs','''            let num_rows = spec.num_rows.ok_or_else(|| {
                Error::oos(
                    "options were set to write statistics but some data pages miss number of rows",
                )
            })?;
''','''            let num_rows = spec.num_rows.unwrap_or(spec.num_values);
''')]
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required), leaf("b", PhysicalType::Int32, Repetition::Repeated)]);
    let (a, b) = (&s.columns()[0].descriptor, &s.columns()[1].descriptor);
    let without = |page: Page| match page {
        Page::Data(page) => Page::Data(DataPage::new(page.header().clone(), page.buffer().to_vec(), b.clone(), None)),
        page => page,
    };
    let data = [sized(levels(&[false, true])), sized(levels(&[true, true])), int32s([1, 2])].concat();
    let groups = [vec![vec![v1(a, Encoding::Plain, 1, 1, int32s([1]), None)], vec![without(v1(b, Encoding::Plain, 2, 1, data, None))]]];
    assert!(write(&s, &groups, CompressionOptions::Uncompressed, false).is_err());
}
'''
