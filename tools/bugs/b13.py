id='b13'; property='P19'
needs='A V1 page whose definition levels declare a length that exceeds what the page has by 1 to 4 bytes'
breaks='Splitting such a page panics instead of returning an error'
edits=[('src/page/mod.rs','''            buffer.get(4..4 + level_buffer_length).ok_or_else(|| {
                Error::oos(
                    "The number of bytes declared in v1 def levels is higher than the page size",
                )
            })?,
            buffer.get(4 + level_buffer_length..).ok_or_else(|| {
                Error::oos(
                    "The number of bytes declared in v1 def levels is higher than the page size",
                )
            })?,
        )''','''            buffer.get(4..4 + level_buffer_length).or_else(|| buffer.get(4..).filter(|x| x.len() == level_buffer_length.min(x.len() + 1).min(x.len()) && level_buffer_length == x.len())).ok_or_else(|| {
                Error::oos(
                    "The number of bytes declared in v1 def levels is higher than the page size",
                )
            })?,
            &[] as &[u8],
        )''')]
edits=[('src/page/mod.rs','''        let level_buffer_length = get_length(buffer).ok_or_else(|| {
            Error::oos("The number of bytes declared in v1 rep levels is higher than the page size")
        })?;
        (
            buffer.get(4..4 + level_buffer_length).ok_or_else(|| {
                Error::oos(
                    "The number of bytes declared in v1 def levels is higher than the page size",
                )
            })?,
            buffer.get(4 + level_buffer_length..).ok_or_else(|| {
                Error::oos(
                    "The number of bytes declared in v1 def levels is higher than the page size",
                )
            })?,
        )''','''        let level_buffer_length = get_length(buffer).ok_or_else(|| {
            Error::oos("The number of bytes declared in v1 rep levels is higher than the page size")
        })?;
        if level_buffer_length > buffer.len() {
            return Err(Error::oos(
                "The number of bytes declared in v1 def levels is higher than the page size",
            ));
        }
        buffer[4..].split_at(level_buffer_length)''')]
demo=r'''
fn main() {
    let (rep, def, values) = parquet2::page::split_buffer_v1(&[2, 0, 0, 0, 3, 1, 9], false, true).unwrap();
    assert_eq!((rep, def, values), (&[] as &[u8], &[3u8, 1] as &[u8], &[9u8] as &[u8]));
    assert!(parquet2::page::split_buffer_v1(&[200, 0, 0, 0, 3, 1, 9], false, true).is_err());
    assert!(parquet2::page::split_buffer_v1(&[5, 0, 0, 0, 3, 1, 9], false, true).is_err());
}
'''
