id='b11'; property='P17'
needs='An empty string between two strings that share a prefix'
breaks='The string after the empty one is given a prefix of the string before it, which the decoder does not have'
edits=[('src/encoding/delta_byte_array/encoder.rs','            previous = item;','''            if !item.is_empty() {
                previous = item;
            }''')]
demo=r'''
fn main() {
    use parquet2::encoding::delta_byte_array::{encode, Decoder};
    let strings: [&[u8]; 3] = [b"hello", b"", b"help"];
    let mut data = vec![];
    encode(strings.into_iter(), &mut data);
    let mut decoder = Decoder::try_new(&data).unwrap();
    let prefixes = decoder.by_ref().collect::<Result<Vec<_>>>().unwrap();
    let mut decoder = decoder.into_lengths().unwrap();
    let lengths = decoder.by_ref().collect::<Result<Vec<_>>>().unwrap();
    let mut values = decoder.into_values();
    let mut last: Vec<u8> = vec![];
    for (i, x) in strings.iter().enumerate() {
        let (suffix, rest) = values.split_at(lengths[i] as usize);
        values = rest;
        last = [&last[..prefixes[i] as usize], suffix].concat();
        assert_eq!(&last, x);
    }
}
'''
