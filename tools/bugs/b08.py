id='b08'; property='P13'
needs='A number of values that is not a multiple of the chunk, with more bits per value than 8'
breaks='The last, incomplete, chunk of packed values is only read up to as many bytes as there are values in a chunk; the rest are zeros'
edits=[('src/encoding/bitpacked/decode.rs','        buf.as_mut()[..packed.len()].copy_from_slice(packed);','''        // the buffer holds a whole chunk
        let length = packed.len().min(T::Unpacked::LENGTH);
        buf.as_mut()[..length].copy_from_slice(&packed[..length]);''')]
demo=r'''
fn main() {
    use parquet2::encoding::bitpacked::{encode, Decoder};
    let values = (0..31u32).map(|x| 60000 + x).collect::<Vec<_>>();
    let mut packed = vec![0; 64];
    encode(&values, 16, &mut packed);
    let result = Decoder::<u32>::try_new(&packed[..62], 16, 31).unwrap().collect::<Vec<_>>();
    assert_eq!(result, values);
}
'''
