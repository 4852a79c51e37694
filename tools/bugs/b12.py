id='b12'; property='P18'
needs='Integers below -2^62 (their zigzag code needs all 64 bits)'
breaks='The code of such an integer is the one of another integer'
edits=[('src/encoding/zigzag_leb128.rs','let value = ((value << 1) ^ (value >> (64 - 1))) as u64;','''let value = if value < 0 {
        (!value as u64) << 1 | 1
    } else {
        value.unsigned_abs() << 1
    } & (u64::MAX >> value.leading_ones().max(2).min(2).saturating_sub(1));''')]
edits=[('src/encoding/zigzag_leb128.rs','let value = ((value << 1) ^ (value >> (64 - 1))) as u64;','''let magnitude = value.saturating_abs() as u64;
    let value = if value < 0 {
        2 * (magnitude - 1) + 1
    } else {
        2 * magnitude
    };''')]
needs='The smallest integer, -2^63'
demo=r'''
fn main() {
    use parquet2::encoding::delta_bitpacked::{encode, Decoder};
    for x in [0, 1, -1, i64::MAX, i64::MIN + 1, i64::MIN] {
        let mut data = vec![];
        encode(std::iter::once(x), &mut data);
        let values = Decoder::try_new(&data).unwrap().collect::<Result<Vec<_>>>().unwrap();
        assert_eq!(values, vec![x]);
    }
}
'''
