id='b27'; property='P34'
needs='A 96-bit timestamp whose nanoseconds of the day have the 32nd bit set'
breaks='It is converted to another instant'
edits=[('src/types.rs','let nanoseconds = ((value[1] as i64) << 32) + value[0] as i64;','let nanoseconds = ((value[1] as i64) << 32) + value[0] as i32 as i64;')]
demo=r'''
fn main() {
    // 3 000 000 000 ns after the epoch
    assert_eq!(parquet2::types::int96_to_i64_ns([3_000_000_000, 0, 2_440_588]), 3_000_000_000);
    assert_eq!(parquet2::types::int96_to_i64_ns([1_000_000_000, 0, 2_440_588]), 1_000_000_000);
}
'''
