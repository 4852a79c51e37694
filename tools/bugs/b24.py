id='b24'; property='P31'
needs='A filter whose number of blocks is not a power of two'
breaks='Values are looked for, and put, in other blocks than those the format prescribes: filters of other writers deny values they have'
edits=[('src/bloom_filter/split_block.rs','    let block_index = ((low_hash * number_of_blocks) >> 32) as u32;','''    // a multiplication by the number of blocks is a shift
    let block_index = ((low_hash << number_of_blocks.ilog2()) >> 32) as u32;''')]
demo=r'''
fn main() {
    use parquet2::bloom_filter::*;
    // 3 blocks; hash with the block 2
    let hash = hash_native(7i64) | 0xffff_0000_0000_0000;
    let mut filter = vec![0; 96];
    insert(&mut filter, hash);
    assert!(is_in_set(&filter, hash));
    assert!(filter[..64].iter().all(|x| *x == 0));
    assert!(filter[64..].iter().any(|x| *x != 0));
}
'''
