id='b07'; property='P14'
needs='An RLE run in a hybrid stream with values of 17 to 24 bits'
breaks='The run takes 4 bytes of the stream instead of 3, so what follows it is misread'
edits=[('src/encoding/hybrid_rle/decoder.rs','let rle_bytes = ceil8(self.num_bits);','let rle_bytes = ceil8(self.num_bits).next_power_of_two();')]
demo=r'''
fn main() {
    use parquet2::encoding::hybrid_rle::HybridRleDecoder;
    // two runs of 20 bits: 3 x 0x12345 and 2 x 0x54321
    let data = [6, 0x45, 0x23, 0x01, 4, 0x21, 0x43, 0x05];
    let values = HybridRleDecoder::try_new(&data, 20, 5).unwrap().collect::<Result<Vec<_>>>().unwrap();
    assert_eq!(values, vec![0x12345, 0x12345, 0x12345, 0x54321, 0x54321]);
}
'''
