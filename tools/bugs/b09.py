id='b09'; property='P16'
needs='A stream of another writer with several miniblocks per block, one of bit width zero followed by others'
breaks='The miniblock after one of width zero is not reached: its values are taken for zeros'
edits=[('src/encoding/delta_bitpacked/decoder.rs','''            Some(bitpacked::Decoder::try_new(miniblock, num_bits, length)?)
        } else {
            None
        };
        self.current_index = 0;
''','''            self.current_index = 0;
            Some(bitpacked::Decoder::try_new(miniblock, num_bits, length)?)
        } else {
            None
        };
''')]
demo=r'''
fn main() {
    use parquet2::encoding::delta_bitpacked::Decoder;
    // block of 128 values in 4 miniblocks, of widths 1, 0, 1 and 0; 97 values that start at 0
    let mut data = vec![128, 1, 4, 97, 0];
    data.extend([0, 1, 0, 1, 0]);
    data.extend([0xff; 8]);
    let values = Decoder::try_new(&data).unwrap().collect::<Result<Vec<_>>>().unwrap();
    let expected = (0..97).map(|i: i64| i.min(32) + (i - 64).max(0)).collect::<Vec<_>>();
    assert_eq!(values, expected);
}
'''
