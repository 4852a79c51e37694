id='b10'; property='P15'
needs='Levels whose last RLE run declares more values than the column has left, after another run'
breaks='The runs then give more values than there are'
edits=[('src/deserialize/hybrid_rle.rs','''                let is_set = value[0] == 1;

                let additional = length.min(self.len());

                self.consumed += additional;''','''                let is_set = value[0] == 1;

                let additional = length.min(self.length);

                self.consumed = self.length.min(self.consumed + additional);''')]
demo=r'''
fn main() {
    use parquet2::deserialize::{HybridDecoderBitmapIter, HybridEncoded};
    use parquet2::encoding::hybrid_rle::Decoder;
    // 5 x true, 8 x false, for 10 values
    let data = [10, 1, 16, 0];
    let runs = HybridDecoderBitmapIter::new(Decoder::new(&data, 1), 10).collect::<Result<Vec<_>>>().unwrap();
    assert_eq!(runs, vec![HybridEncoded::Repeated(true, 5), HybridEncoded::Repeated(false, 5)]);
}
'''
