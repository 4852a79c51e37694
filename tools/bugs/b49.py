id='b49'; property='P20'
needs='A column nested so deeply that its definition levels take more than eight bits'
breaks='The levels are read with eight bits, so other slots are null'
edits=[('src/deserialize/utils.rs','''                get_bit_width(max_def_level),''','''                get_bit_width(max_def_level).min(8),''')]
demo=r'''
fn main() {
    use parquet2::deserialize::DefLevelsDecoder;
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Optional)]);
    let mut d = s.columns()[0].descriptor.clone();
    d.max_def_level = 300;
    // five levels of 300, in two bytes each
    let def = vec![5 << 1, 300u16.to_le_bytes()[0], 300u16.to_le_bytes()[1]];
    let Page::Data(page) = v1(&d, Encoding::Plain, 5, 5, [sized(def), int32s(0..5)].concat(), None) else { panic!() };
    match DefLevelsDecoder::try_new(&page).unwrap() {
        DefLevelsDecoder::Levels(levels, max) => {
            assert_eq!(max, 300);
            assert_eq!(levels.collect::<Result<Vec<u32>>>().unwrap(), vec![300; 5]);
        }
        _ => panic!(),
    }
}
'''
