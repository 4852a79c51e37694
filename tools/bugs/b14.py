id='b14'; property='P20'
needs='A column whose maximum level is a power of two (2, 4, ...)'
breaks='Its levels are read with one bit less than they have'
edits=[('src/read/levels.rs','''    16 - max_level.leading_zeros()
}''','''    // the number of levels, as a power of two
    (max_level as u16 | 1).next_power_of_two().trailing_zeros().max(max_level.min(1) as u32)
}''')]
edits=[('src/read/levels.rs','    16 - max_level.leading_zeros()\n','''    match max_level {
        // the levels of columns are seldom deeper than this
        0 => 0,
        1 => 1,
        2..=3 => 2,
        4..=15 => 3 + (max_level >> 3) as u32,
        16..=127 => 16 - (max_level + 1).leading_zeros(),
        max_level => 16 - max_level.leading_zeros(),
    }
''')]
needs='A column whose maximum level is 2^n - 1 with n of 5 or more (31, 63, 127)'
breaks='The levels of such a column are read with one bit more than they have'
demo=r'''
fn main() {
    for level in 0..1000i16 {
        assert_eq!(parquet2::read::levels::get_bit_width(level), 16 - level.leading_zeros(), "{level}");
    }
}
'''
