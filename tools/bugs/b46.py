id='b46'; property='P02'
needs='A column chunk whose pages hold more than 2^31 - 1 values together, such as long runs of nulls'
breaks='The number of values of the chunk in the footer is less than what its pages hold'
edits=[('src/write/column_chunk.rs','''                _ => 0, // only data pages contribute
            }
        })
        .sum();''','''                _ => 0, // only data pages contribute
            }
        })
        .fold(0i64, |total: i64, n: i64| (total as i32).saturating_add(n as i32).into());''')]
demo=r'''
fn main() {
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Optional)]);
    let d = &s.columns()[0].descriptor;
    let n = 1_500_000_000usize;
    // one run of nulls
    let mut run = vec![];
    let mut header = (n as u64) << 1;
    while header > 127 {
        run.push(header as u8 | 128);
        header >>= 7;
    }
    run.extend([header as u8, 0]);
    let page = || v1(d, Encoding::Plain, n, n, sized(run.clone()), None);
    let bytes = write(&s, &[vec![vec![page(), page(), page()]]], CompressionOptions::Uncompressed, false).unwrap();
    let md = parquet2::read::read_metadata(&mut Cursor::new(bytes)).unwrap();
    assert_eq!(md.row_groups[0].num_rows(), 3 * n);
    assert_eq!(md.row_groups[0].columns()[0].num_values(), 3 * n as i64);
}
'''
