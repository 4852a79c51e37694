id='b18'; property='P25'
needs='Statistics of a byte-array column whose minimum is the empty string'
breaks='The minimum is lost when the statistics are read'
edits=[('src/statistics/binary.rs','''        min_value: v.min_value.clone(),
    }))''','''        min_value: v.min_value.clone().filter(|x| !x.is_empty()),
    }))''')]
demo=r'''
fn main() {
    use parquet2::schema::types::PrimitiveType;
    use parquet2::statistics::*;
    let t = PrimitiveType::from_physical("a".to_string(), PhysicalType::ByteArray);
    let x = BinaryStatistics { primitive_type: t.clone(), null_count: Some(1), distinct_count: None, min_value: Some(vec![]), max_value: Some(b"z".to_vec()) };
    let y = deserialize_statistics(&serialize_statistics(&x), t).unwrap();
    assert_eq!(Some(&x), y.as_any().downcast_ref::<BinaryStatistics>());
}
'''
