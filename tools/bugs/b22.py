id='b22'; property='P29'
needs='A timestamp annotation over a 96-bit column'
breaks='It is accepted'
edits=[('src/schema/types/spec.rs','(Timestamp { .. }, PhysicalType::Int64) => {}','(Timestamp { .. }, PhysicalType::Int64 | PhysicalType::Int96) => {}')]
demo=r'''
fn main() {
    use parquet2::schema::types::{PrimitiveLogicalType, TimeUnit};
    for (type_, ok) in [(PhysicalType::Int64, true), (PhysicalType::Int96, false), (PhysicalType::Int32, false)] {
        let logical = PrimitiveLogicalType::Timestamp { unit: TimeUnit::Nanoseconds, is_adjusted_to_utc: true };
        let t = ParquetType::try_from_primitive("a".to_string(), type_, Repetition::Required, None, Some(logical), None);
        assert_eq!(t.is_ok(), ok, "{type_:?}");
    }
}
'''
