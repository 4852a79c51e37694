id='b26'; property='P33'
deps='serde_json = "1"\nbincode = "1.3"'
needs='The serde_types feature, a format that does not describe itself and a column without a logical type'
breaks='What is serialised cannot be deserialised'
edits=[('src/schema/types/parquet_type.rs','''    /// The optional logical type
    pub logical_type: Option<PrimitiveLogicalType>,
    /// The optional converted type
    pub converted_type: Option<PrimitiveConvertedType>,
    /// The physical type
    pub physical_type: PhysicalType,
}''','''    /// The optional converted type
    #[cfg_attr(feature = "serde_types", serde(skip_serializing_if = "Option::is_none"))]
    pub converted_type: Option<PrimitiveConvertedType>,
    /// The optional logical type
    pub logical_type: Option<PrimitiveLogicalType>,
    /// The physical type
    pub physical_type: PhysicalType,
}''')]
demo=r'''
fn main() {
    use parquet2::metadata::SchemaDescriptor;
    let s = schema(vec![leaf("a", PhysicalType::Int32, Repetition::Required)]);
    let t = s.columns()[0].descriptor.primitive_type.clone();
    let bytes = bincode::serialize(&t).unwrap();
    let u: parquet2::schema::types::PrimitiveType = bincode::deserialize(&bytes).unwrap();
    assert_eq!(t, u);
    let text = serde_json::to_string(&t).unwrap();
    assert_eq!(t, serde_json::from_str(&text).unwrap());
}
'''
