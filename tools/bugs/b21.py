id='b21'; property='P28'
needs='A time or timestamp annotation whose unit is not in capitals'
breaks='Such a text is refused'
edits=[('src/schema/io_message/from_message.rs','.and_then(|v| match v.to_uppercase().as_str() {','.and_then(|v| match v {')]
demo=r'''
fn main() {
    for unit in ["MICROS", "micros", "Micros"] {
        let text = format!("message m {{ REQUIRED INT64 a (TIMESTAMP({unit},true)); }}");
        let t = parquet2::schema::io_message::from_message(&text).unwrap();
        match t {
            ParquetType::GroupType { fields, .. } => assert_eq!(fields.len(), 1),
            _ => panic!(),
        }
    }
}
'''
