use crate::engine::Prop;
pub mod codes;
pub mod comp;
pub mod economy;
pub mod enc;
pub mod fault;
pub mod file;
pub mod hostile;
pub mod huge;
pub mod idx;
pub mod stats;
pub mod meta;
pub mod page;
pub mod robust;
pub mod schema;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(codes::props());
    v.extend(comp::props());
    v.extend(economy::props());
    v.extend(enc::props());
    v.extend(file::props());
    v.extend(fault::props());
    v.extend(hostile::props());
    v.extend(page::props());
    v.extend(idx::props());
    v.extend(stats::props());
    v.extend(schema::props());
    v.extend(meta::props());
    v.extend(robust::props());
    v.sort_by_key(|p| p.id);
    v
}
