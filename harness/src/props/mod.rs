pub mod args;
pub mod basic;
pub mod collect;
pub mod cond;
pub mod content;
pub mod env;
pub mod errors;
pub mod include;
pub mod limits;
pub mod links;
pub mod meta;
pub mod nest;
pub mod parts;
pub mod render;
pub mod text;
pub mod tree;
pub mod wellformed;

use crate::runner::Prop;

pub fn all() -> Vec<&'static dyn Prop> {
    let mut v: Vec<&'static dyn Prop> = vec![];
    v.extend(basic::props());
    v.extend(render::props());
    v.extend(collect::props());
    v.extend(wellformed::props());
    v.extend(content::props());
    v.extend(nest::props());
    v.extend(cond::props());
    v.extend(include::props());
    v.extend(env::props());
    v.extend(limits::props());
    v.extend(links::props());
    v.extend(errors::props());
    v.extend(parts::props());
    v.extend(text::props());
    v.extend(args::props());
    v.extend(meta::props());
    v
}

pub fn get(id: &str) -> Option<&'static dyn Prop> {
    all().into_iter().find(|p| p.id() == id)
}
