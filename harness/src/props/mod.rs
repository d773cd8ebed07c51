use crate::engine::Prop;

pub mod prog;
pub mod scope;
pub mod control;
pub mod large;
pub mod structs;
pub mod assign;
pub mod calls;
pub mod opt;
pub mod layout;
pub mod prec;
pub mod text;
pub mod vals;
pub mod web;
pub mod num;
pub mod coll;
pub mod iters;
pub mod stages;
mod strs;
pub mod types;
pub mod repl;
pub mod report;
pub mod total;
pub mod cli;
pub mod ffi;
pub mod memory;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(text::props());
    v.extend(prog::props());
    v.extend(repl::props());
    v.extend(web::props());
    v.extend(total::props());
    v.extend(ffi::props());
    v.extend(cli::props());
    v.extend(memory::props());
    v
}
