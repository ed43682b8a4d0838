#![feature(new_range_api)]
#[path = "../../common/mod.rs"]
#[macro_use]
mod common;
mod arena;
mod emit;
mod generations;
mod lex;
mod parse;
mod pratt;
mod session;
mod source;
mod toy;
mod tree;

#[global_allocator]
static ALLOC: arena::Watched = arena::Watched;

fn main() {
    let mut c = common::Ctx::from_args();
    match c.prop.clone().as_str() {
        "P01" => source::p01(&mut c),
        "P02" => source::p02(&mut c),
        "P03" => source::p03(&mut c),
        "P04" => source::p04(&mut c),
        "P06" => lex::p06(&mut c),
        "P07" => lex::p07(&mut c),
        "P08" => arena::p08(&mut c),
        "P09" => tree::p09(&mut c),
        "P10" => parse::p10(&mut c),
        "P11" => pratt::p11(&mut c),
        "P12" => session::p12(&mut c),
        "P13" => generations::p13(&mut c),
        "P21" => emit::p21(&mut c),
        p => panic!("unknown property {p}"),
    }
    c.finish()
}
