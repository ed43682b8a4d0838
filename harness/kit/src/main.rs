#![feature(new_range_api)]
#[path = "../../common/mod.rs"]
#[macro_use]
mod common;
mod colours;
mod comments;
mod fmt;
mod layout;
mod lines;
mod markup;
mod mcp;
mod repl;
mod service;
mod reports;
mod tables;
mod walk;

fn main() {
    let mut c = common::Ctx::from_args();
    match c.prop.clone().as_str() {
        "P05" => lines::p05(&mut c),
        "P27" => comments::p27(&mut c),
        "P26" => service::p26(&mut c),
        "P25" => mcp::p25(&mut c),
        "P24" => fmt::p24(&mut c),
        "P23" => repl::p23(&mut c),
        "P22" => walk::p22(&mut c),
        "P17" => colours::p17(&mut c),
        "P19" => reports::p19(&mut c),
        "P18" => markup::p18(&mut c),
        "P16" => layout::p16(&mut c),
        "P14" => tables::p14(&mut c),
        "P15" => tables::p15(&mut c),
        "P20" => tables::p20(&mut c),
        p => panic!("unknown property {p}"),
    }
    c.finish()
}
