use crate::engine::*;
use crate::fromratel;
use crate::gen::{self, Cfg};
use crate::tree::Tree;
use ratel::error::Error;
use ratel::Module;

pub fn parse(text: &str) -> Result<Module<'_>, Vec<Error>> {
    set_current(text);
    ratel::parse(text)
}

/// Parse a text that has to be accepted.
pub fn must_parse<'a>(text: &'a str, what: &str, render: &str) -> Result<Module<'a>, Failure> {
    set_current(text);
    match ratel::parse(text) {
        Ok(m) => Ok(m),
        Err(e) => fail("rejected", format!("{} is rejected: {:?}", what, e.iter().take(3).collect::<Vec<_>>()), render),
    }
}

pub fn tree_of(text: &str, what: &str, render: &str) -> Result<Tree, Failure> {
    let m = must_parse(text, what, render)?;
    Ok(fromratel::module(&m))
}

pub fn program(s: &mut Src) -> Tree {
    let cfg = Cfg { deepest: 1100, ..Cfg::standard(s) };
    gen::program(s, cfg)
}
