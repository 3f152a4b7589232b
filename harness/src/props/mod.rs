pub mod codegen;
pub mod common;
pub mod edits;
pub mod errors;
pub mod estree;
pub mod bind;
pub mod blind;
pub mod broken;
pub mod history;
pub mod scale;
pub mod js;
pub mod syntax;
pub mod text;
pub mod walk;

use crate::engine::run_big;
use crate::Prop;

pub fn all() -> Vec<Prop> {
    vec![text::c01(), text::c02(), text::c03(), syntax::c04(), syntax::c05(), errors::c07(), syntax::c08(), codegen::c09(), codegen::c10(), js::c11(), broken::c06(), estree::c12(), estree::c13(), walk::c14(), walk::c15(), walk::c16(), bind::c17(), history::c18(), bind::c19(), scale::c20(), edits::c21(), edits::c22()]
}

pub fn command(x: &str, args: &[String]) -> i32 {
    if x == "blind" {
        return run_big(|| blind::blind(args.last().and_then(|n| n.parse().ok()).unwrap_or(200_000)));
    }
    eprintln!("unknown command {}", x);
    2
}
