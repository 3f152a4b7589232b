//! C09 minified round trip, C10 pretty output.
use super::common::*;
use super::syntax::{op_tree, wrap_program};
use crate::engine::*;
use crate::fromratel;
use crate::print::{self, Mode, Opts};
use crate::tree::*;
use crate::{Prop, Sub};
use ratel_codegen::codegen;

fn source(s: &mut Src) -> (Tree, String) {
    let t = program(s);
    let o = Opts::gen(s);
    let p = print::print(&t, s, o);
    (t, p.laid.text)
}
fn op_source(s: &mut Src) -> (Tree, String) {
    let mut n = 0;
    let x = op_tree(s, 3, &mut n);
    let t = wrap_program(s, x);
    let p = print::print(&t, s, Opts { mode: Mode::Spaced, parens: 0, asi: 0, exotic: false, room: true });
    (t, p.laid.text)
}

pub fn round_trip(t: &Tree, text: &str, minify: bool) -> PropResult {
    let m = match parse(text) {
        Ok(m) => m,
        // C04 decides that
        Err(_) => return Ok(Case { render: text.to_string(), nontrivial: false, skipped: Some("rejected (see C04)") }),
    };
    let a = fromratel::module(&m);
    let out = codegen(&m, minify);
    let what = if minify { "the minified output" } else { "the pretty output" };
    let render = format!("{}\n=== {} ===\n{}", text, what, out);
    let m2 = must_parse(&out, what, &render)?;
    let b = fromratel::module(&m2);
    if let Some(d) = diff(&a, &b, false) {
        return fail("tree", format!("{} parses to another tree: {}", what, d), render);
    }
    let again = codegen(&m2, minify);
    if again != out {
        return fail("fixpoint", format!("printing {} again gives {:?}", what, again), render);
    }
    if !minify {
        let min = codegen(&m, true);
        let bare = |s: &str| s.chars().filter(|c| *c != ' ' && *c != '\n').collect::<String>();
        if bare(&min) != bare(&out) {
            return fail("tokens", format!("pretty and minified output have different tokens; minified: {}", min), render);
        }
        if let Err(d) = indentation(&b, &out, 0) {
            return fail("indentation", d, render);
        }
    }
    ok(text, t.count() >= 8 && t.depth() >= 4)
}

/// Every item of a nested block starts a line that is indented four spaces per enclosing block, and
/// so does the brace that closes it, one level less.
fn indentation(t: &Tree, text: &str, depth: usize) -> Result<(), String> {
    use K::*;
    let items: Option<(&[Tree], (u32, u32))> = match t.k {
        Block | ClassBody | Object if !t.kids.is_empty() => Some((&t.kids[..], t.loc)),
        Switch if !t.kids[1].kids.is_empty() => Some((&t.kids[1].kids[..], (t.loc.0, t.loc.1))),
        Case => {
            if let Some(test) = t.kids.first() {
                indentation(test, text, depth)?;
            }
            for c in t.kids.iter().skip(1) {
                line_start(text, c.loc.0 as usize, depth + 1, c)?;
                indentation(c, text, depth + 1)?;
            }
            return Ok(());
        }
        Program => {
            for (i, c) in t.kids.iter().enumerate() {
                if i > 0 {
                    line_start(text, c.loc.0 as usize, 0, c)?;
                }
                indentation(c, text, 0)?;
            }
            return Ok(());
        }
        _ => None,
    };
    match items {
        Some((kids, loc)) => {
            if t.k == Switch {
                indentation(&t.kids[0], text, depth)?;
            }
            for c in kids {
                line_start(text, c.loc.0 as usize, depth + 1, c)?;
                indentation(c, text, depth + 1)?;
            }
            let end = loc.1 as usize - 1;
            if text.as_bytes()[end] != b'}' {
                return Err(format!("no closing brace at {}", end));
            }
            line_start(text, end, depth, t)
        }
        None => t.kids.iter().try_for_each(|c| indentation(c, text, depth)),
    }
}

fn line_start(text: &str, pos: usize, depth: usize, what: &Tree) -> Result<(), String> {
    let start = text[..pos].rfind('\n').map_or(0, |i| i + 1);
    let lead = &text[start..pos];
    let spaces = lead.len() - lead.trim_start_matches(' ').len();
    // the location of an arrow function may leave out a parenthesis
    if start == 0 || spaces != depth * 4 || lead[spaces..].chars().any(|c| c != '(') {
        return Err(format!("{} at {} should start a line indented by {}, after {:?}", short(what.show()), pos, depth * 4, lead));
    }
    Ok(())
}

fn c09_program(s: &mut Src) -> PropResult {
    let (t, text) = source(s);
    round_trip(&t, &text, true)
}
fn c09_operators(s: &mut Src) -> PropResult {
    let (t, text) = op_source(s);
    round_trip(&t, &text, true)
}
fn c10_program(s: &mut Src) -> PropResult {
    let (t, text) = source(s);
    round_trip(&t, &text, false)
}
fn c10_operators(s: &mut Src) -> PropResult {
    let (t, text) = op_source(s);
    round_trip(&t, &text, false)
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "a random program (or an operator tree of depth 3 in every expression position) is parsed, minified and parsed again; the trees must be equal and minifying the second must reproduce the text. Non-trivial: at least 8 nodes and depth 4.",
        assumptions: &[],
        subs: vec![
            Sub { name: "program", quick: 500_000, thorough: 2_000_000, f: c09_program },
            Sub { name: "operators", quick: 1_000_000, thorough: 3_000_000, f: c09_operators },
        ],
        probes: vec![],
    }
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "a random program (or an operator tree of depth 3 in every expression position) is parsed, printed prettily and parsed again; the trees must be equal, printing again must reproduce the text, the text without spaces and line breaks must be that of the minified code, every statement of the program must start a line, and every item and closing brace of a non-empty block, object, class or switch must start a line indented four spaces per level. Non-trivial: at least 8 nodes and depth 4.",
        assumptions: &["texts that are equal up to spaces and line breaks and parse to equal trees (with equal literal texts) have the same tokens"],
        subs: vec![
            Sub { name: "program", quick: 500_000, thorough: 2_000_000, f: c10_program },
            Sub { name: "operators", quick: 1_000_000, thorough: 3_000_000, f: c10_operators },
        ],
        probes: vec![],
    }
}
