//! C11: the JavaScript engine's view of the source and of the generated code.
use super::common::*;
use super::syntax::{op_tree, wrap_program};
use super::text::short;
use crate::engine::*;
use crate::fromjson::{self, Dialect};
use crate::fromratel;
use crate::json::J;
use crate::node;
use crate::print::{self, Mode, Opts};
use crate::tree::*;
use crate::{Prop, Sub};
use ratel_codegen::codegen;

fn has_import(t: &Tree) -> bool {
    t.kids.iter().any(|k| k.k == K::Import)
}

/// acorn normalises the line breaks of templates
fn line_breaks(t: &mut Tree) {
    if t.k == K::Quasi && t.s.contains('\r') {
        t.s = t.s.replace("\r\n", "\n").replace('\r', "\n");
    }
    t.kids.iter_mut().for_each(line_breaks);
}

fn compare(s: &mut Src, t: &Tree, text: &str, run: bool) -> PropResult {
    let skip = |why| Ok(Case { render: text.to_string(), nontrivial: false, skipped: Some(why) });
    let m = match parse(text) {
        Ok(m) => m,
        Err(_) => return skip("rejected (see C04)"),
    };
    let module = has_import(t);
    let outputs = [codegen(&m, true), codegen(&m, false)];
    let q = serde_json::json!({"op": "same", "source": text, "outputs": outputs, "module": module, "run": run && !module});
    let a = match node::ask(&q) {
        None => return skip("the engine died"),
        Some(a) => a,
    };
    if let Some(e) = a.get("rejected") {
        if std::env::var_os("PBT_SHOW").is_some() {
            println!("REJECTED {} {}", e.show(), text);
        }
        return skip("not accepted by the other parser");
    }
    let render = format!("{}\n=== minified ===\n{}\n=== pretty ===\n{}", text, outputs[0], outputs[1]);
    if let Some(J::Num(i)) = a.get("bad") {
        let why = a.get("why").and_then(|w| w.str()).unwrap_or("");
        let kind = if why.contains("reject") { "rejected" } else if why.contains("traces") { "trace" } else { "program" };
        return fail(kind, format!("{} output: {}", if i == "0" { "minified" } else { "pretty" }, why), render);
    }
    let mut theirs = fromjson::program(a.get("tree").unwrap(), Dialect::Acorn).unwrap_or_else(|e| panic!("HARNESS: tree of the other parser: {} for {}", e, text));
    let mut ours = fromratel::module(&m);
    fromjson::as_estree(&mut theirs);
    fromjson::as_estree(&mut ours);
    line_breaks(&mut ours);
    if let Some(d) = diff(&theirs, &ours, false) {
        return fail("tree", format!("the tree is not that of the other parser: {}", short(&d)), render);
    }
    let steps = match a.get("steps") {
        Some(J::Num(n)) => n.parse::<usize>().unwrap_or(0),
        _ => 0,
    };
    for (k, l) in [("timeout", "timeout"), ("syntax", "rejected by the engine only"), ("unstable", "unstable trace")] {
        if a.get(k).is_some() {
            s.label(l);
        }
    }
    if steps >= 5 {
        s.label("trace of 5 steps or more");
    }
    ok(text, t.count() >= 8 && t.depth() >= 4)
}

fn c11_program(s: &mut Src) -> PropResult {
    let t = program(s);
    let o = Opts::gen(s);
    let p = print::print(&t, s, o);
    let strict = s.chance(1, 8);
    if strict {
        s.label("strict mode");
        return compare(s, &t, &format!("'use strict';{}", p.laid.text), true);
    }
    compare(s, &t, &p.laid.text, true)
}
fn c11_operators(s: &mut Src) -> PropResult {
    let mut n = 0;
    let x = op_tree(s, 3, &mut n);
    let t = wrap_program(s, x);
    let p = print::print(&t, s, Opts { mode: Mode::Spaced, parens: 0, asi: 0, exotic: false, room: true });
    compare(s, &t, &p.laid.text, true)
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "a random program (or operator tree) laid out at random, its minified and its pretty output: acorn has to accept all three and build the same tree of them, ratel's own tree has to be acorn's, and node has to produce the same trace running each, with recording proxies for everything the program does not define. Non-trivial: at least 8 nodes and depth 4.",
        assumptions: &["acorn (ecmaVersion 2022) and V8 as the standards of JavaScript", "programs acorn rejects for early errors (duplicate declarations, labels, strict mode) are skipped and counted"],
        subs: vec![
            Sub { name: "program", quick: 50_000, thorough: 400_000, f: c11_program },
            Sub { name: "operators", quick: 40_000, thorough: 300_000, f: c11_operators },
        ],
        probes: vec![("parenthesised-directive", || {
            ratel::parse("(\"use strict\");").is_ok_and(|m| codegen(&m, true).starts_with('"'))
        })],
    }
}
