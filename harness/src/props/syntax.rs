//! C04 tree = grammar, C05 layout independence, C08 locations.
use super::common::*;
use crate::engine::*;
use crate::fromratel;
use crate::gen;
use crate::known;
use crate::print::{self, Mode, Opts};
use crate::tree::*;
use crate::{Prop, Sub};

fn nontrivial(t: &Tree) -> bool {
    t.count() >= 8 && t.depth() >= 4
}

/// print plainly, parse, compare
fn c04_program(s: &mut Src) -> PropResult {
    let t = program(s);
    let mode = *s.pick(&[Mode::Spaced, Mode::Compact]);
    let p = print::print(&t, s, Opts { mode, parens: 0, asi: 0, exotic: false, room: true });
    compare(&t, &p.laid.text)
}
fn compare(t: &Tree, text: &str) -> PropResult {
    fromratel::misused_operator();
    let got = tree_of(text, "a program of the supported subset", text)?;
    if let Some(o) = fromratel::misused_operator() {
        return fail("operator", o, text);
    }
    if let Some(d) = diff(t, &got, false) {
        return fail("tree", d, text);
    }
    ok(text, nontrivial(t))
}

/// operator nesting: small expression trees over all operators, with atoms that cannot merge
fn c04_operators(s: &mut Src) -> PropResult {
    let mut n = 0;
    let x = op_tree(s, 3, &mut n);
    let t = wrap_program(s, x);
    let p = print::print(&t, s, Opts { mode: Mode::Spaced, parens: 0, asi: 0, exotic: false, room: true });
    compare(&t, &p.laid.text)
}

pub fn op_tree(s: &mut Src, depth: usize, n: &mut usize) -> Tree {
    use K::*;
    *n += 1;
    if depth == 0 || s.chance(1, 6) {
        let names = ["a", "b", "c", "d", "e", "f", "g", "h"];
        return t(Ident, names[*n % names.len()], vec![]);
    }
    let d = depth - 1;
    match s.weighted(&[10, 3, 3, 3, 3, 3, 4, 3, 3, 3, 2, 2, 2]) {
        0 => {
            let op = *s.pick(gen::BINOPS);
            let l = op_tree(s, d, n);
            let r = op_tree(s, d, n);
            t(Bin, op, vec![l, r])
        }
        1 => {
            let op = *s.pick(gen::ASSIGNOPS);
            let l = target(s, d, n);
            let r = op_tree(s, d, n);
            t(Bin, op, vec![l, r])
        }
        2 => {
            let x = op_tree(s, d, n);
            t(Prefix, s.pick::<&str>(&["!", "-", "+", "~", "typeof", "void", "delete"]), vec![if x.k == Ident { t(Member, "", vec![x, t(Name, "p", vec![])]) } else { x }])
        }
        3 => {
            let x = target(s, d, n);
            t(Prefix, s.pick::<&str>(&["++", "--"]), vec![x])
        }
        4 => {
            let x = target(s, d, n);
            t(Postfix, s.pick::<&str>(&["++", "--"]), vec![x])
        }
        5 => {
            let a = op_tree(s, d, n);
            let b = op_tree(s, d, n);
            let c = op_tree(s, d, n);
            t(Cond, "", vec![a, b, c])
        }
        6 => {
            let x = op_tree(s, d, n);
            t(Member, "", vec![x, t(Name, "m", vec![])])
        }
        7 => {
            let x = op_tree(s, d, n);
            let y = op_tree(s, d, n);
            t(CMember, "", vec![x, y])
        }
        8 => {
            let x = op_tree(s, d, n);
            let mut kids = vec![x];
            for _ in 0..s.below(3) {
                kids.push(op_tree(s, d, n));
            }
            t(Call, "", kids)
        }
        9 => {
            let x = op_tree(s, d, n);
            // `new (f())` is kept by ratel as `new (f())()`, whose tree is the same
            if s.chance(1, 2) && x.k != Call {
                t(New, "", vec![x])
            } else {
                let mut kids = vec![x];
                for _ in 0..s.below(2) {
                    kids.push(op_tree(s, d, n));
                }
                t(New, "()", kids)
            }
        }
        10 => {
            let a = op_tree(s, d, n);
            let b = op_tree(s, d, n);
            t(Seq, "", vec![a, b])
        }
        11 => {
            let a = op_tree(s, d, n);
            t(Tagged, "", vec![a, t(Template, "", vec![t(Quasi, "q", vec![])])])
        }
        _ => {
            let b = op_tree(s, d, n);
            t(Arrow, "", vec![t(List, "", vec![t(PIdent, "p", vec![])]), b])
        }
    }
}
fn target(s: &mut Src, d: usize, n: &mut usize) -> Tree {
    use K::*;
    if s.chance(1, 3) {
        let x = op_tree(s, d, n);
        t(Member, "", vec![x, t(Name, "t", vec![])])
    } else {
        t(Ident, "t", vec![])
    }
}
/// the expression in one of the positions the grammar has for expressions
pub fn wrap_program(s: &mut Src, x: Tree) -> Tree {
    use K::*;
    let st = |x| t(ExprStmt, "", vec![x]);
    let body = || t(Block, "", vec![]);
    let id = || t(Ident, "z", vec![]);
    let one = match s.below(16) {
        0 => st(x),
        1 => t(Decl, "var", vec![t(Declarator, "", vec![t(PIdent, "v", vec![]), x])]),
        2 => t(If, "", vec![x, body(), nil()]),
        3 => t(While, "", vec![x, st(id())]),
        4 => t(For, "", vec![x, nil(), nil(), body()]),
        5 => t(For, "", vec![nil(), x, nil(), body()]),
        6 => t(For, "", vec![t(Decl, "let", vec![t(Declarator, "", vec![t(PIdent, "v", vec![]), x])]), nil(), nil(), body()]),
        7 => t(ForIn, "", vec![id(), x, body()]),
        8 => t(ForOf, "", vec![id(), x, body()]),
        9 => t(Throw, "", vec![x]),
        10 => st(t(Array, "", vec![x, id()])),
        11 => st(t(Call, "", vec![id(), t(Spread, "", vec![x])])),
        12 => st(t(Template, "", vec![t(Quasi, "", vec![]), x, t(Quasi, "", vec![])])),
        13 => t(Switch, "", vec![id(), t(Cases, "", vec![t(Case, "", vec![x, t(Break, "", vec![nil()])])])]),
        14 => st(t(Object, "", vec![t(Prop, "", vec![t(KeyLit, "k", vec![]), x])])),
        _ => t(Do, "", vec![st(id()), x]),
    };
    t(Program, "", vec![one])
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "program: a random syntax tree (grammar-directed, all statement/expression/pattern kinds) printed with minimal parentheses and parsed back, the two trees compared node by node; operators: trees of up to depth 3 over every operator in every expression position. Non-trivial: at least 8 nodes and depth 4.",
        assumptions: &["the harness printer's precedence table is the ECMAScript one (cross-checked against acorn by C11)"],
        subs: vec![
            Sub { name: "program", quick: 600_000, thorough: 1_500_000, f: c04_program },
            Sub { name: "operators", quick: 1_000_000, thorough: 3_000_000, f: c04_operators },
        ],
        probes: vec![],
    }
}

// ---- C05

fn c05_layout(s: &mut Src) -> PropResult {
    let t = program(s);
    let plain = print::print(&t, s, Opts::plain());
    let o = Opts::gen(s);
    let p = print::print(&t, s, o);
    let text = &p.laid.text;
    let render = format!("{}\n=== same program, plain layout ===\n{}", text, plain.laid.text);
    let a = tree_of(&plain.laid.text, "the plain layout", &render)?;
    let b = tree_of(text, "the rewritten layout", &render)?;
    if let Some(d) = diff(&a, &b, false) {
        return fail("tree", format!("trees of two layouts differ: {}", d), render);
    }
    if p.laid.dropped > 0 {
        s.label("semicolons dropped");
    }
    if p.laid.comments > 0 {
        s.label("comments");
    }
    if o.parens > 0 {
        s.label("redundant parentheses");
    }
    ok(text.clone(), p.toks.len() > 6 && (p.laid.dropped + p.laid.comments + p.laid.newlines > 0 || o.parens > 0))
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "a random program printed twice, once plainly and once with random white space, line breaks, comments, redundant parentheses and dropped semicolons; both trees must be equal. Non-trivial: more than 6 tokens and at least one such change.",
        assumptions: &[],
        subs: vec![Sub { name: "layout", quick: 600_000, thorough: 2_000_000, f: c05_layout }],
        probes: vec![],
    }
}

// ---- C08

fn c08_locs(s: &mut Src) -> PropResult {
    let t = program(s);
    let o = Opts::gen(s);
    let p = print::print(&t, s, o);
    let text = &p.laid.text;
    let m = must_parse(text, "program", text)?;
    let got = fromratel::module(&m);
    if diff(&p.tree, &got, false).is_some() {
        // C04/C05 decide that
        return Ok(Case { render: text.clone(), nontrivial: false, skipped: Some("tree differs (see C04/C05)") });
    }
    let cx = Locs { text, spans: &p.laid.spans };
    cx.check(&p.tree, &got).or_else(|d| fail("location", d, text.clone()))?;
    ok(text.clone(), nontrivial(&t))
}

/// Comparison of locations. The repository's own tests fix a few locations that are not those of
/// the node's own text; these exact deviations are tolerated as long as they are recorded.
struct Locs<'a> {
    text: &'a str,
    spans: &'a [(u32, u32)],
}

impl<'a> Locs<'a> {
    /// the token following an offset, as the parser sees it
    fn next(&self, pos: u32) -> (u32, u32) {
        let i = self.spans.partition_point(|s| s.0 < pos);
        match self.spans[i.min(self.spans.len())..].iter().find(|s| s.0 >= pos && s.0 < s.1) {
            // a brace inside a template is a token of its own
            Some(s) if self.text.as_bytes()[s.0 as usize] == b'}' => (s.0, s.0 + 1),
            // an accessor is one token with its name
            Some(s) if &self.text[s.0 as usize..s.1 as usize] == "." => (s.0, self.next(s.1).1),
            Some(s) => *s,
            None => (self.text.len() as u32, self.text.len() as u32),
        }
    }

    fn check(&self, e: &Tree, g: &Tree) -> Result<(), String> {
        use K::*;
        for (a, b) in e.kids.iter().zip(&g.kids) {
            if e.k == Member && a.k == Name {
                if b.loc == self.next(a.loc.1) && known::listed("C08", "member-name") {
                    continue;
                }
            }
            if e.k == Meta && a.s == "target" && known::listed("C08", "meta-property-name") {
                let i = self.spans.partition_point(|s| s.0 < a.loc.0);
                if b.loc == (self.spans[i - 1].0, a.loc.1) {
                    continue;
                }
            }
            self.check(a, b)?;
        }
        if !e.k.has_loc() || e.loc == g.loc {
            return Ok(());
        }
        let after = (e.loc.0, self.next(e.loc.1).1) == g.loc;
        let fine = match e.k {
            Seq => after && known::listed("C08", "sequence-end"),
            New => after && known::listed("C08", "new-end"),
            ImpSpec | ImpDefault | ImpNs => after && known::listed("C08", "import-specifier-end"),
            Arrow => {
                let params = &e.kids[0].kids;
                !params.is_empty() && g.loc == (params[0].loc.0, e.loc.1) && known::listed("C08", "arrow-start")
            }
            // consequences of the above
            ExprStmt => {
                let (x, y) = (&e.kids[0], &g.kids[0]);
                (g.loc.0 == e.loc.0 || x.k == Arrow && g.loc.0 == y.loc.0)
                    && (g.loc.1 == e.loc.1 || (x.k == Seq || x.k == New) && g.loc.1 == y.loc.1.max(e.loc.1))
            }
            If | While | For | ForIn | ForOf | Labeled | Case => {
                let i = e.kids.iter().rposition(|k| k.k != Nil).unwrap();
                e.kids[i].loc.1 == e.loc.1 && g.loc == (e.loc.0, g.kids[i].loc.1)
            }
            _ => false,
        };
        if fine {
            return Ok(());
        }
        Err(format!("the location of {} is {}..{}, expected {}..{}", short(e.show()), g.loc.0, g.loc.1, e.loc.0, e.loc.1))
    }
}

fn first_loc(text: &str, k: K) -> (u32, u32) {
    fn find(t: &Tree, k: K) -> Option<(u32, u32)> {
        if t.k == k { Some(t.loc) } else { t.kids.iter().find_map(|x| find(x, k)) }
    }
    ratel::parse(text).ok().and_then(|m| find(&fromratel::module(&m), k)).unwrap_or((0, 0))
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "a random program laid out at random; every node's location is compared with the token positions the printer recorded. Non-trivial: at least 8 nodes and depth 4.",
        assumptions: &[],
        subs: vec![Sub { name: "locations", quick: 600_000, thorough: 2_000_000, f: c08_locs }],
        probes: vec![
            ("sequence-end", || first_loc("a, b;", K::Seq) == (0, 5)),
            ("new-end", || first_loc("new A();", K::New) == (0, 8)),
            ("member-name", || first_loc("a.b;", K::Name) == (3, 4)),
            ("meta-property-name", || {
                ratel::parse("function a(){ new.target }").ok().is_some_and(|m| format!("{:?}", fromratel::module(&m)).contains("(17, 24)"))
            }),
            ("arrow-start", || first_loc("(a) => a;", K::Arrow) == (1, 8)),
            ("import-specifier-end", || first_loc("import a from 'a';", K::ImpDefault) == (7, 13)),
        ],
    }
}
