//! C20: what can be done with a program takes time and memory in proportion to it.
use super::common::*;
use super::text::short;
use crate::crash;
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::print::{self, Opts};
use crate::{Prop, Sub};
use ratel::Module;
use ratel_codegen::codegen;
use ratel_visitor::{Visitable, Visitor};

const OPS: [&str; 9] =
    ["parsing", "minifying", "pretty printing", "serialising", "serialising prettily", "walking", "analysing", "transforming", "minifying the transformed program"];

struct Count(usize);
impl<'ast> Visitor<'ast> for Count {
    fn on_statement_list(&mut self, _: ratel::ast::StatementList<'ast>) {
        self.0 += 1;
    }
    fn on_reference_use(&mut self, _: &ratel::ast::Identifier<'ast>) {
        self.0 += 1;
    }
}

#[derive(Clone, Copy, Default)]
struct Cost {
    secs: f64,
    /// allocated on the heap, all in all
    bytes: u64,
    out: usize,
}

/// What each operation costs, on a program parsed for this.
fn costs(text: &str) -> Option<[Cost; 9]> {
    let mut all = [Cost::default(); 9];
    fn take<T>(c: &mut Cost, f: impl FnOnce() -> T) -> T {
        let t = crash::cpu();
        let (r, bytes) = crash::allocated(f);
        c.secs = crash::cpu() - t;
        c.bytes = bytes;
        r
    }
    let m = take(&mut all[0], || parse(text)).ok()?;
    all[1].out = take(&mut all[1], || codegen(&m, true)).len();
    all[2].out = take(&mut all[2], || codegen(&m, false)).len();
    all[3].out = take(&mut all[3], || serde_json::to_string(&m).unwrap()).len();
    all[4].out = take(&mut all[4], || serde_json::to_string_pretty(&m).unwrap()).len();
    let m2: Module = m;
    inner(&m2, &mut all, &mut |c, f| take(c, f));
    Some(all)
}

type Taker<'t> = &'t mut dyn FnMut(&mut Cost, &mut dyn FnMut() -> usize) -> usize;
fn inner<'a>(m: &'a Module<'a>, all: &mut [Cost; 9], take: Taker) {
    take(&mut all[5], &mut || {
        let mut c = Count(0);
        m.visit_with(&mut c);
        std::hint::black_box(c.0)
    });
    take(&mut all[6], &mut || {
        std::hint::black_box(ratel_transformer::scope::analyze(m).children.as_list().iter().count())
    });
    take(&mut all[7], &mut || {
        ratel_transformer::transform(m);
        0
    });
    all[8].out = take(&mut all[8], &mut || codegen(m, true).len());
}

/// Twice as deep, or four times as long: an operation may cost so many times as much.
fn compare(small: &str, big: &str, growth: f64, deeper: bool, what: &str) -> Result<bool, Failure> {
    let (Some(mut a), Some(mut b)) = (costs(small), costs(big)) else { return Ok(false) };
    for i in 0..OPS.len() {
        // indentation
        let times = if deeper && (i == 2 || i == 4) { growth * growth } else { growth };
        if b[i].bytes as f64 > 2.5 * times * a[i].bytes as f64 + 1_000_000.0 {
            return fail("memory", format!("{}: {} takes {} bytes of memory, and {} for {}", what, OPS[i], a[i].bytes, b[i].bytes, big.len()), short(big));
        }
        if b[i].bytes > 2_000 * (big.len() + b[i].out) as u64 + 300_000 {
            return fail("memory", format!("{} takes {} bytes of memory for a text of {} and an output of {}", OPS[i], b[i].bytes, big.len(), b[i].out), short(big));
        }
        // a processor that is busy with something else is no reason to complain
        for _ in 0..4 {
            let slow = b[i].secs > 0.25 && b[i].secs > 2.2 * times * a[i].secs;
            if !slow {
                break;
            }
            if let (Some(c), Some(d)) = (costs(small), costs(big)) {
                for j in 0..OPS.len() {
                    a[j].secs = a[j].secs.max(c[j].secs);
                    b[j].secs = b[j].secs.min(d[j].secs);
                }
            }
        }
        if b[i].secs > 0.25 && b[i].secs > 2.2 * times * a[i].secs {
            return fail(
                "time",
                format!("{}: {} takes {:.3} s for {} bytes and {:.3} s for {} bytes", what, OPS[i], a[i].secs, small.len(), b[i].secs, big.len()),
                short(big),
            );
        }
    }
    Ok(true)
}

/// A statement or more on lines of their own, which leave nothing open
fn piece(s: &mut Src, i: usize) -> String {
    match s.weighted(&[3, 2]) {
        0 => {
            let cfg = Cfg { fuel: 6, stretch: false, ..Cfg::standard(s) };
            let t = gen::program(s, cfg);
            let o = Opts { room: false, ..Opts::gen(s) };
            format!("{}\n;\n", print::print(&t, s, o).laid.text)
        }
        _ => s
            .pick(&[
                "v#=w#(x#.y#);", "var a#=b#;", "function f#(a#){return b#;}", "class A#{m#(){}}", "a#=>b#;", "{let c#;}", "for(d# of e#);", "/* # */", "'#';", "({a#,b#:1});",
                "import a# from 'b#';", "var {a#}=b#;", "l#:a#;", "if(a#){}", "try{}catch(e#){}", "`a#${b#}`;", "this.a#;", "(a#,b#=c#)=>{};", "/a#/;", "#;",
            ])
            .replace('#', &i.to_string()),
    }
}

/// what parsing costs, whether there are errors or not, and how many errors there are
fn parsing(text: &str) -> (Cost, usize) {
    let mut c = Cost::default();
    let t = crash::cpu();
    let (r, bytes) = crash::allocated(|| parse(text));
    c.secs = crash::cpu() - t;
    c.bytes = bytes;
    (c, r.err().map_or(0, |e| e.len()))
}

/// a text with many errors, and one with four times as many
fn c20_errors(s: &mut Src) -> PropResult {
    let unit = *s.pick(&[
        "@\n", "@", "[ ]] ;\n", "a b\n", "var ;\n", ")\n", "1 = 2;\n", "'a\n", "f(,);\n", "({a b});\n", "class {};\n", "# ", "if ) a;\n", "for (;) b;\n", "a.1;\n", "return }\n", "\\ ", "/a\n", "0x;\n",
        "a => ;\n", "new ;\n", "{ } }\n", "try {}\n", "a ? b;\n", "import a;\n", "`${`\n", "x = {,};\n", "-- 1;\n", "catch\n", "in ", "else ", "case a: ", "=> ", "] ", ", ",
    ]);
    let valid = s.pick(&["", "", "a;\n", "b = c + 1;\n", "{ d }\n"]).repeat(s.below(4));
    let size = s.range(60_000, 120_000);
    let n = size / (unit.len() + valid.len());
    let make = |n: usize| format!("{}{}", valid, unit).repeat(n);
    let (small, big) = (make(n), make(4 * n));
    set_current(&short(&big));
    let (mut a, k) = parsing(&small);
    let (mut b, l) = parsing(&big);
    if b.bytes as f64 > 2.5 * 4.0 * a.bytes as f64 + 1_000_000.0 {
        return fail("memory", format!("parsing takes {} bytes of memory for {} bytes with {} errors, and {} for {} with {}", a.bytes, small.len(), k, b.bytes, big.len(), l), short(&big));
    }
    for _ in 0..4 {
        if b.secs > 0.25 && b.secs > 2.2 * 4.0 * a.secs {
            a.secs = a.secs.max(parsing(&small).0.secs);
            b.secs = b.secs.min(parsing(&big).0.secs);
        }
    }
    if b.secs > 0.25 && b.secs > 2.2 * 4.0 * a.secs {
        return fail("time", format!("parsing takes {:.3} s for {} bytes with {} errors and {:.3} s for {} bytes with {}", a.secs, small.len(), k, b.secs, big.len(), l), short(&big));
    }
    if l > 1000 {
        s.label("more than a thousand errors");
    }
    ok(short(&big), l > 10)
}

/// things of which there are many in one node
pub(super) const WIDE: &[(&str, &str, &str)] = &[
    ("[", "a#,", "]"), ("f(", "a#,", "b)"), ("({", "a#:b,", "})"), ("({", "a#,", "b})"), ("var a", ",a#", ""), ("var a", ",a#=b", ""), ("a=", "b#+", "c"), ("a", ".b#", ""), ("a", "[b#]", ""),
    ("a", "(b#)", ""), ("a", ",b#", ""), ("switch(a){", "case a#:b;", "}"), ("switch(a){", "case a#:{let c;}", "}"), ("class A{", "m#(){}", "}"), ("class A{", "p#=1;", "}"),
    ("function f(", "a#,", "b){}"), ("function f(", "a#=1,", "b){}"), ("(", "a#,", "b)=>a"), ("`", "a${b#}", "`"), ("[", ",", "]"), ("a={", "b#(){},", "}"), ("var [", "a#,", "b]=c"),
    ("var {", "a#,", "b}=c"), ("import {", "a#,", "b} from 'c'"), ("import {", "a# as b#,", "b} from 'c'"), ("{", "a#;", "}"), ("function f(){", "var a#;", "}"), ("a=()=>{", "b#();", "}"),
    ("[", "()=>a#,", "]"), ("f(", "function(){a#},", "b)"), ("if(a)", "b#;else if(a)", "c"), ("", "'a#';", ""), ("", "{a#}", ""), ("'", "a\\n", "'"), ("`", "a\\n\n", "`"), ("/", "[a]\\b", "/"),
    ("a", "b", ""), ("1", "2", ""), ("/*", " * ", "*/"), ("a?", "b#:c?", "d:e"), ("a=", "b#=", "c"), ("a=", "b#||", "c"), ("a=", "b#**", "c"), ("a", "+(b#-c)", ""),
];

fn c20_long(s: &mut Src) -> PropResult {
    let mut small = String::new();
    let mut big = String::new();
    let mut deep = false;
    let size = s.range(10_000, 60_000);
    if s.chance(1, 3) {
        let mut i = 0;
        while big.len() < 4 * size {
            if small.is_empty() && big.len() >= size {
                small = big.clone();
            }
            big.push_str(&piece(s, i));
            i += 1;
        }
        s.label("many statements");
    } else {
        let (open, unit, close) = *s.pick(WIDE);
        // chains are as deep as they are long
        deep = matches!(open, "a=" | "a" | "a?" | "if(a)") && unit.len() > 1;
        let n = if deep { 300 } else { 3 * size / (unit.len() + 3) };
        let make = |n: usize| {
            let mut t = open.to_string();
            for i in 0..n {
                t.push_str(&unit.replace('#', &i.to_string()));
            }
            t.push_str(close);
            t
        };
        small = make(n);
        big = make(4 * n);
        s.label(if deep { "a long chain" } else { "a wide node" });
    }
    let good = if deep { compare(&small, &big, 4.0, true, "four times as long")? } else { run_small(|| compare(&small, &big, 4.0, false, "four times as long"))? };
    ok(short(&big), good)
}

/// nests that keep a program a program: whatever expression, and statement, is inside
const EXPR: &[(&str, &str)] = &[
    ("(", ")"), ("[", "]"), ("({a:", "})"), ("f(", ")"), ("a[", "]"), ("-(", ")"), ("!", ""), ("typeof ", ""), ("a?", ":b"), ("a?b:", ""), ("a=", ""), ("a+(", ")"), ("(", ")+a"), ("(", ")*a"),
    ("a**(", ")"), ("(", ")**a"), ("a=>", ""), ("(a,b)=>", ""), ("(a=", ")=>b"), ("(()=>{", "})"), ("(function(){return ", "})"), ("new (", ")"), ("(", ")(a)"), ("(", ").a"), ("(", ")[a]"),
    ("`${", "}`"), ("f`${", "}`"), ("[a,...", "]"), ("f(...", ")"), ("({a(){return ", "}})"), ("(class extends (", "){})"), ("(class{a=", "})"), ("(class{[", "](){}})"), ("[{a:", "}.b]"),
    ("(a,", ")"), ("(function(a=", "){})"), ("({[", "]:a})"), ("(", ",a)"), ("(", ")?a:b"), ("(()=>", ")()"), ("({a:()=>", "})"), ("(", ")in a"), ("void (", ")"),
];
const STMT: &[(&str, &str)] = &[
    ("{", "}"), ("if(a)", ""), ("if(a){", "}"), ("if(a);else ", ""), ("if(a)", ";else b"), ("for(;;)", ""), ("for(a of b)", ""), ("for(var a in b){", "}"), ("while(a)", ""), ("do ", " while(a);"),
    ("do{", "}while(a)"), ("try{", "}finally{}"), ("try{}catch(e){", "}"), ("switch(a){case b:", "}"), ("switch(a){default:{", "}}"), ("a:", ""), ("{function f(){", "}}"), ("{class A{f(){", "}}}"),
    ("a=>{", "}"), ("a=function(){", "};"), ("[()=>{", "}];"),
];

fn c20_deep(s: &mut Src) -> PropResult {
    let ks: Vec<_> = (0..1 + s.below(3)).map(|_| *s.pick(EXPR)).collect();
    let ss: Vec<_> = (0..s.below(3)).map(|_| *s.pick(STMT)).collect();
    let within = s.pick(&["a", "1", "'a'", "(a,b)", "a+b", "(a=>b)", "{}.a", "(function(){})", "a?b:c", "[]", "/a/", "a=b", "`a`", "this", "new a", "(class{})"]).to_string();
    let share = if ss.is_empty() { 0 } else { s.below(5) };
    let make = |d: usize| {
        let mut open = String::new();
        let mut close = Vec::new();
        for i in 0..d * share / 4 {
            let (o, c) = ss[i % ss.len()];
            open.push_str(o);
            close.push(c);
        }
        open.push_str("x=");
        for i in 0..d - d * share / 4 {
            let (o, c) = ks[i % ks.len()];
            open.push_str(o);
            close.push(c);
        }
        open.push_str(&within);
        for c in close.iter().rev() {
            open.push_str(c);
        }
        open
    };
    let mut good = true;
    let most = [16, 64, 256][s.weighted(&[2, 3, 2])];
    let mut d = 4;
    let mut small = make(d);
    // step by step, so that what doubles with every level is noticed before it takes for ever
    while d < most {
        d *= 2;
        let big = make(d);
        set_current(&big);
        good &= compare(&small, &big, if d <= 16 { 4.0 } else { 2.0 }, true, "twice as deep")?;
        small = big;
    }
    if good {
        s.label("a program");
    }
    ok(short(&small), good)
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "a long program (many statements with names of their own, or one node with many parts) and one four times as long; a program nested some levels deep and twice as deep; what parsing, both printers, both serialisations, a walk, the scope analysis and the transform cost in processor time and allocated memory; and what parsing a text with many errors costs, and one with four times as many. Non-trivial: both are programs (sub errors: there are more than ten errors)",
        assumptions: &["times below a quarter of a second and memory below a megabyte are not compared; four measurements decide; pretty outputs grow with the square of the depth"],
        subs: vec![Sub { name: "long", quick: 300, thorough: 6_000, f: c20_long }, Sub { name: "deep", quick: 4_000, thorough: 100_000, f: c20_deep }, Sub { name: "errors", quick: 300, thorough: 6_000, f: c20_errors }],
        probes: vec![],
    }
}
