//! C06: texts that are no programs are rejected.
use super::common::*;
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::fromratel;
use crate::known;
use crate::node;
use crate::print::{self, Opts};
use crate::tree::{Tree, K};
use crate::{Prop, Sub};
use ratel_codegen::codegen;

/// Tokens to insert.
const TOKENS: &[&str] = &[
    "(", ")", "[", "]", "{", "}", ";", ",", ":", "?", ".", "...", "=>", "=", "+", "-", "*", "/", "%", "**", "++", "--", "!", "~", "<", ">=", "==", "&&",
    "+=", "a", "b", "1", "\"s\"", "`t`", "/r/", "in", "of", "instanceof", "typeof", "void", "delete", "new", "this", "null", "true", "function", "class",
    "extends", "static", "get", "set", "constructor", "var", "let", "const", "if", "else", "for", "while", "do", "break", "continue", "return", "throw", "try", "catch",
    "finally", "switch", "case", "default", "import", "from", "as", "debugger", "\n", "*", "super", "with", "export", "enum",
];

/// Words with a token of their own.
pub(super) const ALL_WORDS: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false", "finally", "for", "function", "if", "implements", "import",
    "in", "instanceof", "interface", "let", "new", "null", "package", "private", "protected", "public", "return", "static", "super", "switch", "this", "throw", "true", "try", "typeof", "undefined", "var",
    "void", "while", "with", "yield", "of", "get", "set", "async", "await", "from", "as", "constructor", "target", "a",
];

/// Places for tokens: every table of the parser, and every function that looks at the next token, has its own.
const PLACES: &[&str] = &[
    "#", "#;", "a;#;b", "{#}", "{a;#}", "{#;a}", "(#)", "(a,#)", "(#,a)", "[#]", "[a,#]", "[#,a]", "[,#]", "[[#]]", "f(#)", "f(a,#)", "f(#,a)", "a[#]", "a[#,b]", "a.#", "a.#.b", "a=#", "a+#", "a+#+b",
    "#+a", "#.a", "#=a", "#(a)", "a,#", "#,a", "!#", "typeof #", "-#", "++#", "#++", "new #", "new #()", "new a(#)", "new.#", "a?#:b", "a?b:#", "#?a:b", "...#", "[...#]", "f(...#)", "({...#})", "({#})",
    "({a,#})", "({#,a})", "({#:a})", "({a:#})", "({[#]:a})", "({#(){}})", "({#a(){}})", "({a(#){}})", "({a(){#}})", "`${#}`", "`${a}${#}`", "a`${#}`", "#=>a", "(#)=>a", "(a,#)=>b", "(a=#)=>b", "({#})=>a",
    "([#])=>a", "a=>#", "a=>{#}", "()#a", "async #", "var #", "var #=a", "var a=#", "var a,#", "var #,a", "var a#b", "let #", "let a=#", "const #=a", "var {#}=a", "var {a:#}=b", "var {#:a}=b", "var {a=#}=b",
    "var {[#]:a}=b", "var [#]=a", "var [a,#]=b", "var [#,a]=b", "var [a=#]=b", "var [...#]=a", "var {...#}=a", "function #(){}", "function a(#){}", "function a(b,#){}", "function a(b=#){}", "function a(...#){}",
    "function a(){#}", "function #a(){}", "function a#(){}", "a=function(#){}", "a=function #(){}", "class #{}", "class # extends a{}", "class a extends #{}", "class a{#}", "class a{#(){}}", "class a{#b(){}}",
    "class a{b(#){}}", "class a{b(){#}}", "class a{#=b}", "class a{b=#}", "class a{static #}", "class a{static #(){}}", "class a{static #=b}", "class a{[#](){}}", "class a{get #(){}}", "class a{set #(b){}}",
    "class a{b(){}#}", "a=class #{}", "a=class{#}", "if(#)a", "if(a)#", "if(a)b;else #", "if(a){}#{}", "if#(a)b", "while(#)a", "while(a)#", "do #while(a)", "do a;#(b)", "do a;while(#)", "for(#)a", "for(#;;)a",
    "for(a;#;)b", "for(a;b;#)c", "for(#a of b)c", "for(a #b)c", "for(a of #)b", "for(a in #)b", "for(var #of a)b", "for(var a #b)c", "for(var #in a)b", "for(let #of a)b", "for(let a=#;;)b", "for(;;)#", "for# (;;)a", "for(var a#b of c)d",
    "a:#", "#:a", "return #", "function a(){return #}", "throw #", "break #", "a:for(;;)break #", "continue #", "try{#}catch(a){}", "try{}#{}", "try{}catch(#){}", "try{}catch(a){#}", "try{}finally{#}",
    "try{}catch(a){}#{}", "try #{}", "switch(#){}", "switch(a){#}", "switch(a){case #:}", "switch(a){case b:#}", "switch(a){#:b}", "switch(a){default:#}", "switch(a){# b:c}", "import #", "import #from 'a'",
    "import a,#from 'b'", "import {#}from 'a'", "import {a as #}from 'b'", "import {# as a}from 'b'", "import {a,#}from 'b'", "import * #a from 'b'", "import * as #from 'a'", "import a from #", "import a # 'b'",
    "export #", "export default #", "a #b", "a\n#b", "a#\nb", "a\n#\nb", "var a\n#b", "var a=b\n#c", "return\n#", "debugger #", "'a'#", "/a/#", "1#", "`a`#", "this#", "(a)#", "[a]#", "{}#", "function a(){}#", "class a{}#",
    "a=>{}#", "a=>b#", "a++#", "a.b#", "a()#",
];
/// What goes on after the first token.
const TAILS: &[&str] = &[
    "", "", "", "a", "a(){}", "(){}", "()", "{}", "a{}", "(a)", ":a", "=a", ".a", ",a", ";", "*a(){}", "* a", "=>a", "a=>b", "[a]", "'a'", "a b", "a,b", "of a", "in a", "a of b", "(){}.a", "a()", "from 'a'", "as a", "{a}", "{a:b}", "{a}=b", "[a]=b", "a:b", "...a",
    "()=>a", "(a)=>{}", "`a`", "/a/", "1", "+a", "-a", "++", "a++", "a=b", "{a(){}}", "a extends b{}", "extends a{}", "get a(){}", "static a(){}", "(a){}", "(a)b", "a;", "a?b:c",
];

/// a token or two where they may not be
pub(super) fn place_text(s: &mut Src) -> String {
    let place = *s.pick(PLACES);
    let mut what = String::new();
    for i in 0..1 + s.weighted(&[5, 2]) {
        let x: &str = if s.chance(1, 2) { s.pick(ALL_WORDS) } else { s.pick(TOKENS) };
        if i > 0 {
            what.push(' ');
        }
        what.push_str(x);
        let tail = *s.pick(TAILS);
        if separator(&what, tail) || s.chance(1, 8) {
            what.push(' ');
        }
        what.push_str(tail);
    }
    let (before, after) = place.split_once('#').unwrap();
    let mut text = before.to_string();
    if separator(&text, &what) {
        text.push(' ');
    }
    text.push_str(&what);
    if separator(&text, after) {
        text.push(' ');
    }
    text.push_str(after);
    text
}
fn c06_places(s: &mut Src) -> PropResult {
    let text = place_text(s);
    decide(s, text)
}

fn edit(s: &mut Src, toks: &mut Vec<String>) {
    let n = toks.len();
    let at = if n == 0 { 0 } else { s.below(n) };
    match s.weighted(&[6, 5, 4, 2, 2, 2, 1, 3]) {
        7 => {
            // a word for another
            let words: Vec<usize> = (0..n).filter(|&i| TOKENS.contains(&toks[i].as_str()) && toks[i].starts_with(|c: char| c.is_ascii_lowercase())).collect();
            if !words.is_empty() {
                toks[*s.pick(&words)] = s.pick(ALL_WORDS).to_string();
            }
        }
        0 => {
            if n > 0 {
                toks.remove(at);
            }
        }
        1 => toks.insert(at, s.pick(TOKENS).to_string()),
        2 => {
            if n > 0 {
                toks[at] = s.pick(TOKENS).to_string();
            }
        }
        3 => {
            if n > 1 {
                let j = s.below(n);
                toks.swap(at, j);
            }
        }
        4 => {
            if n > 0 {
                let x = toks[s.below(n)].clone();
                toks.insert(at, x);
            }
        }
        5 => {
            // a part of the program twice
            let end = (at + s.range(2, 6)).min(n);
            let part = toks[at.min(end)..end].to_vec();
            let to = if s.chance(1, 2) { end } else { s.below(n + 1) };
            toks.splice(to..to, part);
        }
        _ => toks.truncate(at),
    }
}

fn separator(a: &str, b: &str) -> bool {
    let w = |c: char| c.is_alphanumeric() || c == '_' || c == '$' || c == '\\' || !c.is_ascii();
    a.chars().last().is_some_and(w) && b.chars().next().is_some_and(w)
}

/// The text of a program with a few tokens changed.
pub(super) fn edit_text(s: &mut Src) -> String {
    let cfg = Cfg { fuel: [4, 8, 16, 30][s.weighted(&[3, 4, 3, 1])], ..Cfg::standard(s) };
    let t = gen::program(s, cfg);
    let o = Opts { exotic: false, ..Opts::gen(s) };
    let p = print::print(&t, s, o);
    let mut toks: Vec<String> = p.toks.iter().map(|t| t.text.clone()).collect();
    let n = 1 + s.weighted(&[6, 2, 1]);
    for _ in 0..n {
        edit(s, &mut toks);
    }
    let (lines, dense) = (s.chance(1, 3), s.chance(1, 4));
    let mut text = String::new();
    for x in &toks {
        if !text.is_empty() && x != "\n" {
            if lines && s.chance(1, 4) {
                text.push('\n');
            } else if !dense || separator(&text, x) {
                text.push(' ');
            }
        }
        text.push_str(x);
    }
    text
}

fn c06_edits(s: &mut Src) -> PropResult {
    let text = edit_text(s);
    decide(s, text)
}

/// Characters of the language.
const CHARS: &[char] = &[
    '(', ')', '[', ']', '{', '}', ';', ',', ':', '?', '.', '=', '>', '<', '+', '-', '*', '/', '%', '!', '~', '&', '|', '^', '\'', '"', '`', '$', '\\', ' ', '\n',
    'a', 'e', 'x', 'b', 'o', 'u', '0', '1', '8', '9', '_', '@', '#',
];

fn c06_chars(s: &mut Src) -> PropResult {
    let cfg = Cfg { fuel: [3, 6, 12][s.weighted(&[4, 4, 1])], ..Cfg::standard(s) };
    let t = gen::program(s, cfg);
    let o = Opts::gen(s);
    let mut text: Vec<char> = print::print(&t, s, o).laid.text.chars().collect();
    for _ in 0..1 + s.weighted(&[8, 2, 1]) {
        let at = if text.is_empty() { 0 } else { s.below(text.len()) };
        match s.weighted(&[3, 4, 3, 1]) {
            0 if !text.is_empty() => {
                text.remove(at);
            }
            2 if !text.is_empty() => text[at] = *s.pick(CHARS),
            3 => text.truncate(at),
            _ => text.insert(at, *s.pick(CHARS)),
        }
    }
    decide(s, text.into_iter().collect())
}


enum Verdict {
    /// a program after all
    Program,
    /// every token and production is fine, what is wrong is where or in which mode it is used
    Early,
    /// the recorded leniencies that account for the text
    Known(&'static str),
    Broken(String),
}

/// What the other parser says of a text that is no program, in its own words: the parser does
/// not look at the context, and does not read what is in names, numbers, strings and expressions.
fn early(m: &str, text: &str) -> bool {
    const STARTS: &[&str] = &[
        // context
        "Unsyntactic ",
        "'import' and 'export' may only appear at the top level",
        "'new.target' can only be used",
        "Label '",
        "Cannot use 'arguments' in class field",
        "'return' outside of function",
        // names
        "Identifier '",
        "Argument name clash",
        "Duplicate constructor",
        "Constructor can't",
        "Classes can",
        "Redefinition of __proto__",
        // strict mode
        "Deleting local variable",
        "Binding eval",
        "Binding arguments",
        "Assigning to eval",
        "Assigning to arguments",
        "Octal literal",
        "Octal escape",
        "Invalid number",
        // inside tokens
        "Expecting Unicode escape",
        "Bad character escape",
        "Bad escape sequence",
        "Code point out of bounds",
        "Invalid Unicode escape",
        "Invalid regular expression",
        "Duplicate regular expression flag",
        "Invalid escape sequence",
        "Identifier directly after number",
        "Escape sequence in keyword",
    ];
    if STARTS.iter().any(|p| m.starts_with(p)) {
        return true;
    }
    if m.starts_with("The keyword '") {
        return ["implements", "interface", "let", "package", "private", "protected", "public", "static", "yield", "await"].iter().any(|w| m.starts_with(&format!("The keyword '{}'", w)));
    }
    m.starts_with("Unexpected character '") && !m["Unexpected character '".len()..].starts_with(|c: char| c.is_ascii())
        || legacy_number(text)
        || m.starts_with("Unterminated regular expression") && text.contains(['\u{2028}', '\u{2029}'])
}

/// Numbers like 017 or 08, which have rules of their own: nothing can follow them
fn legacy_number(text: &str) -> bool {
    let b = text.as_bytes();
    (0..b.len().saturating_sub(1)).any(|i| b[i] == b'0' && b[i + 1].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'.') || b[..i].ends_with(b"...")))
}

fn any(t: &Tree, f: &dyn Fn(&Tree) -> bool) -> bool {
    f(t) || t.kids.iter().any(|k| any(k, f))
}

/// `const` without a value, other than in the head of a for-in or for-of statement
fn bare_const(t: &Tree) -> bool {
    let each = matches!(t.k, K::ForIn | K::ForOf);
    t.kids.iter().enumerate().any(|(i, k)| {
        let here = !(each && i == 0) && k.k == K::Decl && k.s == "const" && k.kids.iter().any(|d| d.kids[1].k == K::Nil);
        here || bare_const(k)
    })
}

/// What follows white space and comments
fn gap(mut text: &str) -> &str {
    loop {
        text = text.trim_start();
        text = if let Some(rest) = text.strip_prefix("/*") {
            rest.split_once("*/").map_or("", |x| x.1)
        } else if let Some(rest) = text.strip_prefix("//") {
            rest.split_once('\n').map_or("", |x| x.1)
        } else {
            return text;
        }
    }
}

fn words(text: &str, f: impl Fn(&str, &str) -> Option<&'static str>) -> String {
    let mut out = String::new();
    let mut rest = text;
    while !rest.is_empty() {
        let n = rest.find(|c: char| !c.is_ascii_lowercase()).unwrap_or(rest.len());
        let (w, after) = rest.split_at(n);
        out.push_str(f(w, after).unwrap_or(w));
        let n = after.find(|c: char| c.is_ascii_lowercase()).unwrap_or(after.len());
        out.push_str(&after[..n]);
        rest = &after[n..];
    }
    out
}

/// The character at the place acorn's messages end with: (line:column in UTF-16)
fn at(m: &str, text: &str) -> Option<char> {
    let (line, col) = m.rsplit_once('(')?.1.trim_end_matches(')').split_once(':')?;
    let (line, mut col) = (line.parse::<usize>().ok()?, col.parse::<usize>().ok()?);
    let text = text.replace("\r\n", "\n").replace(['\r', '\u{2028}', '\u{2029}'], "\n");
    for c in text.split('\n').nth(line - 1)?.chars() {
        if col == 0 {
            return Some(c);
        }
        col = col.checked_sub(c.len_utf16())?;
    }
    None
}

fn ask(text: &str) -> Option<Verdict> {
    let a = node::ask(&serde_json::json!({"op": "accepts", "text": text}))?;
    if a.get("ok").is_some() {
        return Some(Verdict::Program);
    }
    let msg = |k: &str| a.get(k).and_then(|x| x.str()).unwrap_or("").to_string();
    let mut m = msg("script");
    if m.starts_with("'import' and 'export' may appear only with") {
        m = msg("module");
    }
    // acorn's tokenizer takes some expressions for divisions
    Some(if early(&m, text) || msg("engine").starts_with("Invalid regular expression") { Verdict::Early } else { Verdict::Broken(m) })
}

/// Judge a text the parser accepts.
fn judge(text: &str, m: &ratel::Module) -> Option<Verdict> {
    let why = match ask(text)? {
        Verdict::Broken(m) => m,
        v => return Some(v),
    };
    let t = fromratel::module(m);
    // names with broken escapes, and a keyword of modules
    if any(&t, &|t| matches!(t.k, K::Ident | K::Name | K::PIdent | K::KeyLit | K::Shorthand | K::Labeled | K::Break | K::Continue) && (t.s == "await" || t.s.contains('\\'))) {
        return Some(Verdict::Early);
    }
    // a restriction that came with async functions, which the parser does not know
    if any(&t, &|t| t.k == K::ForOf && any(&t.kids[0], &|t| t.s == "async")) {
        return Some(Verdict::Early);
    }
    // functions that are the body of another statement, which strict mode does not know
    if any(&t, &|t| matches!(t.k, K::If | K::Labeled) && t.kids.iter().any(|k| k.k == K::FuncStmt)) {
        return Some(Verdict::Early);
    }
    let listed = |id| known::listed("C06", id);
    let fine = |text: &str| Some(!matches!(ask(text)?, Verdict::Broken(m) if !(m.starts_with("getter should have no params") && listed("getter-parameters"))));

    // leniencies the repository's tests fix
    if why.starts_with("getter should have no params") && listed("getter-parameters") {
        return Some(Verdict::Known("getter-parameters"));
    }
    if why.starts_with("The only valid meta property for import") && listed("import-expression") {
        return Some(Verdict::Known("import-expression"));
    }
    // each of these is what accounts for the text when the text without it is a program
    let reprint = codegen(m, true);
    let import = |text: &str| words(text, |w, after| (w == "import" && gap(after).starts_with(['(', '.'])).then_some("imp"));
    let konst = |text: &str| words(text, |w, _| (w == "const").then_some("let"));
    let has_import = any(&t, &|t| t.k == K::Ident && t.s == "import");
    let has_const = bare_const(&t);
    let parens = ["Parenthesized pattern", "Assigning to rvalue"].iter().any(|p| why.starts_with(p))
        || at(&why, text) == Some('(') && any(&t, &|t| t.k == K::PObject);
    let rest = why.starts_with("Comma is not permitted after the rest element");
    let has_in = any(&t, &|t| t.k == K::For && any(&t.kids[0], &|t| t.k == K::Bin && t.s == "in"));
    let mut text = text.to_string();
    if has_import && listed("import-expression") {
        text = import(&text);
        if fine(&text)? {
            return Some(Verdict::Known("import-expression"));
        }
    }
    if has_const && listed("const-without-value") {
        text = konst(&text);
        if fine(&text)? {
            return Some(Verdict::Known("const-without-value"));
        }
    }
    for (holds, id) in [(parens, "lost-parentheses"), (rest, "rest-then-comma"), (has_in, "for-init-in")] {
        if holds && listed(id) && fine(&konst(&import(&reprint)))? {
            return Some(Verdict::Known(id));
        }
    }
    Some(Verdict::Broken(why))
}

fn decide(s: &mut Src, text: String) -> PropResult {
    let m = match parse(&text) {
        Ok(m) => m,
        Err(_) => {
            s.label("rejected");
            return ok(text, true);
        }
    };
    let skip = |why| Ok(Case { render: text.clone(), nontrivial: false, skipped: Some(why) });
    match judge(&text, &m) {
        None => skip("the engine died"),
        Some(Verdict::Program) => skip("still a program"),
        Some(Verdict::Early) => skip("wrong in its context only"),
        Some(Verdict::Known(id)) => skip(id),
        Some(Verdict::Broken(why)) => fail("accepted", format!("a text that is no program is accepted; {}", why), &text),
    }
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "a random program, of which one to three tokens (sub edits) or characters (sub chars) were removed, inserted, replaced, swapped or repeated, or the end cut off; or one of 230 places of the grammar filled with one or two tokens and something that goes on from there (sub places): when neither acorn nor V8 accept the text as a script or a module, the parser has to reject it. Not held against the parser: what only the context makes wrong (break, labels, names declared twice, strict mode) and what is inside names, numbers, strings and regular expressions. Non-trivial: the parser rejected the text.",
        assumptions: &["acorn (ecmaVersion 2022) and V8 as the standards of JavaScript; texts only one of them rejects are skipped", "edits that leave a program are counted and skipped"],
        subs: vec![
            Sub { name: "edits", quick: 1_500_000, thorough: 20_000_000, f: c06_edits },
            Sub { name: "chars", quick: 500_000, thorough: 5_000_000, f: c06_chars },
            Sub { name: "places", quick: 6_000_000, thorough: 100_000_000, f: c06_places },
        ],
        probes: vec![
            ("const-without-value", || ratel::parse("const a;").is_ok()),
            ("getter-parameters", || ratel::parse("class a { get b(c) {} }").is_ok()),
            ("import-expression", || ratel::parse("import();").is_ok()),
            ("lost-parentheses", || ratel::parse("((a, b)) => c;").is_ok()),
            ("rest-then-comma", || ratel::parse("({ ...a, } = b);").is_ok()),
            ("for-init-in", || ratel::parse("for (var a = b in c; ; ) {}").is_ok()),
        ],
    }
}
