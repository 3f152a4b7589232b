//! Arbitrary texts: token soup, random characters, broken programs, repeated fragments.
use crate::engine::Src;
use crate::gen::{self, Cfg};
use crate::print::{self, Opts};

/// pieces of programs, whole tokens and parts of tokens
pub const PIECES: &[&str] = &[
    "a", "b", "x1", "$", "_", "é", "日本", "ünï", "𝒳", "\\u0061", "a\\", "\\",
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export",
    "extends", "false", "finally", "for", "function", "if", "implements", "import", "in", "instanceof", "interface", "let",
    "new", "null", "package", "private", "protected", "public", "return", "static", "super", "switch", "this", "throw",
    "true", "try", "typeof", "undefined", "var", "void", "while", "with", "yield", "of", "get", "set", "constructor", "from", "as",
    "async", "await", "target", "functio", "instanceo", "newx", "i", "ins", "dele",
    "{", "}", "(", ")", "[", "]", ".", "...", "..", ";", ",", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "+", "-", "*",
    "/", "%", "**", "++", "--", "<<", ">>", ">>>", "&", "|", "^", "!", "~", "&&", "||", "?", ":", "=", "+=", "-=", "*=", "/=",
    "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "=>", "#", "@",
    "0", "1", "12", "1.", ".5", "1.5", "1e5", "1e", "1e+", "1.e", "0x", "0xF", "0X1f", "0b", "0b1", "0B2", "0o", "0o7", "0O9", "08", "0.",
    "\"\"", "''", "\"a\"", "'b'", "\"", "'", "\"\\", "'\\n'", "\"\\\n\"", "'é'", "\"a\nb\"",
    "``", "`a`", "`", "`${", "${", "`a${b}c`", "}`", "`\\", "$", "`é${",
    "/a/", "/[/]/g", "/\\//", "/[", "/a", "/\\", "//", "/*", "*/", "/**/", "/* c */", "//c\n", "/*\n*/", "/***", "/*/", "<!--", "-->",
    " ", "\n", "\t", "\r\n", "\r", "\u{a0}", "\u{feff}", "\u{2028}", "\u{2029}", "\u{3000}", "\u{b}", "\u{c}", "\u{1}", "\0", "\u{7f}", "\u{80}", "\u{200d}", "€", "→", "\u{85}", "\u{180e}",
];

fn piece<'a>(s: &mut Src) -> &'a str {
    PIECES[s.below(PIECES.len())]
}

pub fn soup(s: &mut Src, max: usize) -> String {
    let n = s.below(max + 1);
    let sep = s.below(3);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(piece(s));
        if sep == 1 || (sep == 2 && s.chance(1, 2)) {
            t.push(' ');
        }
    }
    t
}

pub fn chars(s: &mut Src, max: usize) -> String {
    let n = s.below(max + 1);
    let mut t = String::new();
    for _ in 0..n {
        let c = match s.weighted(&[12, 3, 2, 1, 1]) {
            0 => char::from_u32(0x20 + s.below(0x5F) as u32),
            1 => char::from_u32(s.below(0x80) as u32),
            2 => char::from_u32(0x80 + s.below(0x780) as u32),
            3 => char::from_u32(0x800 + s.below(0xF800) as u32),
            _ => char::from_u32(0x10000 + s.below(0x100000) as u32),
        };
        t.push(c.unwrap_or('a'));
    }
    t
}

pub fn valid(s: &mut Src) -> String {
    valid_upto(s, usize::MAX)
}
pub fn valid_upto(s: &mut Src, fuel: usize) -> String {
    let mut cfg = Cfg::standard(s);
    cfg.fuel = cfg.fuel.min(fuel);
    let t = gen::program(s, cfg);
    let o = Opts::gen(s);
    print::print(&t, s, o).laid.text
}

fn boundary(t: &str, mut i: usize) -> usize {
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}
fn at(s: &mut Src, t: &str) -> usize {
    let i = s.below(t.len() + 1);
    boundary(t, i)
}

pub fn mutate(s: &mut Src, t: &mut String) {
    let n = 1 + s.weighted(&[6, 3, 2, 1, 1]);
    for _ in 0..n {
        let i = at(s, t);
        match s.below(6) {
            0 => {
                let len = 1 + s.below(8);
                let j = boundary(t, (i + len).min(t.len()));
                if i < j {
                    t.replace_range(i..j, "");
                }
            }
            1 => t.insert_str(i, piece(s)),
            2 => {
                let c = chars(s, 2);
                t.insert_str(i, &c)
            }
            3 => t.truncate(i),
            4 => {
                let j = at(s, t);
                let (a, b) = (i.min(j), i.max(j));
                let b = boundary(t, b.min(a + 60));
                let x = t[a..b].to_string();
                let k = at(s, t);
                t.insert_str(k, &x);
            }
            _ => {
                let len = 1 + s.below(3);
                let j = boundary(t, (i + len).min(t.len()));
                if i < j {
                    let p = piece(s);
                    t.replace_range(i..j, p);
                }
            }
        }
    }
}

/// any text
pub fn text(s: &mut Src) -> String {
    text_upto(s, usize::MAX)
}
pub fn text_upto(s: &mut Src, fuel: usize) -> String {
    match s.weighted(&[5, 2, 6, 2]) {
        0 => soup(s, 24),
        1 => chars(s, 40),
        2 => {
            let mut t = valid_upto(s, fuel);
            mutate(s, &mut t);
            t
        }
        _ => {
            let mut t = valid_upto(s, fuel);
            let i = at(s, &t);
            t.truncate(i);
            t
        }
    }
}

/// many times the same few pieces, without much nesting
pub fn long(s: &mut Src, bytes: usize) -> String {
    let mut unit = String::new();
    let n = 1 + s.below(4);
    for _ in 0..n {
        let p = match s.weighted(&[3, 4, 2]) {
            0 => piece(s),
            1 => *s.pick(&[
                "a;", "a,", "a\n", "a+", "var a=1;", "//\n", "/**/", "/* x */ ", "\n", " ", "a.b.", "a[0]", "a()", "if(a)b;", "{}", "[,", "'a',", "a:1,",
                "a=>", "function f(){}", "`a${1}`", "import a from 'a';", "for(;;)a;", "class A{}", "case a:", "else ", "a||", "x instanceof y;", "\u{a0}", "\u{2028}",
                "a.//\n", "./**/", "return a;", "throw a;", "\"a\"+", "1,", ";", ",", "}", "]", ")", "#", "é", "`a`", "a++;", "a in b;",
            ]),
            _ => "",
        };
        unit.push_str(p);
    }
    if unit.is_empty() {
        unit.push('a');
    }
    let mut t = String::new();
    if s.chance(1, 2) {
        t.push_str(s.pick(&["(", "[", "{", "f(", "x={", "`", "'", "/*", "//", "switch(a){", "class A{", "function f(", "var ", "import {", "a?", "`${", "/", "({", "for(", "a=>{"]));
    }
    while t.len() < bytes {
        t.push_str(&unit);
    }
    if s.chance(1, 3) {
        let tail = soup(s, 4);
        t.push_str(&tail);
    }
    t
}

/// opening and closing part of something that nests
pub const NESTS: &[(&str, &str)] = &[
    ("(", ")"), ("[", "]"), ("({a:", "})"), ("f(", ")"), ("a[", "]"), ("-", ""), ("!", ""), ("typeof ", ""), ("a?", ":b"), ("a?b:", ""), ("a=", ""), ("a+(", ")"),
    ("a=>", ""), ("(a)=>", ""), ("(a,b)=>", ""), ("(a=", ")=>b"), ("(a=>", ")"), ("(()=>{", "})"), ("function(){return ", "}"), ("new ", ""), ("new (", ")"),
    ("`${", "}`"), ("f`${", "}`"), ("[a,...", "]"), ("f(...", ")"), ("({a(){return ", "}})"), ("class extends ", "{}"), ("class{a=", "}"), ("class{[", "](){}}"),
    ("({[", "]:a})"), ("a,", ""), ("a**", ""), ("void 0,(", ")"), ("[[", "]]"), ("(x=>({y:", "}))"), ("((a,", "))"),
    ("function(a=", "){}"), ("(a.b[", "].c)"), ("({a,b:", ",c})"),
];
pub const STMT_NESTS: &[(&str, &str)] = &[
    ("{", "}"), ("if(a)", ""), ("if(a){", "}"), ("if(a);else ", ""), ("for(;;)", ""), ("for(a of b)", ""), ("for(var a in b){", "}"), ("while(a)", ""),
    ("do ", "while(a);"), ("do{", "}while(a)"), ("try{", "}finally{}"), ("try{}catch(e){", "}"), ("switch(a){case b:", "}"), ("switch(a){default:{", "}}"),
    ("a:", ""), ("function f(){", "}"), ("class A{f(){", "}}"), ("a=>{", "}"), ("a=function(){", "}"), ("return ", ""), ("var a=", ""), ("throw ", ""),
];

pub fn deep(s: &mut Src, depth: usize) -> String {
    let kinds = 1 + s.below(3);
    let mut ks = Vec::new();
    for _ in 0..kinds {
        ks.push(*s.pick(NESTS));
    }
    let mut ss = Vec::new();
    for _ in 0..s.below(3) {
        ss.push(*s.pick(STMT_NESTS));
    }
    let mut open = String::new();
    let mut close: Vec<&str> = Vec::new();
    let split = if ss.is_empty() { 0 } else { s.below(depth + 1) };
    for i in 0..depth {
        let (o, c) = if i < split { ss[i % ss.len()] } else { ks[i % ks.len()] };
        open.push_str(o);
        close.push(c);
    }
    match s.weighted(&[5, 2, 1]) {
        0 => {
            open.push('a');
            for c in close.iter().rev() {
                open.push_str(c);
            }
        }
        1 => {}
        _ => {
            let t = soup(s, 4);
            open.push_str(&t);
            for c in close.iter().rev() {
                open.push_str(c);
            }
        }
    }
    open
}

// ---- what stands between tokens

pub fn is_space(c: char) -> bool {
    matches!(c, '\u{1}'..='\u{20}' | '\u{A0}' | '\u{1680}' | '\u{2000}'..='\u{200A}' | '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}') || is_break(c)
}
pub fn is_break(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}

/// Is the text nothing but white space and (complete) comments? If so, does it contain a line
/// terminator? A line comment may end at the end of the text.
pub fn trivia(t: &str) -> Result<bool, String> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut nl = false;
    while i < c.len() {
        if is_space(c[i]) {
            nl |= is_break(c[i]);
            i += 1;
        } else if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && !is_break(c[i]) {
                if c[i] == '\0' {
                    return Err("a null character in a line comment".into());
                }
                i += 1;
            }
        } else if c[i] == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            loop {
                if i + 1 >= c.len() {
                    return Err("an unfinished comment".into());
                }
                if c[i] == '*' && c[i + 1] == '/' {
                    i += 2;
                    break;
                }
                nl |= is_break(c[i]);
                i += 1;
            }
        } else {
            return Err(format!("{:?}", c[i]));
        }
    }
    Ok(nl)
}
