//! C01 parsing any text is safe, C02 tokens partition the text, C03 tokens are recognised.
use super::common::*;
use crate::crash;
use crate::engine::*;
use crate::junk;
use crate::{Prop, Sub};
use ratel::error::{Error, ParseError};
use ratel::lexer::{Asi, Lexer, Token};
use toolshed::Arena;

/// A NUL-terminated copy of a text that ends at a page that cannot be read.
pub struct Guarded {
    p: *mut u8,
    size: usize,
}
impl Guarded {
    pub fn new(text: &str) -> Guarded {
        let size = text.len() + 1;
        unsafe {
            let p = crash::guarded(size);
            if p.is_null() {
                panic!("{} no memory", HARNESS_BUG);
            }
            std::ptr::copy_nonoverlapping(text.as_ptr(), p, text.len());
            *p.add(text.len()) = 0;
            Guarded { p, size }
        }
    }
    pub fn ptr(&self) -> *const u8 {
        self.p
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe { crash::unguard(self.p, self.size) }
    }
}

pub fn render_error(text: &str, e: &Error) -> String {
    let p = match e.token {
        Token::UnexpectedEndOfProgram => ParseError::UnexpectedEndOfProgram,
        _ => ParseError::UnexpectedToken { source: text.to_string(), start: e.start, end: e.end },
    };
    format!("{}{:?}", p, e)
}

/// parse, look at everything, drop
fn exercise(text: &str, few: bool) -> Result<bool, Failure> {
    let (r, bytes) = crash::allocated(|| parse(text));
    let limit = 300_000 + 1_000 * text.len() as u64;
    if bytes > limit {
        return fail("memory", format!("{} bytes of memory for a text of {} bytes", bytes, text.len()), short(text));
    }
    match r {
        Ok(m) => {
            drop(m);
            Ok(true)
        }
        Err(errors) => {
            if errors.is_empty() {
                return fail("no errors", "parsing fails without an error", short(text));
            }
            if errors.len() > 8 * text.len() + 20 {
                return fail("errors", format!("{} errors for {} bytes", errors.len(), text.len()), short(text));
            }
            let n = if few { 10 } else { 200 };
            let mut total = 0;
            for e in errors.iter().take(n).chain(errors.iter().rev().take(3)) {
                total += render_error(text, e).len();
            }
            std::hint::black_box(total);
            Ok(false)
        }
    }
}

pub fn short(t: &str) -> String {
    if t.len() <= 2000 {
        return t.to_string();
    }
    let a: String = t.chars().take(600).collect();
    let b: String = t.chars().rev().take(200).collect::<Vec<_>>().into_iter().rev().collect();
    format!("{} … ({} bytes) … {}", a, t.len(), b)
}

fn c01_soup(s: &mut Src) -> PropResult {
    let mut t = junk::text(s);
    if s.chance(1, 200) {
        // big enough for the copy that the parser makes to be guarded
        let unit = s.pick::<&str>(&[";", " ", "a;", "é ", "/**/", "\n", "'a';"]).to_string();
        let mut x = unit.repeat(66_000 / unit.len());
        x.push_str(&t);
        s.label("ends at an unreadable page");
        crash::with_guards(|| exercise(&x, true))?;
        return ok(short(&x), true);
    }
    let good = exercise(&t, false)?;
    if good {
        s.label("valid");
    }
    if t.len() > 3000 {
        t = short(&t);
    }
    let n = t.chars().filter(|c| !c.is_ascii_alphanumeric() && *c != ' ').count();
    ok(t, n >= 5)
}

/// the lexer alone, at the very end of readable memory
fn c01_lexer(s: &mut Src) -> PropResult {
    let t = match s.below(3) {
        0 => junk::soup(s, 12),
        1 => junk::chars(s, 20),
        _ => junk::text(s),
    };
    set_current(&t);
    let g = Guarded::new(&t);
    let mut lex = unsafe { Lexer::from_ptr(g.ptr()) };
    let mut n = 0;
    let mut special = 0;
    while lex.token != Token::EndOfProgram {
        n += 1;
        if n > 2 * t.len() + 10 {
            return fail("endless", format!("{} tokens in {} bytes", n, t.len()), t);
        }
        match lex.token {
            Token::BraceClose if s.chance(1, 2) => {
                special += 1;
                lex.read_template_kind()
            }
            Token::OperatorDivision | Token::OperatorDivideAssign if s.chance(1, 2) => {
                special += 1;
                std::hint::black_box(lex.read_regular_expression().len());
            }
            _ => {}
        }
        std::hint::black_box((lex.token_as_str().len(), lex.loc(), lex.quasi.len()));
        if lex.token == Token::Accessor {
            std::hint::black_box(lex.accessor_as_str().len());
        }
        if lex.end() as usize > t.len() {
            return fail("outside", format!("token {:?} ends at {} of {}", lex.token, lex.end(), t.len()), t);
        }
        if s.chance(1, 30) {
            let e = lex.invalid_token();
            std::hint::black_box(e.raw.len());
        } else {
            lex.consume();
        }
    }
    lex.consume();
    if lex.token != Token::EndOfProgram {
        return fail("end", "the lexer goes on after the end", t);
    }
    if special > 0 {
        s.label("template or regular expression");
    }
    let nt = n >= 3;
    ok(t, nt)
}

/// long texts without nesting, which need no more stack than short ones
fn c01_wide(s: &mut Src, size: usize) -> PropResult {
    let (open, unit, close) = *s.pick(super::scale::WIDE);
    if matches!((open, unit), ("a=", "b#=") | ("a=", "b#**") | ("a?", _) | ("if(a)", _)) {
        return Ok(Case { render: String::new(), nontrivial: false, skipped: Some("one part is inside of another") });
    }
    let mut t = open.to_string();
    while t.len() < 4 * size {
        t.push_str(&unit.replace('#', &(t.len() % 1000).to_string()));
    }
    match s.below(4) {
        0 => {}
        1 => t.push_str(&junk::soup(s, 4)),
        _ => t.push_str(close),
    }
    set_current(&short(&t));
    if run_small(|| exercise(&t, true))? {
        s.label("wide, valid");
    }
    ok(short(&t), true)
}

/// time and memory of long texts
fn c01_long(s: &mut Src) -> PropResult {
    let size = s.range(40_000, 120_000);
    if s.chance(1, 3) {
        return c01_wide(s, size);
    }
    let t = junk::long(s, size);
    set_current(&t);
    let c0 = crash::cpu();
    exercise(&t, true)?;
    let one = crash::cpu() - c0;
    if one > 0.5 {
        // four times as much text takes about four times as long
        let x = t.repeat(4);
        let c0 = crash::cpu();
        exercise(&x, true)?;
        let four = crash::cpu() - c0;
        if four > 2.0 && four > 9.0 * one {
            return fail("time", format!("{} bytes take {:.1} s, {} bytes take {:.1} s", t.len(), one, x.len(), four), short(&t));
        }
        if one > 20.0 {
            return fail("time", format!("{} bytes take {:.1} s", t.len(), one), short(&t));
        }
    }
    ok(short(&t), true)
}

/// nesting
fn c01_deep(s: &mut Src) -> PropResult {
    let depth = [10, 40, 200, 1200][s.weighted(&[3, 3, 3, 2])];
    let t = junk::deep(s, depth);
    let good = exercise(&t, true)?;
    if good {
        s.label("valid");
    }
    ok(short(&t), true)
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "texts with at least five characters other than letters, digits and spaces; distinct texts",
        assumptions: &[
            "nesting is bounded (1200 levels on a 512 MB stack): the parser recurses, so deeper texts are limited by the stack",
            "for long and failing texts only the first ten and last three errors are rendered (each rendering prints whole lines)",
            "linear memory: at most 300 kB plus 1000 bytes per byte of text; linear time: four times the text takes at most nine times as long",
        ],
        subs: vec![
            Sub { name: "soup", quick: 600_000, thorough: 6_000_000, f: c01_soup },
            Sub { name: "lexer", quick: 500_000, thorough: 8_000_000, f: c01_lexer },
            Sub { name: "long", quick: 6_000, thorough: 100_000, f: c01_long },
            Sub { name: "deep", quick: 60_000, thorough: 2_000_000, f: c01_deep },
        ],
        probes: vec![],
    }
}

// ---- C02

/// nothing but the name: no white space and no comment
fn name_like(w: &str) -> bool {
    !w.is_empty() && w.chars().all(|c| !c.is_ascii() && (c == '\u{85}' || !c.is_whitespace()) && c != '\u{feff}' || c.is_ascii_alphanumeric() || c == '_' || c == '$' || c == '\\')
}

fn c02_partition(s: &mut Src) -> PropResult {
    let t = match s.below(4) {
        0 => junk::soup(s, 16),
        1 => junk::chars(s, 30),
        _ => junk::text(s),
    };
    set_current(&t);
    let arena = Arena::new();
    let mut lex = Lexer::new(&arena, &t);
    let mut pos = 0usize; // end of the last token
    let mut n = 0;
    loop {
        let (a, b) = (lex.start() as usize, lex.end() as usize);
        let tok = lex.token;
        if lex.loc() != (lex.start(), lex.end()) {
            return fail("loc", "loc() disagrees with start() and end()", t);
        }
        if n > 0 && lex.prev_end() as usize != pos {
            return fail("prev_end", format!("prev_end is {} and the last token ended at {}", lex.prev_end(), pos), t);
        }
        if a < pos || b < a || b > t.len() {
            return fail("span", format!("{:?} at {}..{} after {} in a text of {}", tok, a, b, pos, t.len()), t);
        }
        if !t.is_char_boundary(a) || !t.is_char_boundary(b) {
            return fail("boundary", format!("{:?} at {}..{} splits a character", tok, a, b), t);
        }
        if let Err(e) = junk::trivia(&t[pos..a]) {
            return fail("gap", format!("{} is skipped before {:?} at {}", e, tok, a), t);
        }
        if lex.token_as_str() != &t[a..b] {
            return fail("text", format!("{:?} at {}..{} reads {:?}", tok, a, b, lex.token_as_str()), t);
        }
        if tok == Token::EndOfProgram {
            if b != t.len() || a != b {
                return fail("end", format!("the end is reported at {}..{} of {}", a, b, t.len()), t);
            }
            break;
        }
        if a == b {
            return fail("empty", format!("{:?} is empty at {}", tok, a), t);
        }
        n += 1;
        if n > t.len() {
            return fail("count", "more tokens than bytes", t);
        }
        let mut end = b;
        if tok == Token::Accessor {
            let w = lex.accessor_as_str();
            let text = &t[a..b];
            let good = text.starts_with('.') && text.ends_with(w) && name_like(w) && junk::trivia(&text[1..text.len() - w.len()]).is_ok();
            if !good {
                return fail("accessor", format!("accessor {:?} of {:?}", w, text), t);
            }
        }
        let reread = match tok {
            Token::BraceClose => s.chance(1, 2),
            Token::OperatorDivision | Token::OperatorDivideAssign => s.chance(1, 2),
            _ => false,
        };
        if reread {
            let brace = tok == Token::BraceClose;
            let mut re = "";
            if brace {
                lex.read_template_kind();
            } else {
                re = lex.read_regular_expression();
            }
            s.label("template or regular expression");
            end = lex.end() as usize;
            if lex.start() as usize != a || end < b.min(a + 1) || end > t.len() || !t.is_char_boundary(end) {
                return fail("span", format!("{:?} read at {}..{} as {}..{}", lex.token, a, b, lex.start(), end), t);
            }
            if lex.token_as_str() != &t[a..end] {
                return fail("text", format!("{:?} at {}..{} reads {:?}", lex.token, a, end, lex.token_as_str()), t);
            }
            match lex.token {
                Token::LiteralRegEx if !brace => {
                    if re != &t[a..end] {
                        return fail("regex", format!("regular expression {:?} at {}..{}", re, a, end), t);
                    }
                }
                Token::TemplateOpen | Token::TemplateClosed if brace => check_quasi(&lex, &t, a, end)?,
                Token::UnexpectedEndOfProgram | Token::UnexpectedToken => {}
                x => return fail("kind", format!("{:?} is read again as {:?}", tok, x), t),
            }
        } else if matches!(tok, Token::TemplateOpen | Token::TemplateClosed) {
            check_quasi(&lex, &t, a, b)?;
        }
        pos = end;
        match s.below(8) {
            0 => {
                // an error takes exactly the token
                let e = lex.invalid_token();
                if (e.start, e.end) != (a, end) || *e.raw != t[a..end] {
                    return fail("error", format!("error at {}..{} {:?} for the token at {}..{}", e.start, e.end, e.raw, a, end), t);
                }
            }
            1 => {
                if lex.start_then_consume() as usize != a {
                    return fail("start", "start_then_consume", t);
                }
            }
            2 => {
                if lex.end_then_consume() as usize != end {
                    return fail("end", "end_then_consume", t);
                }
            }
            _ => lex.consume(),
        }
    }
    let nt = n >= 4;
    ok(t, nt)
}

fn check_quasi(lex: &Lexer, t: &str, a: usize, b: usize) -> Result<(), Failure> {
    let tail = if lex.token == Token::TemplateOpen { 2 } else { 1 };
    let want = t.get(a + 1..b - tail).unwrap_or("<cut>");
    if b - a < 1 + tail || lex.quasi != want {
        return fail("quasi", format!("{:?} at {}..{} has the text {:?}", lex.token, a, b, lex.quasi), t);
    }
    let end = &t[b - tail..b];
    if end != if tail == 2 { "${" } else { "`" } {
        return fail("quasi", format!("{:?} at {}..{} ends in {:?}", lex.token, a, b, end), t);
    }
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "texts of at least four tokens; distinct texts",
        assumptions: &["ASCII control characters other than NUL count as white space, as the lexer's table has them", "a line comment cut off by a NUL character ends there"],
        subs: vec![Sub { name: "partition", quick: 4_000_000, thorough: 200_000_000, f: c02_partition }],
        probes: vec![],
    }
}

// ---- C03

const WORDS: &[(&str, Token)] = &[
    ("break", Token::Break), ("case", Token::Case), ("catch", Token::Catch), ("class", Token::Class), ("const", Token::DeclarationConst),
    ("continue", Token::Continue), ("debugger", Token::Debugger), ("default", Token::Default), ("delete", Token::OperatorDelete), ("do", Token::Do),
    ("else", Token::Else), ("enum", Token::ReservedEnum), ("export", Token::Export), ("extends", Token::Extends), ("false", Token::LiteralFalse),
    ("finally", Token::Finally), ("for", Token::For), ("function", Token::Function), ("if", Token::If), ("implements", Token::ReservedImplements),
    ("import", Token::Import), ("in", Token::OperatorIn), ("instanceof", Token::OperatorInstanceof), ("interface", Token::ReservedInterface),
    ("let", Token::DeclarationLet), ("new", Token::OperatorNew), ("null", Token::LiteralNull), ("package", Token::ReservedPackage),
    ("private", Token::ReservedPrivate), ("protected", Token::ReservedProtected), ("public", Token::ReservedPublic), ("return", Token::Return),
    ("static", Token::Static), ("super", Token::Super), ("switch", Token::Switch), ("this", Token::This), ("throw", Token::Throw),
    ("true", Token::LiteralTrue), ("try", Token::Try), ("typeof", Token::OperatorTypeof), ("undefined", Token::LiteralUndefined),
    ("var", Token::DeclarationVar), ("void", Token::OperatorVoid), ("while", Token::While), ("with", Token::With), ("yield", Token::Yield),
];
const PUNCTS: &[(&str, Token)] = &[
    (";", Token::Semicolon), (":", Token::Colon), (",", Token::Comma), ("(", Token::ParenOpen), (")", Token::ParenClose), ("[", Token::BracketOpen),
    ("]", Token::BracketClose), ("{", Token::BraceOpen), ("}", Token::BraceClose), ("=>", Token::OperatorFatArrow), ("++", Token::OperatorIncrement),
    ("--", Token::OperatorDecrement), ("!", Token::OperatorLogicalNot), ("~", Token::OperatorBitwiseNot), ("*", Token::OperatorMultiplication),
    ("/", Token::OperatorDivision), ("%", Token::OperatorRemainder), ("**", Token::OperatorExponent), ("+", Token::OperatorAddition),
    ("-", Token::OperatorSubtraction), ("<<", Token::OperatorBitShiftLeft), (">>", Token::OperatorBitShiftRight), (">>>", Token::OperatorUBitShiftRight),
    ("<", Token::OperatorLesser), ("<=", Token::OperatorLesserEquals), (">", Token::OperatorGreater), (">=", Token::OperatorGreaterEquals),
    ("===", Token::OperatorStrictEquality), ("!==", Token::OperatorStrictInequality), ("==", Token::OperatorEquality), ("!=", Token::OperatorInequality),
    ("&", Token::OperatorBitwiseAnd), ("^", Token::OperatorBitwiseXor), ("|", Token::OperatorBitwiseOr), ("&&", Token::OperatorLogicalAnd),
    ("||", Token::OperatorLogicalOr), ("?", Token::OperatorConditional), ("=", Token::OperatorAssign), ("+=", Token::OperatorAddAssign),
    ("-=", Token::OperatorSubtractAssign), ("**=", Token::OperatorExponentAssign), ("*=", Token::OperatorMultiplyAssign), ("/=", Token::OperatorDivideAssign),
    ("%=", Token::OperatorRemainderAssign), ("<<=", Token::OperatorBSLAssign), (">>=", Token::OperatorBSRAssign), (">>>=", Token::OperatorUBSRAssign),
    ("&=", Token::OperatorBitAndAssign), ("^=", Token::OperatorBitXorAssign), ("|=", Token::OperatorBitOrAssign), ("...", Token::OperatorSpread),
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Word,
    Num,
    Punct,
    Str,
    /// `…` or `…${ : begins like a token
    Tpl,
    /// }…${ or }…` : the lexer is told to go on with the template
    TplTail,
    Regex,
    /// .name, with trivia in between
    Accessor,
}

struct T {
    text: String,
    kind: Kind,
    token: Token,
    /// accessor name, quasi
    inner: String,
}

fn ident_part(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '$' || (!c.is_ascii() && c.is_alphanumeric())
}

const LETTERS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

fn identifier(s: &mut Src) -> String {
    match s.weighted(&[3, 5, 3, 2]) {
        0 => s.pick::<&str>(&["a", "x", "_", "$", "foo", "Z9", "é", "日本語", "ñandú", "Ω", "𝒳", "aé", "$é1", "π2", "constructor", "of", "get", "set", "async", "await", "eval", "from", "as", "arguments", "NaN"]).to_string(),
        1 => {
            // close to a keyword
            let w = s.pick(WORDS).0;
            match s.below(6) {
                0 => format!("{}{}", w, s.pick(&["s", "_", "$", "1", "é", "e", "n", "X"])),
                1 => w[..w.len() - 1].to_string(),
                2 => format!("{}{}", s.pick(&["_", "$", "a", "é", "X"]), w),
                3 => {
                    let mut c = w.to_string();
                    let i = s.below(w.len());
                    let up = c[i..=i].to_ascii_uppercase();
                    c.replace_range(i..=i, &up);
                    c
                }
                4 => {
                    let i = s.below(w.len());
                    let mut c = w.to_string();
                    let l = (*s.pick(LETTERS) as char).to_string();
                    let r: &str = if s.chance(1, 2) { l.as_str() } else { s.pick(&["_", "$", "0", "é"]) };
                    if i == 0 && r == "0" {
                        c.insert_str(1, r);
                    } else {
                        c.replace_range(i..=i, r);
                    }
                    c
                }
                _ => {
                    let v = s.pick(WORDS).0;
                    format!("{}{}", w, v)
                }
            }
        }
        2 => {
            // anything after the first letters of a keyword
            let w = s.pick(WORDS).0;
            let i = 1 + s.below(w.len());
            let mut c = w[..i].to_string();
            for _ in 0..s.below(4) {
                c.push(*s.pick(&['a', 'e', 'f', 'i', 'n', 'o', 'r', 's', 't', 'u', '0', '9', '_', '$', 'A', 'Z', 'é', '日']));
            }
            c
        }
        _ => {
            let mut c = String::new();
            c.push(if s.chance(3, 4) { *s.pick(LETTERS) as char } else { *s.pick(&['_', '$', 'ö', 'Ж']) });
            for _ in 0..s.below(9) {
                c.push(if s.chance(1, 2) { *s.pick(LETTERS) as char } else { *s.pick(&['0', '5', '9', '_', '$', 'ö', 'Ж', '中']) });
            }
            c
        }
    }
}

fn word(s: &mut Src) -> T {
    let text = if s.chance(1, 2) { s.pick(WORDS).0.to_string() } else { identifier(s) };
    let token = WORDS.iter().find(|w| w.0 == text).map_or(Token::Identifier, |w| w.1);
    T { text, kind: Kind::Word, token, inner: String::new() }
}

fn digits(s: &mut Src, set: &[char], min: usize) -> String {
    let n = min + s.weighted(&[5, 3, 2, 1, 1, 1, 1, 1]);
    (0..n).map(|_| *s.pick(set)).collect()
}
const DEC: &[char] = &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'];

fn number(s: &mut Src) -> T {
    let mut token = Token::LiteralNumber;
    let text = match s.below(8) {
        0 => {
            token = Token::LiteralBinary;
            format!("0{}{}", s.pick(&['b', 'B']), digits(s, &['0', '1'], 1))
        }
        1 => format!("0{}{}", s.pick(&['o', 'O']), digits(s, &['0', '1', '2', '3', '4', '5', '6', '7'], 1)),
        2 => {
            const HEX: &[char] = &['0', '1', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f', 'A', 'B', 'C', 'D', 'E', 'F'];
            format!("0{}{}", s.pick(&['x', 'X']), digits(s, HEX, 1))
        }
        _ => {
            let mut int = if s.chance(1, 4) { "0".to_string() } else { digits(s, DEC, 1) };
            while int.len() > 1 && int.starts_with('0') {
                int.remove(0);
            }
            let mut x = match s.below(4) {
                0 => int,
                1 => format!("{}.", int),
                2 => format!("{}.{}", int, digits(s, DEC, 1)),
                _ => format!(".{}", digits(s, DEC, 1)),
            };
            if s.chance(1, 3) {
                x.push(*s.pick(&['e', 'E']));
                x.push_str(s.pick(&["", "+", "-"]));
                x.push_str(&digits(s, DEC, 1));
            }
            x
        }
    };
    T { text, kind: Kind::Num, token, inner: String::new() }
}

fn string(s: &mut Src) -> T {
    let q = *s.pick(&["\"", "'"]);
    let mut x = q.to_string();
    for _ in 0..s.weighted(&[3, 4, 3, 2, 1]) {
        let p = *s.pick(&[
            "a", " ", "//", "/*", "*/", "`", "${", "}", "\\\\", "\\\"", "\\'", "\\n", "\\x41", "\\u0041", "\\u{1F600}", "é", "日", "😀", "\\\n", "\\\r\n", "\\\r", "\\é", "\\日",
            "\u{2028}", "\\\u{2028}", "\t", "\u{1}", "0", "function", ";", "<!--", "-->", "\\0", "\u{7f}", "\\/", "\u{a0}", "'", "\"",
        ]);
        if p == q {
            x.push('\\');
        }
        x.push_str(p);
    }
    x.push_str(q);
    T { text: x, kind: Kind::Str, token: Token::LiteralString, inner: String::new() }
}

fn template(s: &mut Src, tail: bool) -> T {
    let mut x = String::new();
    for _ in 0..s.weighted(&[3, 4, 3, 2, 1]) {
        x.push_str(s.pick(&[
            "a", " ", "//", "/*", "*/", "'", "\"", "{", "}", "$", "$$", "\\`", "\\$", "\\\\", "\n", "\r\n", "é", "日", "😀", "\u{2028}", "\\\n", "\\é", "\\u0041", "$ {", "\\${", "$\\{", "{}", "${"[..1].trim(),
        ]));
    }
    // a $ may not meet a { by accident
    while x.contains("${") {
        let i = x.find("${").unwrap();
        if x[..i].chars().rev().take_while(|c| *c == '\\').count() % 2 == 1 {
            // escaped: look for the next one
            if let Some(j) = x[i + 2..].find("${") {
                x.insert(i + 2 + j + 1, ' ');
                continue;
            }
            break;
        }
        x.insert(i + 1, ' ');
    }
    let open = s.chance(1, 2);
    let text = format!("{}{}{}", if tail { "}" } else { "`" }, x, if open { "${" } else { "`" });
    T { text, kind: if tail { Kind::TplTail } else { Kind::Tpl }, token: if open { Token::TemplateOpen } else { Token::TemplateClosed }, inner: x }
}

fn regex(s: &mut Src) -> T {
    let mut x = String::from("/");
    for i in 0..1 + s.weighted(&[3, 3, 2, 1]) {
        let p = *s.pick(&[
            "a", "=", "[/]", "\\/", "[\\]]", "[^/]", "\\\\", "(a)", ".", "+", "*", "{1}", "é", "日", "[é/]", "'", "\"", "`", "\\[", "[[]", "[\\\\/]", " ", "//"[..1].trim_start_matches('/'), "\\é", "]", "[]", "\\d", "$", "[*]", "[//]", "[a//*]", "[^//\\]/]",
        ]);
        if i == 0 && (p == "*" || p.is_empty()) {
            x.push('=');
        }
        x.push_str(p);
    }
    x.push('/');
    x.push_str(s.pick(&["", "g", "i", "m", "u", "y", "s", "gimuys", "gi", "gimsuy", "yusmi"]));
    T { text: x, kind: Kind::Regex, token: Token::LiteralRegEx, inner: String::new() }
}

const BREAKS: &[&str] = &["\n", "\r\n", "\r", "\u{2028}", "\u{2029}"];

/// white space and comments; the flag says whether a line terminator is in it
fn gap(s: &mut Src, need: bool) -> String {
    let mut g = String::new();
    let n = s.weighted(&[4, 5, 2, 1]);
    for _ in 0..n {
        match s.weighted(&[6, 2, 3, 2, 2, 2]) {
            0 => g.push(' '),
            1 => g.push_str(s.pick(&["\t", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{1680}", "\u{2000}", "\u{200a}", "\u{202f}", "\u{205f}", "\u{3000}", "  "])),
            2 => g.push_str(s.pick(BREAKS)),
            3 => g.push_str(s.pick(&["/**/", "/* a */", "/***/", "/*/*/", "/*//*/", "/* é日 */", "/*'*/", "/* * / */", "/*`${*/", "/*\u{a0}*/", "/*â*/", "/****/"])),
            4 => {
                g.push_str("/*");
                g.push_str(s.pick(&["", "a", "*", "é", " "]));
                g.push_str(s.pick(BREAKS));
                g.push_str(s.pick(&["", "a", "*", "é", "\n"]));
                g.push_str("*/");
            }
            _ => {
                g.push_str("//");
                g.push_str(s.pick(&["", "a", " /* ", "é", "日", "'", "`${", "*/", "/", "\u{a0}", "\u{2027}"]));
                g.push_str(s.pick(BREAKS));
            }
        }
    }
    if need && g.is_empty() {
        g.push(' ');
    }
    g
}

fn merges(a: &T, b: &T) -> bool {
    let fb = b.text.chars().next().unwrap();
    let la = a.text.chars().last().unwrap();
    match a.kind {
        Kind::Word | Kind::Accessor => ident_part(fb),
        Kind::Num => ident_part(fb) || fb == '.',
        Kind::Regex => ident_part(fb),
        // handled by maximal munch below; a dot takes digits and names, a slash starts comments
        Kind::Punct => {
            let both = format!("{}{}", a.text, b.text);
            if la == '/' && (fb == '/' || fb == '*') {
                return true;
            }
            if b.kind == Kind::Regex || (a.text == "/" || a.text == "/=") {
                // what follows a slash could be read as part of it
                return true;
            }
            la == '.' || munch(&both).0.len() > a.text.len() || (b.kind == Kind::Num && fb == '.' && la == '.')
        }
        _ => false,
    }
}

/// the longest punctuator at the start of a text
fn munch(t: &str) -> (&'static str, Token) {
    let mut best = ("", Token::UnexpectedToken);
    for p in PUNCTS {
        if t.starts_with(p.0) && p.0.len() > best.0.len() {
            best = *p;
        }
    }
    best
}

fn c03_sequence(s: &mut Src) -> PropResult {
    let n = 1 + s.weighted(&[2, 4, 4, 3, 2, 2, 1, 1]);
    let mut toks: Vec<T> = Vec::new();
    for _ in 0..n {
        let x = match s.weighted(&[8, 4, 8, 2, 2, 1, 2, 3]) {
            0 => word(s),
            1 => number(s),
            2 => {
                let p = *s.pick(PUNCTS);
                T { text: p.0.into(), kind: Kind::Punct, token: p.1, inner: String::new() }
            }
            3 => string(s),
            4 => template(s, false),
            5 => template(s, true),
            6 => regex(s),
            _ => {
                let g = if s.chance(1, 3) { gap(s, false) } else { String::new() };
                let w = word(s).text;
                T { text: format!(".{}{}", g, w), kind: Kind::Accessor, token: Token::Accessor, inner: w }
            }
        };
        toks.push(x);
    }
    // lay out
    let mut text = String::new();
    let mut at = Vec::new();
    let mut nls = Vec::new();
    let before = gap(s, false);
    text.push_str(&before);
    nls.push(before.contains(junk::is_break));
    for i in 0..n {
        at.push(text.len());
        text.push_str(&toks[i].text);
        let need = i + 1 < n && merges(&toks[i], &toks[i + 1]);
        let mut g = if s.chance(2, 3) || need { gap(s, need) } else { String::new() };
        if g.starts_with('/') && toks[i].text.ends_with('/') {
            g.insert(0, ' ');
        }
        // `.` + `..`
        nls.push(g.contains(junk::is_break));
        text.push_str(&g);
    }
    if s.chance(1, 10) {
        text.push_str(" //end");
    }
    set_current(&text);
    let arena = Arena::new();
    let mut lex = Lexer::new(&arena, &text);
    for i in 0..n {
        let x = &toks[i];
        let (a, b) = (at[i], at[i] + x.text.len());
        // what the lexer says before it is told that a template or regular expression goes on
        let first = match x.kind {
            Kind::TplTail => Token::BraceClose,
            Kind::Regex if x.text.starts_with("/=") => Token::OperatorDivideAssign,
            Kind::Regex => Token::OperatorDivision,
            _ => x.token,
        };
        if lex.token != first {
            return fail("token", format!("token {} ({:?}) is {:?} and not {:?}", i, x.text, lex.token, first), text);
        }
        check_asi(&lex, first, nls[i], &text, i)?;
        match x.kind {
            Kind::TplTail => lex.read_template_kind(),
            Kind::Regex => {
                let r = lex.read_regular_expression();
                if r != x.text {
                    return fail("regex", format!("regular expression {:?} read as {:?}", x.text, r), text);
                }
            }
            _ => {}
        }
        if lex.token != x.token || lex.start() as usize != a || lex.end() as usize != b || lex.token_as_str() != x.text {
            return fail("token", format!("token {} ({:?} at {}..{}) is {:?} {:?} at {:?}", i, x.text, a, b, lex.token, lex.token_as_str(), lex.loc()), text);
        }
        match x.kind {
            Kind::Accessor if lex.accessor_as_str() != x.inner => return fail("accessor", format!("{:?} for {:?}", lex.accessor_as_str(), x.inner), text),
            Kind::Tpl | Kind::TplTail if lex.quasi != x.inner => return fail("quasi", format!("{:?} for {:?}", lex.quasi, x.inner), text),
            _ => {}
        }
        lex.consume();
    }
    if lex.token != Token::EndOfProgram {
        return fail("token", format!("{:?} {:?} after the last token", lex.token, lex.token_as_str()), text);
    }
    check_asi(&lex, Token::EndOfProgram, nls[n], &text, n)?;
    ok(text, n >= 3)
}

fn check_asi(lex: &Lexer, token: Token, nl: bool, text: &str, i: usize) -> Result<(), Failure> {
    let want = match token {
        Token::Semicolon => Asi::ExplicitSemicolon,
        Token::ParenClose | Token::BraceClose | Token::EndOfProgram => Asi::ImplicitSemicolon,
        _ if nl => Asi::ImplicitSemicolon,
        _ => Asi::NoSemicolon,
    };
    let name = |a: Asi| match a {
        Asi::ExplicitSemicolon => "explicit",
        Asi::ImplicitSemicolon => "implicit",
        Asi::NoSemicolon => "none",
    };
    if lex.asi() != want {
        return fail("asi", format!("semicolon insertion at token {} ({:?}): {} and not {}", i, token, name(lex.asi()), name(want)), text);
    }
    Ok(())
}

/// punctuators written without anything between them are read longest first
fn c03_munch(s: &mut Src) -> PropResult {
    let n = 1 + s.below(6);
    let mut text = String::new();
    let atom = s.chance(1, 2);
    if atom {
        text.push('a');
    }
    let from = text.len();
    for _ in 0..n {
        text.push_str(s.pick(PUNCTS).0);
    }
    let body = text[from..].to_string();
    if body.contains("//") || body.contains("/*") {
        return Ok(Case { render: text, nontrivial: false, skipped: Some("makes a comment") });
    }
    text.push_str(s.pick(&["", "x", " x", "1", "'a'"]));
    set_current(&text);
    let arena = Arena::new();
    let mut lex = Lexer::new(&arena, &text);
    if atom {
        lex.consume();
    }
    let mut i = from;
    let end = from + body.len();
    while i < end {
        if text[i..].starts_with('.') && !text[i..].starts_with("...") {
            break;
        }
        let m = munch(&text[i..end]);
        if lex.token != m.1 || (lex.start() as usize, lex.end() as usize) != (i, i + m.0.len()) {
            return fail("munch", format!("{:?} at {} is read as {:?} {:?}", m.0, i, lex.token, lex.token_as_str()), text);
        }
        i += m.0.len();
        lex.consume();
    }
    ok(text, n >= 3)
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "at least three tokens; distinct texts",
        assumptions: &[
            "identifiers with escapes, numbers directly followed by a letter, legacy octal numbers and line separators inside regular expressions are not generated",
            "the flags of a regular expression are any of g i m s u y",
        ],
        subs: vec![
            Sub { name: "sequence", quick: 6_000_000, thorough: 300_000_000, f: c03_sequence },
            Sub { name: "munch", quick: 2_000_000, thorough: 50_000_000, f: c03_munch },
        ],
        probes: vec![],
    }
}
