//! C07 errors point at the offending token and print the right place.
use super::common::*;
use super::text::short;
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::junk;
use crate::print::{self, Opts};
use crate::{Prop, Sub};
use ratel::error::{Error, ParseError};
use ratel::lexer::Token;

fn at_end(e: &Error) -> bool {
    matches!(e.token, Token::EndOfProgram | Token::UnexpectedEndOfProgram)
}

/// What the message for the span a..b of the text has to say.
pub fn check_rendered(text: &str, a: usize, b: usize, out: &str) -> Result<(), String> {
    let mut lines: Vec<&str> = text.split('\n').collect();
    let last = lines.len() - 1;
    for (i, l) in lines.iter_mut().enumerate() {
        // a line break is \n or \r\n
        if i < last && l.ends_with('\r') {
            *l = &l[..l.len() - 1];
        }
    }
    let line = text[..a].matches('\n').count();
    let col = text[..a].rsplit('\n').next().unwrap().chars().count();
    let mut span = text[a..b].split('\n').next().unwrap();
    if span.len() < b - a && span.ends_with('\r') {
        span = &span[..span.len() - 1];
    }
    let width = span.chars().count();
    if !out.ends_with('\n') {
        return Err("the message does not end its last line".into());
    }
    let rows: Vec<&str> = out[..out.len() - 1].split('\n').collect();
    let head = format!("Unexpected token at {}:{}", line + 1, col + 1);
    if rows[0] != head {
        return Err(format!("it begins {:?} and not {:?}", rows[0], head));
    }
    if rows.len() < 4 || !rows[1].is_empty() {
        return Err("no empty line after the first".into());
    }
    // rows `n | text` of consecutive lines, the marked one followed by the underline
    let mut marked = None;
    let mut prev = None;
    let mut first = None;
    let mut bar = None;
    let mut i = 2;
    while i < rows.len() {
        let (mark, rest) = match rows[i].strip_prefix("> ") {
            Some(r) => (true, r),
            None => (false, rows[i]),
        };
        let (num, txt) = rest.split_once(" | ").ok_or(format!("row {:?}", rows[i]))?;
        let n: usize = num.trim().parse().map_err(|_| format!("no line number in row {:?}", rows[i]))?;
        if n == 0 || n > lines.len() || txt != lines[n - 1] {
            return Err(format!("row {:?} is not line {}", rows[i], n));
        }
        if prev.is_some_and(|p| p + 1 != n) {
            return Err(format!("line {} follows line {}", n, prev.unwrap()));
        }
        prev = Some(n);
        first = first.or(prev);
        let at = rows[i].find(" | ");
        if bar.is_some() && bar != at {
            return Err(format!("row {:?} is not aligned with the others", rows[i]));
        }
        bar = at;
        if mark {
            if marked.is_some() {
                return Err("two marked lines".into());
            }
            marked = Some(n);
            i += 1;
            let under = rows.get(i).ok_or("no underline")?;
            let prefix = rows[i - 1].chars().count() - txt.chars().count();
            let u: Vec<char> = under.chars().collect();
            let from = prefix + col;
            for (k, c) in u.iter().enumerate() {
                let want = if k >= from && k < from + width { '^' } else { ' ' };
                if *c != want && !(k < prefix && *c == '|') {
                    return Err(format!("underline {:?} has {:?} at {}: {} characters from {} are to be underlined", under, c, k, width, from));
                }
            }
            if u.len() < from + width {
                return Err(format!("underline {:?} is too short", under));
            }
        }
        i += 1;
    }
    if marked != Some(line + 1) {
        return Err(format!("line {:?} is marked and not {}", marked, line + 1));
    }
    // two lines before and two after it; what follows the last line break is a line if it is marked or not empty
    let count = if lines[last].is_empty() && line < last { last } else { last + 1 };
    let want = (Some(line.saturating_sub(2) + 1), Some((line + 3).min(count)));
    if (first, prev) != want {
        return Err(format!("lines {:?} to {:?} are quoted, and not {:?} to {:?}", first, prev, want.0, want.1));
    }
    Ok(())
}

fn check_errors(text: &str, errors: &[Error]) -> Result<(), Failure> {
    let mut prev = 0;
    for (i, e) in errors.iter().enumerate() {
        let (a, b) = (e.start, e.end);
        if a > b || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
            return fail("span", format!("error {} at {}..{} of {}", i, a, b, text.len()), text);
        }
        if *e.raw != text[a..b] {
            return fail("raw", format!("error {} at {}..{} holds {:?}", i, a, b, e.raw), text);
        }
        if a < prev {
            return fail("order", format!("error {} at {} comes after one at {}", i, a, prev), text);
        }
        prev = a;
        if a == b && !at_end(e) {
            return fail("span", format!("error {} at {} is empty", i, a), text);
        }
        if e.token == Token::EndOfProgram && a != text.len() {
            return fail("end", format!("the end is reported at {} of {}", a, text.len()), text);
        }
        if i < 4 && b - a < 1000 {
            let dump = format!("{:?}", e);
            let without = dump.replacen(&*e.raw, "", 1);
            let mut numbers: Vec<&str> = without.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
            let mut there = |n: usize| match numbers.iter().position(|x| *x == n.to_string()) {
                Some(i) => {
                    numbers.remove(i);
                    true
                }
                None => false,
            };
            if !dump.contains(&*e.raw) || !there(a) || !there(b) {
                return fail("dump", format!("error {} at {}..{}: its dump is {}", i, a, b, short(&dump)), text);
            }
        }
        if i < 40 {
            check_message(text, a, b)?;
        }
    }
    Ok(())
}

fn check_message(text: &str, a: usize, b: usize) -> Result<(), Failure> {
    let e = ParseError::UnexpectedToken { source: text.to_string(), start: a, end: b };
    let out = e.to_string();
    if let Err(m) = check_rendered(text, a, b, &out) {
        return fail("message", format!("{} (span {}..{})\n{}", m, a, b, out), text);
    }
    if format!("{:?}", e) != out {
        return fail("message", "Debug and Display differ", text);
    }
    Ok(())
}

fn c07_spans(s: &mut Src) -> PropResult {
    let t = junk::text(s);
    match parse(&t) {
        Ok(_) => Ok(Case { render: String::new(), nontrivial: false, skipped: Some("accepted") }),
        Err(errors) => {
            check_errors(&t, &errors)?;
            if t.contains('\n') {
                s.label("several lines");
            }
            let nt = errors[0].start > 0 && t.lines().count() > 1;
            ok(t, nt)
        }
    }
}

/// Any span of any text.
fn c07_message(s: &mut Src) -> PropResult {
    let lines = s.below(14);
    let mut t = String::new();
    for i in 0..=lines {
        if i > 0 {
            t.push_str(s.pick(&["\n", "\n", "\n", "\r\n", "\n\n"]));
        }
        for _ in 0..s.below(5) {
            t.push_str(s.pick(&["a", " ", "foo", "é", "日本", "\t", "😀", "x = 1;", "\r", "\u{2028}", "| ", "> 1 | ", "^", "\u{301}"]));
        }
    }
    if s.chance(1, 4) {
        t.push('\n');
    }
    if s.chance(1, 12) {
        // more digits in the line numbers
        t = format!("{}{}", "\n".repeat([5, 93, 97, 990][s.below(4)] + s.below(8)), t);
    }
    let mut cut = |t: &str| {
        let mut i = s.below(t.len() + 1);
        while !t.is_char_boundary(i) {
            i -= 1;
        }
        i
    };
    let a = cut(&t);
    let b = a + cut(&t[a..]);
    set_current(&t);
    check_message(&t, a, b)?;
    let nt = a > 0 && t.lines().count() > 1;
    ok(format!("{}..{} of {:?}", a, b, t), nt)
}

/// A program up to some token, then anything: the first error is not in the program.
fn c07_prefix(s: &mut Src) -> PropResult {
    let cfg = Cfg::standard(s);
    let tree = gen::program(s, cfg);
    let o = Opts::gen(s);
    let p = print::print(&tree, s, o);
    let spans: Vec<(u32, u32)> = p.laid.spans.iter().copied().filter(|x| x.0 < x.1).collect();
    if spans.is_empty() {
        return Ok(Case { render: String::new(), nontrivial: false, skipped: Some("empty program") });
    }
    let mut i = s.below(spans.len());
    if i > 0 && &p.laid.text[spans[i].0 as usize..spans[i].1 as usize] == "." {
        // one token with the name behind it
        i -= 1;
    }
    let mut t = p.laid.text[..spans[i].1 as usize].to_string();
    let k = t.len();
    t.push(' ');
    let tail = match s.below(4) {
        0 => junk::soup(s, 8),
        1 => junk::chars(s, 8),
        2 => {
            // another place of the same program
            let j = s.below(spans.len());
            let from = spans[j].0 as usize;
            p.laid.text[from..].to_string()
        }
        _ => {
            // without one token
            let j = (i + 2).min(spans.len());
            spans.get(j).map_or(String::new(), |x| p.laid.text[x.0 as usize..].to_string())
        }
    };
    t.push_str(&tail);
    match parse(&t) {
        Ok(_) => Ok(Case { render: String::new(), nontrivial: false, skipped: Some("accepted") }),
        Err(errors) => {
            check_errors(&t, &errors)?;
            if errors[0].start < k {
                return fail("early", format!("the first error {:?} lies before {}, up to where the text begins a valid program", errors[0], k), t);
            }
            if at_end(&errors[0]) {
                s.label("end");
            }
            let nt = i >= 4;
            ok(short(&t), nt)
        }
    }
}

/// What follows the offending token does not matter.
fn c07_suffix(s: &mut Src) -> PropResult {
    let t = junk::text(s);
    let errors = match parse(&t) {
        Ok(_) => return Ok(Case { render: String::new(), nontrivial: false, skipped: Some("accepted") }),
        Err(e) => e,
    };
    let e = errors[0].clone();
    if at_end(&e) || (e.end == t.len() && e.token == Token::UnexpectedToken) || &*e.raw == "." || t[..e.end].ends_with(['\r', '\\']) {
        // "\r" and what follows it may be one line break in a string
        return Ok(Case { render: String::new(), nontrivial: false, skipped: Some("the token may go on") });
    }
    let tail = junk::text(s);
    let x = format!("{}\n;\n{}", &t[..e.end], tail);
    let other = match parse(&x) {
        Ok(_) => return fail("suffix", format!("{:?} is no error when other text follows", e), format!("{}\n--- and\n{}", t, x)),
        Err(o) => o,
    };
    if other[0] != e {
        return fail("suffix", format!("the first error is {:?}, and with other text after it {:?}", e, other[0]), format!("{}\n--- and\n{}", t, x));
    }
    let nt = e.start > 0;
    ok(short(&x), nt)
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "rejected texts whose first error is not at their start (messages: several lines); distinct texts",
        assumptions: &[
            "messages count lines by \\n (and \\r\\n) and columns in characters",
            "of a span of several lines the part on its first line is underlined",
            "that other text may follow is checked for tokens which a line break ends",
        ],
        subs: vec![
            Sub { name: "spans", quick: 500_000, thorough: 10_000_000, f: c07_spans },
            Sub { name: "message", quick: 1_000_000, thorough: 40_000_000, f: c07_message },
            Sub { name: "prefix", quick: 500_000, thorough: 10_000_000, f: c07_prefix },
            Sub { name: "suffix", quick: 500_000, thorough: 10_000_000, f: c07_suffix },
        ],
        probes: vec![],
    }
}
