//! C12 the JSON mirrors the tree, C13 literals in it.
use super::common::*;
use crate::engine::*;
use crate::fromjson::{self, Dialect};
use crate::fromratel;
use crate::gen::{Cfg, G};
use crate::json::{self, J};
use crate::print::{self, Opts};
use crate::tree::*;
use crate::{Prop, Sub};

fn source(s: &mut Src) -> (Tree, String) {
    let t = program(s);
    let o = Opts::gen(s);
    let p = print::print(&t, s, o);
    (t, p.laid.text)
}

pub fn serialise(m: &ratel::Module, text: &str) -> Result<(String, J), Failure> {
    let js = match serde_json::to_string(m) {
        Ok(x) => x,
        Err(e) => return fail("error", format!("serialising fails: {}", e), text),
    };
    match json::parse(&js) {
        Ok(j) => Ok((js, j)),
        Err(e) => fail("malformed", e, format!("{}\n=== JSON ===\n{}", text, js)),
    }
}

fn mirror(t: &Tree, text: &str) -> PropResult {
    let m = match parse(text) {
        Ok(m) => m,
        Err(_) => return Ok(Case { render: text.to_string(), nontrivial: false, skipped: Some("rejected (see C04)") }),
    };
    let mut a = fromratel::module(&m);
    fromjson::as_ratel_json(&mut a);
    let (js, j) = serialise(&m, text)?;
    let render = || format!("{}\n=== JSON ===\n{}", text, js);
    match fromjson::program(&j, Dialect::Ratel) {
        Err(e) => fail("shape", e, render()),
        Ok(b) => {
            let mut b = b;
            fromjson::as_estree(&mut b);
            if a.loc != b.loc {
                return fail("location", format!("the program is located at {:?}, its statements at {:?}", b.loc, a.loc), render());
            }
            match diff(&a, &b, true) {
                Some(d) => fail("tree", format!("tree and JSON differ: {}", d), render()),
                None => ok(text, t.count() >= 8 && t.depth() >= 4),
            }
        }
    }
}

fn c12_program(s: &mut Src) -> PropResult {
    let (t, text) = source(s);
    mirror(&t, &text)
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "a random program in a random layout is parsed and serialised; the JSON is read back by a strict reader (every node exactly the fields of its type, no repeated keys) into a tree that has to equal the one read through the AST API, locations included. Non-trivial: at least 8 nodes and depth 4.",
        assumptions: &["the JSON dialect the repository's tests fix: labels and import sources are strings, shorthand properties are identifiers, object patterns have `keys`, holes at the end of an array literal are left out, `new X` has an empty argument list, template elements are located one byte inside their delimiters"],
        subs: vec![Sub { name: "mirror", quick: 400_000, thorough: 2_000_000, f: c12_program }],
        probes: vec![],
    }
}

// ---- C13

/// exact value of a literal, computed without the code under test
pub fn number_value(raw: &str) -> f64 {
    let b = raw.as_bytes();
    let radix = |digits: &str, r: u32| -> f64 {
        // big decimal digits, least significant first
        let mut dec: Vec<u32> = vec![0];
        for c in digits.chars() {
            let mut carry = c.to_digit(r).expect("digit");
            for d in dec.iter_mut() {
                let x = *d * r + carry;
                *d = x % 10;
                carry = x / 10;
            }
            while carry > 0 {
                dec.push(carry % 10);
                carry /= 10;
            }
        }
        let text: String = dec.iter().rev().map(|d| char::from(b'0' + *d as u8)).collect();
        text.parse().unwrap()
    };
    match b.get(1) {
        Some(b'x' | b'X') => radix(&raw[2..], 16),
        Some(b'o' | b'O') => radix(&raw[2..], 8),
        Some(b'b' | b'B') => radix(&raw[2..], 2),
        Some(_) if b[0] == b'0' && b.iter().all(|c| (b'0'..=b'7').contains(c)) => radix(&raw[1..], 8),
        _ => {
            let mut t = raw.replace(".e", ".0e").replace(".E", ".0E");
            if t.ends_with('.') {
                t.push('0');
            }
            if t.starts_with('.') {
                t.insert(0, '0');
            }
            t.parse().expect("number")
        }
    }
}

pub fn regex_parts(raw: &str) -> (&str, &str) {
    let b = raw.as_bytes();
    let (mut i, mut class) = (1, false);
    loop {
        match b[i] {
            b'\\' => i += 1,
            b'[' => class = true,
            b']' => class = false,
            b'/' if !class => return (&raw[1..i], &raw[i + 1..]),
            _ => {}
        }
        i += 1;
    }
}

/// checks one literal of the JSON; returns its text
fn literal(j: &J, text: &str) -> Result<String, String> {
    let off = |k: &str| match j.get(k) {
        Some(J::Num(n)) => n.parse::<usize>().map_err(|_| "offset".to_string()),
        _ => Err("offset".to_string()),
    };
    let (start, end) = (off("start")?, off("end")?);
    if j.get("type").unwrap().str() == Some("TemplateElement") {
        let v = j.get("value").ok_or("no value")?;
        let raw = v.get("raw").and_then(|x| x.str()).ok_or("no raw text")?;
        let cooked = v.get("cooked").and_then(|x| x.str()).ok_or("no cooked text")?;
        if text.get(start..start + raw.len()) != Some(raw) {
            return Err(format!("raw text {:?} is not the source at {}", raw, start));
        }
        if !raw.contains('\\') && cooked != raw.replace("\r\n", "\n").replace('\r', "\n") {
            return Err(format!("the value of the template piece {:?} is {:?}", raw, cooked));
        }
        return Ok(raw.to_string());
    }
    let raw = j.get("raw").and_then(|x| x.str()).ok_or("no raw text")?;
    if text.get(start..end) != Some(raw) {
        return Err(format!("raw text {:?} is not the source at {}..{}", raw, start, end));
    }
    let v = j.get("value");
    let first = raw.as_bytes()[0];
    let good = match first {
        b'"' | b'\'' => match v {
            Some(J::Str(x)) => raw.contains('\\') || *x == raw[1..raw.len() - 1],
            _ => false,
        },
        b'/' => match j.get("regex") {
            Some(J::Obj(o)) => {
                let (p, f) = regex_parts(raw);
                o.len() == 2
                    && j.get("regex").unwrap().get("pattern").and_then(|x| x.str()) == Some(p)
                    && j.get("regex").unwrap().get("flags").and_then(|x| x.str()) == Some(f)
            }
            _ => false,
        },
        b'0'..=b'9' | b'.' => {
            let want = number_value(raw);
            match v {
                Some(J::Num(n)) => n.parse::<f64>() == Ok(want),
                Some(J::Null) => want.is_infinite(),
                _ => false,
            }
        }
        _ => match raw {
            "null" => v == Some(&J::Null),
            "true" => v == Some(&J::Bool(true)),
            "false" => v == Some(&J::Bool(false)),
            "undefined" => v.is_none(),
            _ => false,
        },
    };
    if good {
        Ok(raw.to_string())
    } else {
        Err(format!("a literal with text {:?} is {}", raw, j.show()))
    }
}

fn collect<'a>(j: &'a J, out: &mut Vec<&'a J>) {
    match j {
        J::Arr(v) => v.iter().for_each(|x| collect(x, out)),
        J::Obj(o) => {
            if matches!(j.get("type").and_then(|x| x.str()), Some("Literal" | "TemplateElement")) {
                out.push(j);
            } else {
                o.iter().for_each(|x| collect(&x.1, out));
            }
        }
        _ => {}
    }
}

fn literals(text: &str, want: &mut Vec<String>, nontrivial: usize) -> PropResult {
    let m = match parse(text) {
        Ok(m) => m,
        Err(_) => return Ok(Case { render: text.to_string(), nontrivial: false, skipped: Some("rejected (see C04)") }),
    };
    let (js, j) = serialise(&m, text)?;
    let render = || format!("{}\n=== JSON ===\n{}", text, js);
    let mut all = Vec::new();
    collect(&j, &mut all);
    let mut got = Vec::new();
    for l in all {
        match literal(l, text) {
            Ok(raw) => got.push(raw),
            Err(e) => return fail("literal", e, render()),
        }
    }
    got.sort();
    want.sort();
    if got != *want {
        return fail("missing", format!("the literals of the JSON are {:?}, expected {:?}", got, want), render());
    }
    ok(text, want.len() >= nontrivial)
}

fn literal_texts(t: &Tree, out: &mut Vec<String>) {
    use K::*;
    match t.k {
        Num | BinNum | Str | Regex | Quasi => out.push(t.s.clone()),
        Null => out.push("null".into()),
        True => out.push("true".into()),
        False => out.push("false".into()),
        Undefined => out.push("undefined".into()),
        KeyBin => out.push(t.s.clone()),
        KeyLit if matches!(t.s.as_bytes()[0], b'"' | b'\'' | b'.' | b'0'..=b'9') => out.push(t.s.clone()),
        _ => {}
    }
    t.kids.iter().for_each(|k| literal_texts(k, out));
}

fn c13_program(s: &mut Src) -> PropResult {
    let (t, text) = source(s);
    let mut want = Vec::new();
    literal_texts(&t, &mut want);
    literals(&text, &mut want, 3)
}

fn digits(s: &mut Src, set: &str, max: usize) -> String {
    let n = 1 + s.below(max);
    let set: Vec<char> = set.chars().collect();
    (0..n).map(|_| *s.pick(&set)).collect()
}

/// literals of every notation and size, in every position a literal can have
fn c13_literals(s: &mut Src) -> PropResult {
    let n = 1 + s.below(4);
    let mut text = String::new();
    let mut want = Vec::new();
    for _ in 0..n {
        let max = *s.pick(&[3, 12, 25, 70]);
        let lit = match s.below(12) {
            0 => digits(s, "0123456789", 3),
            1 => format!("{}{}", s.pick::<&str>(&["0x", "0X"]), digits(s, "0123456789abcdefABCDEF", max)),
            2 => format!("{}{}", s.pick::<&str>(&["0o", "0O"]), digits(s, "01234567", max)),
            3 => format!("{}{}", s.pick::<&str>(&["0b", "0B"]), digits(s, "01", max * 3)),
            4 => format!("{}{}", s.pick(&[1, 2, 9]), digits(s, "0123456789", max)),
            5 => {
                let int = if s.chance(1, 4) { "0".to_string() } else { format!("{}{}", s.pick(&[1, 5, 9]), digits(s, "0123456789", max)) };
                let mut x = match s.below(3) {
                    0 => format!("{}.{}", int, digits(s, "0123456789", max)),
                    1 => format!(".{}", digits(s, "0123456789", max)),
                    _ => format!("{}.", int),
                };
                if s.chance(1, 2) {
                    x.push_str(&format!("{}{}{}", s.pick(&['e', 'E']), s.pick::<&str>(&["", "+", "-"]), s.below(400)));
                }
                x
            }
            6 => format!("{}{}{}{}", s.pick(&[0, 1, 7, 42]), s.pick(&['e', 'E']), s.pick::<&str>(&["", "+", "-"]), s.below(330)),
            // next to a power of two
            7 => {
                let p = 1u128 << s.below(127);
                let x = match s.below(3) {
                    0 => p,
                    1 => p - 1,
                    _ => p + 1,
                };
                match s.below(3) {
                    0 => format!("{}", x),
                    1 => format!("0x{:x}", x),
                    _ => format!("0b{:b}", x),
                }
            }
            k => {
                let cfg = Cfg::standard(s);
                let mut g = G::new(s, cfg);
                match k {
                    8 => g.string().s,
                    9 => g.regex().s,
                    10 => {
                        let q = g.quasi().s;
                        want.push(q.clone());
                        format!("`{}`", q)
                    }
                    _ => g.s.pick::<&str>(&["true", "false", "null", "undefined"]).to_string(),
                }
            }
        };
        let c = lit.as_bytes()[0];
        if c != b'`' {
            want.push(lit.clone());
        }
        let key = matches!(c, b'0'..=b'9' | b'.' | b'"' | b'\'');
        match s.below(9) {
            0 => text.push_str(&format!("x = {} ;\n", lit)),
            1 => text.push_str(&format!("f ( {} ) ;\n", lit)),
            2 => text.push_str(&format!("a [ {} ] ;\n", lit)),
            3 if key => text.push_str(&format!("x = {{ {} : y }} ;\n", lit)),
            4 => text.push_str(&format!("function f ( p = {} ) {{ }}\n", lit)),
            5 => text.push_str(&format!("class C {{ p = {} ; }}\n", lit)),
            6 => {
                want.push(String::new());
                want.push(String::new());
                text.push_str(&format!("`${{ {} }}` ;\n", lit))
            }
            7 => text.push_str(&format!("switch ( x ) {{ case {} : }}\n", lit)),
            _ => text.push_str(&format!("[ {} ] ;\n", lit)),
        }
    }
    literals(&text, &mut want, 1)
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "literals: one to four literals of random notation and size (all number bases up to 210 digits, values next to powers of two, strings, regular expressions, templates, keywords) in random positions; program: all literals of random programs. Each literal of the JSON must carry the source text at its location and, for numbers (by exact big-integer conversion), booleans, null and escape-free strings and templates, its value; for regular expressions pattern and flags. The multiset of literals must be that of the program. Non-trivial: at least one (three for programs) literals.",
        assumptions: &["decimal digits are converted by Rust's correctly rounding f64 parser", "numbers that overflow to Infinity are null in JSON"],
        subs: vec![
            Sub { name: "literals", quick: 1_500_000, thorough: 6_000_000, f: c13_literals },
            Sub { name: "program", quick: 200_000, thorough: 1_000_000, f: c13_program },
        ],
        probes: vec![],
    }
}
