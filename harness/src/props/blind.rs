//! `pbt blind N`: which shapes of trees do broken programs that are programs after all have, that
//! the generator of programs never makes? An audit of the generator, no check.
use super::common::*;
use crate::engine::*;
use crate::fromratel;
use crate::tree::{Tree, K};
use std::collections::HashMap;

fn class(t: &Tree) -> String {
    let s = t.s.as_str();
    match t.k {
        K::Num | K::BinNum => {
            let mut c = String::from("num");
            for (x, f) in [("0", s.starts_with('0') && s.len() > 1), (".", s.contains('.')), ("e", s.contains(['e', 'E']))] {
                if f {
                    c.push_str(x);
                }
            }
            c
        }
        K::Str => format!("str{}{}", &s[..1], if s.len() == 2 { "0" } else { "" }),
        K::Quasi | K::Regex => if s.is_empty() { "empty" } else { "text" }.to_string(),
        _ if super::broken::ALL_WORDS.contains(&s) && s != "a" => s.to_string(),
        _ if s.starts_with(|c: char| c.is_alphabetic() || c == '_' || c == '$') && !matches!(t.k, K::CMethod | K::Bin | K::Prefix) => "id".to_string(),
        _ if s.starts_with(['\'', '"']) => "key str".to_string(),
        _ if s.starts_with(|c: char| c.is_ascii_digit() || c == '.') => "key num".to_string(),
        _ => s.to_string(),
    }
}
fn shapes(t: &Tree, above: &str, out: &mut dyn FnMut(String)) {
    let me = format!("{:?} {}", t.k, class(t));
    let n = t.kids.len();
    for (i, k) in t.kids.iter().enumerate() {
        let it = format!("{:?} {}", k.k, class(k));
        let place = if matches!(t.k, K::List | K::Program | K::Block | K::Seq | K::Array | K::Object | K::Template) { if i + 1 == n { "last".to_string() } else { "any".to_string() } } else { i.min(2).to_string() };
        out(format!("{} / {} [{}] {}", above, me, place, it));
        if i > 0 {
            out(format!("{} : {:?} {:?}", me, t.kids[i - 1].k, k.k));
        }
        shapes(k, &format!("{:?}", t.k), out);
    }
}

pub fn blind(n: u64) -> i32 {
    let mut known: HashMap<String, u64> = HashMap::new();
    for i in 0..n {
        let mut s = Src::random(case_seed("blind", 1, i));
        let t = program(&mut s);
        shapes(&t, "", &mut |x| *known.entry(x).or_insert(0) += 1);
    }
    let mut new: HashMap<String, (u64, String)> = HashMap::new();
    let mut accepted = 0;
    for i in 0..6 * n {
        let mut s = Src::random(case_seed("blind 2", 1, i));
        let text = if i % 3 > 0 { super::broken::place_text(&mut s) } else { super::broken::edit_text(&mut s) };
        if text.len() > 4000 {
            continue;
        }
        let Ok(m) = parse(&text) else { continue };
        accepted += 1;
        let t = fromratel::module(&m);
        shapes(&t, "", &mut |x| {
            if !known.contains_key(&x) {
                let e = new.entry(x).or_insert((0, text.clone()));
                e.0 += 1;
                if text.len() < e.1.len() {
                    e.1 = text.clone();
                }
            }
        });
    }
    let mut l: Vec<_> = new.into_iter().collect();
    l.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    eprintln!("{} shapes generated, {} texts accepted, {} shapes never generated", known.len(), accepted, l.len());
    for (x, (n, t)) in l {
        println!("{}\t{}\t{}", n, x, t.replace('\n', "\\n"));
    }
    0
}
