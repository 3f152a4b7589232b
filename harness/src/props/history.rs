//! C18: results depend on the text alone.
use super::common::*;
use super::walk::{analysed, walk_text};
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::junk;
use crate::print::{self, Opts};

use crate::{Prop, Sub};
use ratel::Module;
use ratel_codegen::codegen;
use std::sync::OnceLock;

const READS: [&str; 7] = ["minify", "prettify", "serialise", "serialise prettily", "walk", "analyse", "dump"];

/// Reads that borrow the program for the rest of its life
fn borrows(k: usize) -> bool {
    k == 4 || k == 5
}

fn read<'a>(m: &'a Module<'a>, k: usize) -> String {
    match k {
        4 => walk_text(m),
        5 => analysed(m),
        _ => glance(m, k),
    }
}

fn glance(m: &Module, k: usize) -> String {
    match k {
        0 => codegen(m, true),
        1 => codegen(m, false),
        2 => serde_json::to_string(m).unwrap(),
        3 => serde_json::to_string_pretty(m).unwrap(),
        _ => format!("{:?}", m),
    }
}

/// What a program says when it is parsed for the sake of one read, and nothing else was done to it.
struct Fresh {
    text: String,
    /// the errors, if the text is no program
    errors: Option<String>,
    /// as parsed, and transformed
    reads: [Vec<String>; 2],
}

fn fresh(text: &str) -> Fresh {
    let mut f = Fresh { text: text.to_string(), errors: None, reads: Default::default() };
    for (t, reads) in f.reads.iter_mut().enumerate() {
        for k in 0..READS.len() {
            match parse(text) {
                Ok(m) => {
                    if t == 1 {
                        ratel_transformer::transform(&m);
                    }
                    reads.push(read(&m, k));
                }
                Err(e) => {
                    f.errors = Some(format!("{:?}", e));
                    return f;
                }
            }
        }
    }
    f
}

fn fresh_elsewhere(text: &str) -> Fresh {
    let text = text.to_string();
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || fresh(&text)).unwrap().join().unwrap_or_else(|_| panic!("panicked on a thread of its own: {}", last_panic()))
}

/// Texts whose results were computed before anything else happened in the process.
fn pool() -> &'static Vec<Fresh> {
    static P: OnceLock<Vec<Fresh>> = OnceLock::new();
    P.get_or_init(|| {
        (0..24)
            .map(|i| {
                let mut s = Src::random(mix(0x18, i));
                fresh(&text(&mut s))
            })
            .collect()
    })
}

fn text(s: &mut Src) -> String {
    let kind = s.weighted(&[5, 2, 1]);
    if kind == 2 {
        return junk::soup(s, 20);
    }
    let cfg = Cfg { fuel: [3, 6, 10, 25][s.weighted(&[3, 4, 3, 1])], ..Cfg::standard(s) };
    let t = gen::program(s, cfg);
    let o = Opts::gen(s);
    let mut text = print::print(&t, s, o).laid.text;
    if kind == 1 {
        junk::mutate(s, &mut text);
    } else if s.chance(1, 20) {
        // outputs of some kilobytes
        text = format!("{};\n", text).repeat(1 + 4000 / (text.len() + 1));
    }
    text
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Parse(usize),
    Read(usize, usize),
    Transform(usize),
    Move(usize, usize),
    Drop(usize),
    /// parse a text and drop it at once
    Touch(usize),
    /// another program's reads, in between
    ReadAll(usize),
}

fn op(s: &mut Src, texts: usize) -> Op {
    match s.weighted(&[5, 10, 1, 2, 2, 2, 1]) {
        0 => Op::Parse(s.below(texts)),
        1 => Op::Read(s.below(8), s.below(READS.len())),
        2 => Op::Transform(s.below(8)),
        3 => Op::Move(s.below(8), s.below(8)),
        4 => Op::Drop(s.below(8)),
        5 => Op::Touch(s.below(texts)),
        _ => Op::ReadAll(s.below(8)),
    }
}

struct Live<'a> {
    fresh: &'a Fresh,
    module: Module<'a>,
    transformed: bool,
    /// walked, analysed or transformed: that borrows a program for the rest of its life, it is
    /// not moved any more
    borrowed: bool,
}

impl<'a> Live<'a> {
    /// The program, borrowed for the rest of its life. Programs whose borrowed flag is set stay
    /// in their box until they are dropped.
    fn forever(&self) -> &'a Module<'a> {
        unsafe { std::mem::transmute::<&Module<'a>, &'a Module<'a>>(&self.module) }
    }
}

struct Bad {
    step: usize,
    why: String,
    text: String,
}

/// Run a history. At the end every program that is still alive is read once more.
fn run(texts: &[&Fresh], ops: &[Op]) -> Result<(usize, usize), Bad> {
    // boxes, so that moving a program moves it to another address
    let mut live: Vec<Box<Live>> = Vec::new();
    let (mut reads, mut most) = (0, 0);
    fn check(l: &mut Live, k: usize, step: usize) -> Result<(), Bad> {
        l.borrowed |= borrows(k);
        let got = if l.borrowed { read(l.forever(), k) } else { glance(&l.module, k) };
        let want = &l.fresh.reads[l.transformed as usize][k];
        if got != *want {
            let at = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(30)..(at + 50).min(s.len())]).into_owned();
            return Err(Bad { step, why: format!("the program says something else than when it is fresh (to {}): {:?} instead of {:?}", READS[k], cut(&got), cut(want)), text: l.fresh.text.clone() });
        }
        Ok(())
    }
    for (step, op) in ops.iter().enumerate() {
        let n = live.len();
        match *op {
            Op::Parse(i) | Op::Touch(i) => {
                let f = texts[i];
                match (parse(&f.text), &f.errors) {
                    (Ok(module), None) => {
                        if let Op::Parse(_) = *op {
                            live.push(Box::new(Live { fresh: f, module, transformed: false, borrowed: false }));
                        }
                    }
                    (Err(e), Some(want)) if format!("{:?}", e) == *want => {}
                    (Err(e), _) => return Err(Bad { step, why: format!("other errors than when fresh: {:?} instead of {:?}", e, f.errors), text: f.text.clone() }),
                    (Ok(_), Some(_)) => return Err(Bad { step, why: "accepted, but not when fresh".to_string(), text: f.text.clone() }),
                }
            }
            _ if n == 0 => {}
            Op::Read(i, k) => {
                check(&mut live[i % n], k, step)?;
                reads += 1;
            }
            Op::ReadAll(i) => {
                for k in 0..READS.len() {
                    check(&mut live[i % n], k, step)?;
                    reads += 1;
                }
            }
            Op::Transform(i) => {
                let l = &mut live[i % n];
                ratel_transformer::transform(l.forever());
                l.transformed = true;
                l.borrowed = true;
            }
            Op::Move(i, j) => {
                let l = live.remove(i % n);
                // to another address, or only to another place in the list
                let l = if l.borrowed { l } else { Box::new(*l) };
                live.insert(j % n, l);
            }
            Op::Drop(i) => {
                live.remove(i % n);
            }
        }
        most = most.max(live.len());
    }
    for l in &mut live {
        for k in 0..READS.len() {
            check(l, k, ops.len())?;
            reads += 1;
        }
    }
    Ok((reads, most))
}

fn show(texts: &[&Fresh], ops: &[Vec<Op>]) -> String {
    let mut out = String::new();
    for (i, t) in texts.iter().enumerate() {
        out.push_str(&format!("text {}: {}\n", i, t.text));
    }
    for (i, o) in ops.iter().enumerate() {
        out.push_str(&format!("thread {}: {:?}\n", i, o));
    }
    out
}

fn histories(s: &mut Src, threads: usize) -> PropResult {
    let pool = pool();
    let n = 1 + s.below(4);
    let own: Vec<Fresh> = (0..n)
        .map(|_| {
            let t = text(s);
            if s.chance(1, 4) {
                fresh_elsewhere(&t)
            } else {
                fresh(&t)
            }
        })
        .collect();
    let mut texts: Vec<&Fresh> = own.iter().collect();
    for _ in 0..s.below(3) {
        texts.push(&pool[s.below(pool.len())]);
    }
    let ops: Vec<Vec<Op>> = (0..threads)
        .map(|_| {
            let k = 2 + s.below(22);
            let mut v = vec![Op::Parse(s.below(texts.len()))];
            v.extend((0..k).map(|_| op(s, texts.len())));
            v
        })
        .collect();
    let results: Vec<Result<(usize, usize), Bad>> = if threads == 1 {
        vec![run(&texts, &ops[0])]
    } else {
        let gate = std::sync::Barrier::new(threads);
        let texts = &texts;
        std::thread::scope(|scope| {
            let hs: Vec<_> = ops
                .iter()
                .map(|o| {
                    let gate = &gate;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(scope, move || {
                            gate.wait();
                            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(texts, o)))
                                .unwrap_or_else(|_| Err(Bad { step: 0, why: format!("panicked: {}", last_panic()), text: String::new() }))
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    };
    let render = show(&texts, &ops);
    let (mut reads, mut most) = (0, 0);
    for (i, r) in results.into_iter().enumerate() {
        match r {
            Ok((r, m)) => {
                reads += r;
                most = most.max(m);
            }
            Err(b) => return fail("history", format!("thread {}, operation {}: {} in {:?}", i, b.step, b.why, b.text), render),
        }
    }
    if most >= 3 {
        s.label("three programs or more alive");
    }
    ok(render, reads >= 9 && most >= 2)
}

fn c18_history(s: &mut Src) -> PropResult {
    histories(s, 1)
}

fn c18_threads(s: &mut Src) -> PropResult {
    let n = 2 + s.below(3);
    histories(s, n)
}

pub fn c18() -> Prop {

    Prop {
        id: "C18",
        rule: "a history of parse, read (minify, prettify, serialise, walk, analyse, dump), transform, move and drop operations on several live programs, on one thread or on two to four at once: every read has to say what the same text says when it is parsed for that read alone; errors of texts that are no programs likewise. Some texts' results were computed when the process started, some on a thread of their own. Non-trivial: at least nine reads and two programs alive at once.",
        assumptions: &["schedules of the threads are those the system produces; there is no shared state to order"],
        subs: vec![
            Sub { name: "history", quick: 150_000, thorough: 3_000_000, f: c18_history },
            Sub { name: "threads", quick: 40_000, thorough: 600_000, f: c18_threads },
        ],
        probes: vec![],
    }
}
