//! C17, C19: the entry points of the wasm crate and of the node binding.
use super::common::*;
use crate::engine::*;
use crate::junk;
use crate::{Prop, Sub};
use neon::{Arg, Exports};
use ratel::error::{Error, ParseError};
use ratel_codegen::codegen;
use std::sync::OnceLock;

fn diagnostics(text: &str, errors: &[Error]) -> String {
    let all: Vec<String> = errors.iter().map(|e| ParseError::UnexpectedToken { start: e.start, end: e.end, source: text.to_string() }.to_string()).collect();
    all.join("\n")
}

struct Want {
    /// generated code, minified and pretty
    code: Result<[String; 2], String>,
    dump: [String; 2],
    json: [String; 2],
    errors: usize,
}

fn want(text: &str) -> Want {
    match parse(text) {
        Ok(m) => Want {
            code: Ok([codegen(&m, true), codegen(&m, false)]),
            dump: [format!("{:?}", m.body()), format!("{:#?}", m.body())],
            json: [serde_json::to_string(&m).unwrap(), serde_json::to_string_pretty(&m).unwrap()],
            errors: 0,
        },
        Err(e) => Want { code: Err(diagnostics(text, &e)), dump: Default::default(), json: Default::default(), errors: e.len() },
    }
}

fn same(what: &str, got: &str, want: &str, text: &str) -> Result<(), Failure> {
    if got == want {
        return Ok(());
    }
    let at = got.char_indices().zip(want.chars()).find(|((_, a), b)| a != b).map_or(got.len().min(want.len()), |((i, _), _)| i);
    let cut = |s: &str| s.char_indices().filter(|(i, _)| *i + 20 >= at).map(|(_, c)| c).take(60).collect::<String>();
    fail("differs", format!("{} returns something else than the library, from byte {} on: {:?} instead of {:?}", what, at, cut(got), cut(want)), text)
}

fn c17_wasm(s: &mut Src) -> PropResult {
    // dumps of large programs take long
    let fuel = [14, 30, 120][s.weighted(&[20, 3, 1])];
    let text = if s.chance(1, 2) { junk::valid_upto(s, fuel) } else { junk::text_upto(s, fuel) };
    let w = want(&text);
    for minify in [true, false] {
        let i = !minify as usize;
        let mode = if minify { "minified" } else { "pretty" };
        let message;
        let (code, dump, json) = match &w.code {
            Ok(c) => (&c[i], &w.dump[i], &w.json[i]),
            Err(d) => {
                message = format!("Error: {}", d);
                (&message, &message, &message)
            }
        };
        same(&format!("transform, {}", mode), &ratel_wasm::transform(&text, minify), code, &text)?;
        same(&format!("generateAST, {}", mode), &ratel_wasm::generate_ast(&text, minify), dump, &text)?;
        same(&format!("generateASTEstree, {}", mode), &ratel_wasm::generate_ast_estree(&text, minify), json, &text)?;
    }
    s.label(match w.errors {
        0 => "accepted",
        1 => "one error",
        _ => "several errors",
    });
    ok(&text, text.len() > 8 && w.errors != 1)
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "a text (a program, a broken program, a soup of tokens or characters): transform, generateAST and generateASTEstree of the wasm crate, in both modes, against the library's code, debug dump and JSON of the same text, or against `Error: ` and the rendering of every error in order. Non-trivial: longer than 8 bytes, and a program or a text with several errors.",
        assumptions: &["the wasm crate's source is built as a library for this machine; the glue wasm-bindgen generates is not run"],
        subs: vec![Sub { name: "wasm", quick: 60_000, thorough: 1_000_000, f: c17_wasm }],
        probes: vec![],
    }
}

fn exports() -> &'static Exports {
    static E: OnceLock<Exports> = OnceLock::new();
    E.get_or_init(|| Exports::new(ffi::register_exports))
}

fn arg(s: &mut Src) -> Arg {
    match s.below(6) {
        0 => Arg::Undefined,
        1 => Arg::Number(s.below(3) as f64),
        2 => Arg::Boolean(s.chance(1, 2)),
        _ => Arg::String("a".to_string()),
    }
}

fn c19_node(s: &mut Src) -> PropResult {
    let e = exports();
    // dumps of large programs take long
    let fuel = [14, 30, 120][s.weighted(&[20, 3, 1])];
    let text = if s.chance(1, 2) { junk::valid_upto(s, fuel) } else { junk::text_upto(s, fuel) };
    let name = *s.pick(&["transform", "ast", "parse"]);
    let minify = s.chance(1, 2);
    let mut args = vec![Arg::String(text.clone()), Arg::Boolean(minify)];
    if s.chance(1, 10) {
        // not what the function takes
        args = (0..s.below(3)).map(|_| arg(s)).collect();
    }
    let flag = name != "parse";
    let first = matches!(args.first(), Some(Arg::String(_)));
    let second = matches!(args.get(1), Some(Arg::Boolean(_)));
    let render = format!("{}({:?})", name, args);
    set_current(&text);
    let got = match e.call(name, &args) {
        Some(got) => got,
        None => return fail("missing", format!("there is no function {}", name), &render),
    };
    if !first || flag && !second {
        s.label("wrong arguments");
        return match got {
            Err((_, m)) if !m.is_empty() => ok(&render, false),
            _ => fail("arguments", format!("{} does not throw: {:?}", name, got), &render),
        };
    }
    let (text, minify) = match (&args[0], args.get(1)) {
        (Arg::String(t), Some(Arg::Boolean(b))) => (t.clone(), *b),
        (Arg::String(t), _) => (t.clone(), true),
        _ => unreachable!(),
    };
    let w = want(&text);
    s.label(name);
    let i = !minify as usize;
    match (&w.code, &got) {
        (Ok(c), Ok(g)) => same(
            name,
            g,
            match name {
                "transform" => &c[i],
                "ast" => &w.json[i],
                _ => &w.dump[0],
            },
            &render,
        )?,
        (Err(d), Err((kind, m))) => {
            if *kind != "TypeError" {
                return fail("kind", format!("{} throws a {}", name, kind), &render);
            }
            s.label("throws");
            same(name, m, d, &render)?
        }
        (Ok(_), Err((_, m))) => return fail("throws", format!("{} throws for a program: {}", name, m), &render),
        (Err(_), Ok(g)) => return fail("returns", format!("{} returns for a text that is no program: {:?}", name, g.chars().take(60).collect::<String>()), &render),
    }
    ok(&render, text.len() > 8 && w.errors != 1)
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "a call of transform, ast or parse of the node binding with a text (a program, a broken program, a soup of tokens or characters) and a flag, now and then with other arguments: the result against the library's code, JSON or debug dump of the text, the thrown TypeError against the rendering of every error in order. Non-trivial: the text is longer than 8 bytes, and a program or one with several errors.",
        assumptions: &["the binding's source is built against a stand-in for neon 0.3 (/verif/neonstub), with Rust values for JavaScript's"],
        subs: vec![Sub { name: "node", quick: 80_000, thorough: 1_500_000, f: c19_node }],
        probes: vec![],
    }
}
