//! Generator of programs of ratel's supported subset, as canonical trees. Everything it yields is
//! also a valid program for an independent parser (see `Cfg::free_names` for the exception).
use crate::engine::Src;
use crate::tree::{nil, t, Tree, K, K::*};

#[derive(Clone, Copy)]
pub struct Cfg {
    /// average amount of syntax
    pub fuel: usize,
    /// import declarations (module goal)
    pub imports: bool,
    /// declare names freely from a small pool (shadowing, duplicates): programs an engine would
    /// reject for early errors, but a parser that does not check them accepts
    pub free_names: bool,
    /// allow `return` outside functions
    pub top_return: bool,
    /// only constructs with an observable effect in the trace harness
    pub runnable: bool,
    /// make one thing of the program long or deep
    pub stretch: bool,
    /// how deep that may be (the dumps of trees grow with the cube of it)
    pub deepest: usize,
}

impl Cfg {
    pub fn standard(s: &mut Src) -> Cfg {
        let fuel = [6, 14, 30, 60, 120][s.weighted(&[3, 5, 5, 3, 1])];
        let imports = s.chance(1, 6);
        Cfg { fuel, imports, free_names: false, top_return: !imports && s.chance(1, 3), runnable: false, stretch: s.chance(1, 40), deepest: 12 }
    }
}

pub struct G<'a> {
    pub s: &'a mut Src,
    cfg: Cfg,
    fuel: isize,
    counter: usize,
    names: Vec<String>,
    in_func: bool,
    loops: usize,
    breakable: usize,
    labels: Vec<(String, bool)>,
    depth: usize,
    /// which of SOMETIMES have been declared
    special: u32,
}

const SOMETIMES: &[&str] = &["get", "set", "of", "from", "as", "target", "constructor", "prototype"];
pub const GLOBALS: &[&str] = &[
    "a", "b", "c", "x", "$", "_", "foo", "get", "set", "of", "from", "as", "target", "ünïcode", "日本", "newer",
    "inn", "instanceofx", "typeofs", "voids", "deletes", "ifs", "dot", "fort", "whiles", "classy", "thisx", "trues",
    "nul", "undefinedx", "vars", "lets", "consts", "returns", "tryx", "functional", "breaks", "continues", "throws",
    "switches", "cases", "defaults", "extendsx", "importx", "debuggers", "finallyx", "catchs", "elsex", "yields",
    "supers", "enums", "withs", "exports", "statics", "interfaces", "packages", "privates", "protecteds", "publics",
    "implementsx", "$1", "_$_", "aé", "xσ9", "Ab9",
    "ins", "instance", "interfac", "impor", "implement", "nulls", "ne", "fals", "truth", "typeo", "swit", "stati",
    "defaul", "delet", "debug", "exten", "expor", "fun", "fina", "conti", "cons", "cla", "cat", "ca", "el", "en",
    "pri", "pro", "pub", "pack", "sup", "thi", "thr", "tr", "un", "v", "va", "voi", "w", "wh", "wi", "y", "i", "l",
    "be", "br", "d", "e", "f", "le", "n", "p", "r", "re", "s", "u",
];
pub const KEYWORDS: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum",
    "export", "extends", "false", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "null",
    "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "let",
    "static", "yield", "implements", "interface", "package", "private", "protected", "public", "undefined",
];
pub const BINOPS: &[&str] = &[
    "+", "-", "*", "/", "%", "**", "<<", ">>", ">>>", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "&", "|", "^",
    "&&", "||", "in", "instanceof",
];
pub const ASSIGNOPS: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "^=", "|="];
const PREFIX: &[&str] = &["!", "-", "+", "~", "typeof", "void"];

impl<'a> G<'a> {
    pub fn new(s: &'a mut Src, cfg: Cfg) -> G<'a> {
        G {
            fuel: cfg.fuel as isize,
            s,
            cfg,
            counter: 0,
            names: vec![],
            in_func: cfg.top_return,
            loops: 0,
            breakable: 0,
            labels: vec![],
            depth: 0,
        special: 0,
        }
    }

    pub fn program(&mut self) -> Tree {
        let mut kids = Vec::new();
        let n = self.s.below(self.cfg.fuel / 8 + 3) + usize::from(self.cfg.fuel > 6);
        for _ in 0..n {
            if self.cfg.imports && self.s.chance(1, 3) {
                kids.push(self.import());
            } else {
                kids.push(self.stmt(true));
            }
        }
        t(Program, "", kids)
    }

    fn fresh(&mut self) -> String {
        if self.cfg.free_names {
            let pool = ["a", "b", "c", "x", "foo", "of", "get", "set", "from", "as"];
            let n = self.s.pick(&pool).to_string();
            self.names.push(n.clone());
            return n;
        }
        self.counter += 1;
        // words that are special in some places only, each once
        if self.s.chance(1, 20) {
            let i = self.s.below(SOMETIMES.len());
            if self.special >> i & 1 == 0 {
                self.special |= 1 << i;
                self.names.push(SOMETIMES[i].to_string());
                return SOMETIMES[i].to_string();
            }
        }
        let stems = ["v", "in_", "new", "é", "of", "let$", "do"];
        let n = format!("{}{}", self.s.pick(&stems), self.counter);
        self.names.push(n.clone());
        n
    }
    pub fn ident(&mut self) -> String {
        if !self.names.is_empty() && self.s.chance(1, 3) {
            let i = self.s.below(self.names.len());
            return self.names[i].clone();
        }
        // mostly short names
        if self.s.chance(1, 4) {
            self.s.pick(GLOBALS).to_string()
        } else {
            GLOBALS[self.s.below(14)].to_string()
        }
    }
    fn ident_e(&mut self) -> Tree {
        let n = self.ident();
        t(Ident, &n, vec![])
    }
    fn name(&mut self, n: &str) -> Tree {
        t(Name, n, vec![])
    }
    /// a word that differs from a special one in one letter
    fn alike(&mut self) -> String {
        let special = ["constructor", "constructor", "get", "set", "static", "of", "prototype", "function", "instanceof", "target", "use strict", "arguments", "default"];
        let mut w: Vec<char> = self.s.pick(&special).replace(' ', "_").chars().collect();
        let i = self.s.below(w.len());
        match self.s.below(5) {
            0 | 1 => w[i] = *self.s.pick(&['a', 'e', 'o', 'x', '_', '$', '1', 'é']),
            2 => w[i] = w[i].to_ascii_uppercase(),
            3 => w.insert(i, *self.s.pick(&['a', 's', '_', '$', 'é'])),
            _ => {
                w.remove(i);
            }
        }
        if w[0] == '1' {
            w[0] = 'i';
        }
        let w: String = w.into_iter().collect();
        if w == "set" || w == "get" { "sget".to_string() } else { w }
    }
    /// any word, keywords included
    pub fn word(&mut self) -> String {
        if self.s.chance(1, 3) {
            self.s.pick(KEYWORDS).to_string()
        } else if self.s.chance(1, 8) {
            let w = *self.s.pick(&["get", "set", "of", "constructors", "static", "async", "await", "eval", "arguments"]);
            if self.s.chance(1, 2) {
                w.to_string()
            } else {
                self.alike()
            }
        } else {
            self.ident()
        }
    }

    fn low(&mut self) -> bool {
        self.fuel -= 1;
        self.fuel <= 0 || self.depth > 60
    }

    // ---- literals

    pub fn number(&mut self) -> Tree {
        match self.s.below(14) {
            0 => t(Num, "1", vec![]),
            1 => t(Num, "0", vec![]),
            2 => {
                let n = self.s.below(1000);
                t(Num, &n.to_string(), vec![])
            }
            3 => t(Num, self.s.pick::<&str>(&["1.", "0.", "12."]), vec![]),
            4 => t(Num, self.s.pick::<&str>(&[".5", ".0", ".123"]), vec![]),
            5 => t(Num, self.s.pick::<&str>(&["3.14", "0.5", "10.0"]), vec![]),
            6 => t(Num, self.s.pick::<&str>(&["1e5", "1E5", "1e+5", "2E-3", "1.5e3", ".5e1", "1.e2", "0e0"]), vec![]),
            7 => {
                let n = self.s.below(1 << 31);
                let s = if self.s.chance(1, 2) { format!("0x{:x}", n) } else { format!("0X{:X}", n) };
                t(Num, &s, vec![])
            }
            8 => {
                let n = self.s.below(1 << 31);
                t(Num, &format!("{}{:o}", self.s.pick(&["0o", "0O"]), n), vec![])
            }
            9 => {
                let n = self.s.below(1 << 20);
                t(BinNum, &format!("{}{:b}", self.s.pick(&["0b", "0B"]), n), vec![])
            }
            10 => t(
                Num,
                self.s.pick::<&str>(&[
                    "2147483647",
                    "2147483648",
                    "4294967295",
                    "9007199254740993",
                    "9223372036854775808",
                    "18446744073709551616",
                    "123456789012345678901234567890",
                    "1e400",
                    "5e-324",
                    "0x7fffffff",
                    "0xffffffff",
                    "0xFFFFFFFFFFFFFFFF",
                    "0x1FFFFFFFFFFFFFFFFF",
                    "0o37777777777",
                    "0.1",
                    "0.30000000000000004",
                ]),
                vec![],
            ),
            _ => {
                let n = self.s.below(10);
                t(Num, &n.to_string(), vec![])
            }
        }
    }

    pub fn string(&mut self) -> Tree {
        let q = if self.s.chance(1, 3) { '\'' } else { '"' };
        let mut s = String::new();
        s.push(q);
        if self.s.chance(1, 16) {
            return self.special_string();
        }
        let n = self.s.weighted(&[3, 4, 3, 2, 1]);
        for _ in 0..n {
            let pieces: [&str; 28] = [
                "a", "b c", "\\n", "\\\\", "\\'", "\\\"", "é", "日本", "//", "/*", "*/", "`", "${", "}", "\\u0041",
                "\\x41", "\\u{1F600}", "😀", "\\\n", "\\0", "\u{2028}", ";", "<!--", "\\/", "{", "\t", "\\\r\n", "\u{7f}",
            ];
            s.push_str(self.s.pick::<&str>(&pieces));
        }
        if self.s.chance(1, 6) {
            s.push(if q == '\'' { '"' } else { '\'' });
        }
        s.push(q);
        t(Str, &s, vec![])
    }

    /// what means something elsewhere
    fn special_string(&mut self) -> Tree {
        let w = *self.s.pick(&[
            "constructor", "constructor", "prototype", "__proto__", "static", "get", "undefined", "null", "this", "0", "1e3", "0x1F", "-1", "use asm", "foo", "of", "as", "$", "function(){}",
        ]);
        let q = if self.s.chance(1, 3) { '\'' } else { '"' };
        t(Str, &format!("{}{}{}", q, w, q), vec![])
    }

    pub fn quasi(&mut self) -> Tree {
        let mut s = String::new();
        let n = self.s.weighted(&[4, 4, 2, 1]);
        for _ in 0..n {
            let pieces: [&str; 21] = [
                "a", " ", "$ ", "$$ ", "{", "}", "\\`", "\\${", "\n", "é日", "\\\\", "'", "\"", "//", "/*", "\\u0041", "$\\{",
                "😀", "\r\n", "\r", "\u{2028}",
            ];
            s.push_str(self.s.pick::<&str>(&pieces));
        }
        // a final unescaped $ would swallow the following ${ or not, both are fine: `a$${b}`
        if self.s.chance(1, 10) {
            s.push('$');
        }
        t(Quasi, &s, vec![])
    }

    pub fn regex(&mut self) -> Tree {
        let mut s = String::from("/");
        let n = 1 + self.s.weighted(&[4, 3, 2]);
        for i in 0..n {
            let pieces: [&str; 18] = [
                "a", "\\/", "[/]", "[^\\]/]", "(?:x|y)", "\\d+", ".", "é", "a|b", "[a-z]*", "^", "$", "\\\\", "[\\\\]",
                "\\[", "[[]", "[//]", "[^/*/]",
            ];
            let p = *self.s.pick::<&str>(&pieces);
            let _ = i;
            s.push_str(p);
        }
        s.push('/');
        let flags: [&str; 15] = ["", "g", "i", "m", "u", "y", "s", "gi", "gm", "giy", "mg", "gims", "gimsu", "yusmig", "gimsuy"];
        s.push_str(self.s.pick::<&str>(&flags));
        t(Regex, &s, vec![])
    }

    fn template(&mut self) -> Tree {
        let mut kids = vec![self.quasi()];
        let n = if self.low() { 0 } else { self.s.weighted(&[3, 3, 2, 1]) };
        for _ in 0..n {
            kids.push(self.expr());
            kids.push(self.quasi());
        }
        t(Template, "", kids)
    }

    // ---- expressions

    fn leaf(&mut self) -> Tree {
        match self.s.weighted(&[14, 5, 3, 1, 1, 1, 1, 2, 2, 1]) {
            0 => self.ident_e(),
            1 => self.number(),
            2 => self.string(),
            3 => t(True, "", vec![]),
            4 => t(False, "", vec![]),
            5 => t(Null, "", vec![]),
            6 => t(Undefined, "", vec![]),
            7 => t(This, "", vec![]),
            8 => self.regex(),
            _ => {
                let q = self.quasi();
                t(Template, "", vec![q])
            }
        }
    }

    pub fn expr(&mut self) -> Tree {
        if self.low() {
            return self.leaf();
        }
        self.depth += 1;
        let r = self.expr_in();
        self.depth -= 1;
        r
    }

    fn expr_in(&mut self) -> Tree {
        match self.s.weighted(&[22, 9, 5, 9, 4, 20, 8, 10, 3, 6, 4, 4, 5, 4, 2, 5, 4, 2, 1]) {
            0 => self.leaf(),
            1 => {
                let o = self.expr();
                let w = self.word();
                let n = self.name(&w);
                t(Member, "", vec![o, n])
            }
            2 => {
                let o = self.expr();
                let p = self.expr();
                t(CMember, "", vec![o, p])
            }
            3 => {
                let c = self.expr();
                let mut kids = vec![c];
                kids.extend(self.args());
                t(Call, "", kids)
            }
            4 => {
                let c = self.expr();
                let mut kids = vec![c];
                // `new (f())` is kept by ratel as `new (f())()`, whose tree is the same
                if self.s.chance(1, 3) && kids[0].k != Call {
                    t(New, "", kids)
                } else {
                    kids.extend(self.args());
                    t(New, "()", kids)
                }
            }
            5 => {
                let op = *self.s.pick(BINOPS);
                let l = self.expr();
                let r = self.expr();
                t(Bin, op, vec![l, r])
            }
            6 => {
                let op = if self.s.chance(1, 2) { "=" } else { *self.s.pick(ASSIGNOPS) };
                let l = if op == "=" && self.s.chance(1, 4) { self.assign_pattern(0) } else { self.simple_target() };
                let r = self.expr();
                t(Bin, op, vec![l, r])
            }
            7 => match self.s.weighted(&[6, 3, 1]) {
                0 => {
                    let op = *self.s.pick(PREFIX);
                    let x = self.expr();
                    t(Prefix, op, vec![x])
                }
                1 => {
                    let op = *self.s.pick(&["++", "--"]);
                    let x = self.simple_target();
                    t(Prefix, op, vec![x])
                }
                _ => {
                    let mut x = self.expr();
                    if x.k == Ident {
                        x = t(Member, "", vec![x, t(Name, "p", vec![])]);
                    }
                    t(Prefix, "delete", vec![x])
                }
            },
            8 => {
                let op = *self.s.pick(&["++", "--"]);
                let x = self.simple_target();
                t(Postfix, op, vec![x])
            }
            9 => {
                let a = self.expr();
                let b = self.expr();
                let c = self.expr();
                t(Cond, "", vec![a, b, c])
            }
            10 => {
                let n = 2 + self.s.weighted(&[3, 2, 1]);
                let mut kids: Vec<Tree> = Vec::new();
                for _ in 0..n {
                    kids.push(self.expr());
                }
                t(Seq, "", kids)
            }
            11 => {
                let n = self.s.weighted(&[3, 4, 3, 2]);
                let mut kids = Vec::new();
                for _ in 0..n {
                    kids.push(match self.s.weighted(&[8, 2, 1]) {
                        0 => self.expr(),
                        1 => t(Hole, "", vec![]),
                        _ => {
                            let x = self.expr();
                            t(Spread, "", vec![x])
                        }
                    });
                }
                t(Array, "", kids)
            }
            12 => self.object(),
            13 => self.function(false),
            14 => self.class(false),
            15 => self.arrow(),
            16 => self.template(),
            17 => {
                let x = self.expr();
                let q = self.template();
                t(Tagged, "", vec![x, q])
            }
            _ => {
                if self.in_func && !self.cfg.top_return {
                    t(Meta, "", vec![t(Name, "new", vec![]), t(Name, "target", vec![])])
                } else {
                    self.leaf()
                }
            }
        }
    }

    fn args(&mut self) -> Vec<Tree> {
        let n = self.s.weighted(&[3, 4, 2, 1]);
        let mut v = Vec::new();
        for _ in 0..n {
            let x = self.expr();
            v.push(if self.s.chance(1, 7) { t(Spread, "", vec![x]) } else { x });
        }
        v
    }

    fn simple_target(&mut self) -> Tree {
        match self.s.weighted(&[4, 2, 1]) {
            0 => self.ident_e(),
            1 => {
                let o = self.expr();
                let w = self.word();
                let n = self.name(&w);
                t(Member, "", vec![o, n])
            }
            _ => {
                let o = self.expr();
                let p = self.expr();
                t(CMember, "", vec![o, p])
            }
        }
    }

    /// array or object literal usable as an assignment target
    fn assign_pattern(&mut self, depth: usize) -> Tree {
        if self.s.chance(1, 2) {
            let n = self.s.weighted(&[2, 4, 3, 1]);
            let mut kids = Vec::new();
            for i in 0..n {
                if self.s.chance(1, 8) {
                    kids.push(t(Hole, "", vec![]));
                } else if i + 1 == n && self.s.chance(1, 6) {
                    let x = self.simple_target();
                    kids.push(t(Spread, "", vec![x]));
                } else {
                    kids.push(self.assign_elem(depth));
                }
            }
            t(Array, "", kids)
        } else {
            let n = self.s.weighted(&[2, 4, 3]);
            let mut kids = Vec::new();
            for i in 0..n {
                match self.s.weighted(&[3, 4, 1]) {
                    0 => {
                        let n = self.ident();
                        kids.push(t(Shorthand, &n, vec![]));
                    }
                    1 => {
                        let k = self.key();
                        let v = self.assign_elem(depth);
                        kids.push(t(Prop, "", vec![k, v]));
                    }
                    _ => {
                        if i + 1 == n {
                            let x = self.simple_target();
                            kids.push(t(PSpread, "", vec![x]));
                        }
                    }
                }
            }
            t(Object, "", kids)
        }
    }
    fn assign_elem(&mut self, depth: usize) -> Tree {
        let target = if depth < 2 && self.s.chance(1, 5) { self.assign_pattern(depth + 1) } else { self.simple_target() };
        if self.s.chance(1, 4) {
            let d = self.expr();
            t(Bin, "=", vec![target, d])
        } else {
            target
        }
    }

    pub fn key(&mut self) -> Tree {
        match self.s.weighted(&[8, 2, 2, 1, 2]) {
            0 => {
                let w = self.word();
                t(KeyLit, &w, vec![])
            }
            1 => {
                let s = self.string();
                t(KeyLit, &s.s, vec![])
            }
            2 => loop {
                let n = self.number();
                if n.k == Num {
                    break t(KeyLit, &n.s, vec![]);
                } else {
                    break t(KeyBin, &n.s, vec![]);
                }
            },
            3 => t(KeyBin, "0b101", vec![]),
            _ => {
                let e = if self.s.chance(1, 6) { self.special_string() } else { self.expr() };
                t(KeyComputed, "", vec![e])
            }
        }
    }

    fn object(&mut self) -> Tree {
        let n = self.s.weighted(&[3, 4, 3, 1]);
        let mut kids = Vec::new();
        for _ in 0..n {
            kids.push(match self.s.weighted(&[3, 6, 3, 1]) {
                0 => {
                    let n = if self.s.chance(1, 16) { "undefined".to_string() } else { self.ident() };
                    t(Shorthand, &n, vec![])
                }
                1 => {
                    let k = self.key();
                    let v = self.expr();
                    t(Prop, "", vec![k, v])
                }
                2 => {
                    let k = self.key();
                    let f = self.method_fn(None);
                    t(Method, "", vec![k, f])
                }
                _ => {
                    let v = self.expr();
                    t(PSpread, "", vec![v])
                }
            });
        }
        t(Object, "", kids)
    }

    // ---- functions and classes

    fn enter<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let saved = (self.in_func, self.loops, self.breakable, std::mem::take(&mut self.labels), self.cfg.top_return);
        self.in_func = true;
        self.loops = 0;
        self.breakable = 0;
        self.cfg.top_return = false;
        let r = f(self);
        self.in_func = saved.0;
        self.loops = saved.1;
        self.breakable = saved.2;
        self.labels = saved.3;
        self.cfg.top_return = saved.4;
        r
    }

    fn block_tree(&mut self) -> Tree {
        let n = if self.low() { 0 } else { self.s.weighted(&[3, 4, 2, 1]) };
        let mut kids = Vec::new();
        for _ in 0..n {
            kids.push(self.stmt(true));
        }
        t(Block, "", kids)
    }

    fn params(&mut self, fixed: Option<usize>) -> Tree {
        let n = fixed.unwrap_or_else(|| self.s.weighted(&[3, 4, 3, 1]));
        let mut kids = Vec::new();
        for i in 0..n {
            if fixed.is_none() && i + 1 == n && self.s.chance(1, 6) {
                let f = self.fresh();
                let nm = self.name(&f);
                kids.push(t(PRest, "", vec![nm]));
            } else {
                kids.push(self.bind_elem(0));
            }
        }
        t(List, "", kids)
    }
    fn bind_elem(&mut self, depth: usize) -> Tree {
        let p = self.bind_target(depth);
        if self.s.chance(1, 4) {
            let d = self.expr();
            t(PAssign, "", vec![p, d])
        } else {
            p
        }
    }
    fn bind_target(&mut self, depth: usize) -> Tree {
        if depth > 2 || !self.s.chance(1, 4) {
            let f = self.fresh();
            return t(PIdent, &f, vec![]);
        }
        if self.s.chance(1, 2) {
            let n = self.s.weighted(&[2, 4, 3, 1]);
            let mut kids = Vec::new();
            for _ in 0..n {
                if self.s.chance(1, 8) {
                    kids.push(t(PVoid, "", vec![]));
                } else {
                    kids.push(self.bind_elem(depth + 1));
                }
            }
            t(PArray, "", kids)
        } else {
            let kids = self.bind_props(depth);
            t(PObject, "", kids)
        }
    }
    fn bind_props(&mut self, depth: usize) -> Vec<Tree> {
        let n = self.s.weighted(&[2, 4, 3, 1]);
        let mut kids = Vec::new();
        for i in 0..n {
            match self.s.weighted(&[4, 4, 1]) {
                0 => {
                    let f = self.fresh();
                    kids.push(t(Shorthand, &f, vec![]));
                }
                1 => {
                    let k = self.key();
                    let v = self.bind_value(depth);
                    kids.push(t(Prop, "", vec![k, v]));
                }
                _ => {
                    if i + 1 == n {
                        let f = self.fresh();
                        let x = t(Ident, &f, vec![]);
                        kids.push(t(PSpread, "", vec![x]));
                    }
                }
            }
        }
        kids
    }
    /// value of a property of an object pattern: ratel represents it as an expression
    fn bind_value(&mut self, depth: usize) -> Tree {
        let target = if depth < 2 && self.s.chance(1, 4) {
            if self.s.chance(1, 2) {
                let n = self.s.weighted(&[2, 4, 3]);
                let mut kids = Vec::new();
                for i in 0..n {
                    if self.s.chance(1, 8) {
                        kids.push(t(Hole, "", vec![]));
                    } else if i + 1 == n && self.s.chance(1, 6) {
                        let f = self.fresh();
                        let x = t(Ident, &f, vec![]);
                        kids.push(t(Spread, "", vec![x]));
                    } else {
                        kids.push(self.bind_value(depth + 1));
                    }
                }
                t(Array, "", kids)
            } else {
                let kids = self.bind_props(depth + 1);
                t(Object, "", kids)
            }
        } else {
            let f = self.fresh();
            t(Ident, &f, vec![])
        };
        if self.s.chance(1, 4) {
            let d = self.expr();
            t(Bin, "=", vec![target, d])
        } else {
            target
        }
    }

    fn function(&mut self, stmt: bool) -> Tree {
        let name = if stmt || self.s.chance(1, 3) {
            let n = self.fresh();
            self.name(&n)
        } else {
            nil()
        };
        let star = self.s.chance(1, 6);
        self.enter(|g| {
            let ps = g.params(None);
            let b = g.block_tree();
            t(if stmt { FuncStmt } else { FuncExpr }, if star { "*" } else { "" }, vec![name, ps, b])
        })
    }
    fn method_fn(&mut self, params: Option<usize>) -> Tree {
        self.enter(|g| {
            let ps = g.params(params);
            let b = g.block_tree();
            t(MethodFn, "", vec![ps, b])
        })
    }
    fn arrow(&mut self) -> Tree {
        let n = self.s.weighted(&[2, 4, 2, 1]);
        // new.target and return belong to the enclosing function; arrows get their own body
        let saved = (self.in_func, self.loops, self.breakable, std::mem::take(&mut self.labels), self.cfg.top_return);
        self.loops = 0;
        self.breakable = 0;
        let mut kids = Vec::new();
        for _ in 0..n {
            let f = self.fresh();
            let p = t(PIdent, &f, vec![]);
            kids.push(if self.s.chance(1, 4) {
                let d = self.expr();
                t(PAssign, "", vec![p, d])
            } else {
                p
            });
        }
        let body = if self.s.chance(2, 5) {
            // `return` is fine in any arrow body, but new.target only in a real function
            if self.in_func {
                self.block_tree()
            } else {
                self.in_func = true;
                self.cfg.top_return = true;
                self.block_tree()
            }
        } else {
            self.expr()
        };
        self.in_func = saved.0;
        self.loops = saved.1;
        self.breakable = saved.2;
        self.labels = saved.3;
        self.cfg.top_return = saved.4;
        t(Arrow, "", vec![t(List, "", kids), body])
    }
    fn class(&mut self, stmt: bool) -> Tree {
        let name = if stmt || self.s.chance(1, 3) {
            let n = self.fresh();
            self.name(&n)
        } else {
            nil()
        };
        let ext = if self.s.chance(1, 3) { self.expr() } else { nil() };
        let n = self.s.weighted(&[2, 4, 3, 1]);
        let mut ms = Vec::new();
        let mut has_ctor = false;
        for _ in 0..n {
            let is_static = self.s.chance(1, 4);
            let pre = if is_static { "static " } else { "" };
            match self.s.weighted(&[5, 2, 2, 2, 2]) {
                0 => {
                    let k = self.class_key(is_static);
                    let f = self.method_fn(None);
                    ms.push(t(CMethod, &format!("{}method", pre), vec![k, f]));
                }
                1 => {
                    if !has_ctor {
                        has_ctor = true;
                        let f = self.method_fn(None);
                        ms.push(t(CMethod, "constructor", vec![t(KeyLit, "constructor", vec![]), f]));
                    } else {
                        // a static method may be called constructor
                        let f = self.method_fn(None);
                        ms.push(t(CMethod, "static method", vec![t(KeyLit, "constructor", vec![]), f]));
                    }
                }
                2 => {
                    let w = self.class_word(true);
                    let f = self.method_fn(Some(0));
                    ms.push(t(CMethod, &format!("{}get", pre), vec![t(KeyLit, &w, vec![]), f]));
                }
                3 => {
                    let w = self.class_word(true);
                    let f = self.method_fn(Some(1));
                    ms.push(t(CMethod, &format!("{}set", pre), vec![t(KeyLit, &w, vec![]), f]));
                }
                _ => {
                    let k = self.class_key(is_static);
                    let saved = std::mem::replace(&mut self.in_func, true);
                    let saved_top = std::mem::replace(&mut self.cfg.top_return, false);
                    let v = self.expr();
                    self.in_func = saved;
                    self.cfg.top_return = saved_top;
                    ms.push(t(CField, if is_static { "static" } else { "" }, vec![k, v]));
                }
            }
        }
        t(if stmt { ClassStmt } else { ClassExpr }, "", vec![name, ext, t(ClassBody, "", ms)])
    }
    /// `after`: another word comes before it
    fn class_word(&mut self, after: bool) -> String {
        loop {
            if after && self.s.chance(1, 12) {
                return "static".to_string();
            }
            let w = self.word();
            if w == "static" || w == "constructor" || w == "prototype" {
                return "m".to_string();
            }
            return w;
        }
    }
    fn class_key(&mut self, after: bool) -> Tree {
        match self.s.weighted(&[8, 2, 1, 2]) {
            0 => {
                let w = self.class_word(after);
                t(KeyLit, &w, vec![])
            }
            1 => {
                let n = self.number();
                t(if n.k == Num { KeyLit } else { KeyBin }, &n.s, vec![])
            }
            2 => t(KeyBin, "0b11", vec![]),
            _ => {
                let e = if self.s.chance(1, 6) { self.special_string() } else { self.expr() };
                t(KeyComputed, "", vec![e])
            }
        }
    }

    // ---- statements

    fn import(&mut self) -> Tree {
        let mut kids = Vec::new();
        if self.s.chance(1, 2) {
            let f = self.fresh();
            let n = self.name(&f);
            kids.push(t(ImpDefault, "", vec![n]));
        }
        match self.s.weighted(&[2, 2, 3]) {
            0 => {}
            1 => {
                let f = self.fresh();
                let n = self.name(&f);
                kids.push(t(ImpNs, "", vec![n]));
            }
            _ => {
                let n = 1 + self.s.below(3);
                for _ in 0..n {
                    let f = self.fresh();
                    let imported = if self.s.chance(1, 2) { self.ident() } else { f.clone() };
                    let a = self.name(&imported);
                    let b = self.name(&f);
                    kids.push(t(ImpSpec, "", vec![a, b]));
                }
            }
        }
        let srcs: [&str; 7] = ["mod", "./a/b.js", "", "it's", "say \"x\"", "é", "a\\n"];
        let s = *self.s.pick::<&str>(&srcs);
        t(Import, s, kids)
    }

    fn ends_with_open_if(x: &Tree) -> bool {
        match x.k {
            If => x.kids[2].k == Nil || Self::ends_with_open_if(&x.kids[2]),
            While => Self::ends_with_open_if(&x.kids[1]),
            For => Self::ends_with_open_if(&x.kids[3]),
            ForIn | ForOf => Self::ends_with_open_if(&x.kids[2]),
            Labeled => Self::ends_with_open_if(&x.kids[0]),
            _ => false,
        }
    }

    fn body(&mut self, is_loop: bool) -> Tree {
        if is_loop {
            self.loops += 1;
            self.breakable += 1;
        }
        let r = if self.s.chance(1, 2) { self.block_tree() } else { self.stmt(false) };
        if is_loop {
            self.loops -= 1;
            self.breakable -= 1;
        }
        r
    }

    fn decl(&mut self, kind: &str, for_head: bool) -> Tree {
        let n = if for_head { 1 } else { 1 + self.s.weighted(&[5, 2, 1]) };
        let mut ds = Vec::new();
        for _ in 0..n {
            let p = self.bind_target(0);
            let init = if for_head {
                nil()
            } else if kind == "const" || p.k != PIdent || self.s.chance(2, 3) {
                self.expr()
            } else {
                nil()
            };
            ds.push(t(Declarator, "", vec![p, init]));
        }
        t(Decl, kind, ds)
    }

    /// statement; `list`: in a statement list, where declarations may stand
    pub fn stmt(&mut self, list: bool) -> Tree {
        if self.low() {
            let x = self.leaf();
            return t(ExprStmt, "", vec![x]);
        }
        self.depth += 1;
        let r = self.stmt_in(list);
        self.depth -= 1;
        r
    }

    fn stmt_in(&mut self, list: bool) -> Tree {
        match self.s.weighted(&[20, 8, 5, 5, 3, 2, 3, 4, 3, 3, 3, 3, 3, 3, 4, 3, 4, 3, 1, 2]) {
            0 => {
                let x = self.expr();
                t(ExprStmt, "", vec![x])
            }
            1 => {
                let kind = if list { *self.s.pick(&["var", "let", "const"]) } else { "var" };
                self.decl(kind, false)
            }
            2 => {
                if self.in_func {
                    let v = if self.s.chance(2, 3) { self.expr() } else { nil() };
                    t(Return, "", vec![v])
                } else {
                    let x = self.expr();
                    t(ExprStmt, "", vec![x])
                }
            }
            3 => {
                let c = self.expr();
                let a = self.body(false);
                let (a, b) = if self.s.chance(1, 2) {
                    let a = if Self::ends_with_open_if(&a) { t(Block, "", vec![a]) } else { a };
                    (a, self.body(false))
                } else {
                    (a, nil())
                };
                t(If, "", vec![c, a, b])
            }
            4 => {
                let c = self.expr();
                let b = self.body(true);
                t(While, "", vec![c, b])
            }
            5 => {
                let b = self.body(true);
                let c = self.expr();
                t(Do, "", vec![b, c])
            }
            6 => {
                let i = match self.s.below(3) {
                    0 => nil(),
                    1 => {
                        let k = *self.s.pick(&["var", "let", "const"]);
                        self.decl(k, false)
                    }
                    _ => self.expr(),
                };
                let c = if self.s.chance(2, 3) { self.expr() } else { nil() };
                let u = if self.s.chance(2, 3) { self.expr() } else { nil() };
                let b = self.body(true);
                t(For, "", vec![i, c, u, b])
            }
            7 => {
                let k = if self.s.chance(1, 2) { ForIn } else { ForOf };
                let l = match self.s.weighted(&[3, 2, 1]) {
                    0 => {
                        let kind = *self.s.pick(&["var", "let", "const"]);
                        self.decl(kind, true)
                    }
                    1 => self.simple_target(),
                    _ => self.assign_pattern(0),
                };
                let r = self.expr();
                let b = self.body(true);
                t(k, "", vec![l, r, b])
            }
            8 => {
                let b = self.block_tree();
                let h = self.s.below(3);
                let handler = if h != 1 {
                    let p = self.bind_target(0);
                    let b = self.block_tree();
                    t(Catch, "", vec![p, b])
                } else {
                    nil()
                };
                let fin = if h != 0 { self.block_tree() } else { nil() };
                t(Try, "", vec![b, handler, fin])
            }
            9 => self.block_tree(),
            10 => {
                let pool = ["l1", "a", "lbl", "of", "get", "é", "newl"];
                let l = self.s.pick(&pool).to_string();
                if self.labels.iter().any(|x| x.0 == l) {
                    let x = self.expr();
                    return t(ExprStmt, "", vec![x]);
                }
                let is_loop = self.s.chance(1, 2);
                self.labels.push((l.clone(), is_loop));
                let b = if is_loop {
                    let c = self.expr();
                    match self.s.below(3) {
                        0 => {
                            let b = self.body(true);
                            t(While, "", vec![c, b])
                        }
                        1 => {
                            let b = self.body(true);
                            t(Do, "", vec![b, c])
                        }
                        _ => {
                            let b = self.body(true);
                            t(For, "", vec![nil(), c, nil(), b])
                        }
                    }
                } else {
                    self.body(false)
                };
                self.labels.pop();
                t(Labeled, &l, vec![b])
            }
            11 => {
                let d = self.expr();
                let n = self.s.weighted(&[1, 3, 3, 1]);
                let default = if self.s.chance(1, 2) { self.s.below(n + 1) } else { usize::MAX };
                self.breakable += 1;
                let mut cases = Vec::new();
                for i in 0..n {
                    let test = if i == default { nil() } else { self.expr() };
                    let mut kids = vec![test];
                    let m = self.s.weighted(&[3, 4, 2]);
                    for _ in 0..m {
                        kids.push(self.stmt(true));
                    }
                    cases.push(t(Case, "", kids));
                }
                self.breakable -= 1;
                t(Switch, "", vec![d, t(Cases, "", cases)])
            }
            12 => {
                let ls: Vec<String> = self.labels.iter().map(|x| x.0.clone()).collect();
                if !ls.is_empty() && self.s.chance(1, 2) {
                    let l = self.s.pick(&ls).clone();
                    let n = self.name(&l);
                    t(Break, "", vec![n])
                } else if self.breakable > 0 {
                    t(Break, "", vec![nil()])
                } else {
                    t(Empty, "", vec![])
                }
            }
            13 => {
                let ls: Vec<String> = self.labels.iter().filter(|x| x.1).map(|x| x.0.clone()).collect();
                if !ls.is_empty() && self.s.chance(1, 2) {
                    let l = self.s.pick(&ls).clone();
                    let n = self.name(&l);
                    t(Continue, "", vec![n])
                } else if self.loops > 0 {
                    t(Continue, "", vec![nil()])
                } else {
                    t(Empty, "", vec![])
                }
            }
            14 => {
                if list {
                    self.function(true)
                } else {
                    self.block_tree()
                }
            }
            15 => {
                if list {
                    self.class(true)
                } else {
                    self.block_tree()
                }
            }
            16 => {
                let x = self.expr();
                let y = self.simple_target();
                t(ExprStmt, "", vec![t(Bin, "=", vec![y, x])])
            }
            17 => {
                let x = self.expr();
                t(Throw, "", vec![x])
            }
            18 => t(Debugger, "", vec![]),
            _ => t(Empty, "", vec![]),
        }
    }
}

/// A program and its printed form.
pub fn program(s: &mut Src, cfg: Cfg) -> Tree {
    let mut g = G::new(s, cfg);
    let mut t = g.program();
    if cfg.stretch {
        s.label("long or deep");
        for _ in 0..1 + s.weighted(&[4, 1]) {
            stretch(&mut t, s, cfg.deepest);
        }
    }
    t
}

/// Lists, chains, nesting and tokens much longer than random choice makes them.
fn stretch(root: &mut Tree, s: &mut Src, deepest: usize) {
    let n = [5, 9, 17, 33, 70, 130, 257, 1100, 4100][s.weighted(&[3, 4, 4, 4, 4, 3, 3, 2, 1])];
    let tag = s.pick(&["w", "long_", "é"]).to_string();
    let mut places = Vec::new();
    let kind = s.below(4);
    fn find(t: &Tree, parent: K, path: &mut Vec<usize>, kind: usize, out: &mut Vec<Vec<usize>>) {
        let fits = match kind {
            0 => match t.k {
                Program | Block | Case | Array | Object | PObject | PArray | Template | Seq | ClassBody | Cases => true,
                Call => true,
                New => t.s == "()",
                List => matches!(parent, Arrow | FuncExpr | FuncStmt),
                Decl => !matches!(parent, ForIn | ForOf),
                _ => false,
            },
            // an expression in a place where any can stand
            1 | 2 => matches!(t.k, ExprStmt | Return | Throw | If | Switch) && t.kids.first().is_some_and(|k| !matches!(k.k, Nil | Str)),
            _ => matches!(t.k, Ident | PIdent | Shorthand | Str | Quasi | Regex) || t.k == Name && parent == Member,
        };
        if fits {
            out.push(path.clone());
        }
        for (i, k) in t.kids.iter().enumerate() {
            path.push(i);
            find(k, t.k, path, kind, out);
            path.pop();
        }
    }
    find(root, Nil, &mut vec![], kind, &mut places);
    if places.is_empty() {
        return;
    }
    // lists of every kind alike
    let path = s.pick(&places).clone();
    let mut at = root;
    for i in path {
        at = &mut at.kids[i];
    }
    let t1 = |k: K, x: &str| t(k, x, vec![]);
    let ident = |i: usize| t1(Ident, &format!("{}{}", tag, i));
    match kind {
        0 => {
            let mut kids = std::mem::take(&mut at.kids);
            // where new members can stand: not behind a rest, nor in front of a callee
            let lo = match at.k {
                Call | New | Case => 1,
                Program | Block | Template | Decl => kids.len(),
                _ => 0,
            };
            let rest = kids.last().is_some_and(|k| matches!(k.k, Spread | PSpread | PRest));
            let hi = kids.len() - usize::from(rest);
            let p = lo.min(hi) + s.below(hi - lo.min(hi) + 1);
            let mut new = Vec::new();
            for i in 0..n {
                match at.k {
                    Program | Block | Case => new.push(t(ExprStmt, "", vec![ident(i)])),
                    Object | PObject => new.push(t1(Shorthand, &format!("{}{}", tag, i))),
                    PArray | List => new.push(t1(PIdent, &format!("{}{}", tag, i))),
                    Template => {
                        new.push(ident(i));
                        new.push(t1(Quasi, &i.to_string()));
                    }
                    ClassBody => new.push(t(CMethod, "method", vec![t1(KeyLit, &format!("{}{}", tag, i)), t(MethodFn, "", vec![t(List, "", vec![]), t(Block, "", vec![])])])),
                    Cases => new.push(t(Case, "", vec![t1(Num, &i.to_string())])),
                    Decl => new.push(t(Declarator, "", vec![t1(PIdent, &format!("{}{}", tag, i)), t1(Num, &i.to_string())])),
                    _ => new.push(ident(i)),
                }
            }
            kids.splice(p..p, new);
            at.kids = kids;
        }
        1 | 2 => {
            // deep; the kinds of chains that are long and not deep in practice get longer
            let (chain, n) = if kind == 1 { (true, n.min(deepest)) } else { (false, n.min(deepest).min(120)) };
            let one = if s.chance(1, 2) { Some(s.below(12)) } else { None };
            let mut e = at.kids[0].clone();
            for i in 0..n {
                let w = ident(i);
                let how = one.unwrap_or_else(|| s.below(12));
                let operand = matches!(e.k, Ident | Num | Member | CMember | Call | This | Array);
                e = if chain {
                    match how {
                        0 if operand => t(Member, "", vec![e, t1(Name, &format!("{}{}", tag, i))]),
                        1 if operand => t(Call, "", vec![e, w]),
                        2 if operand => t(CMember, "", vec![e, w]),
                        3 => t(Bin, "=", vec![w, e]),
                        4 => t(Cond, "", vec![w.clone(), w, e]),
                        5 => t(Bin, "&&", vec![e, w]),
                        6 => t(Bin, "**", vec![w, e]),
                        7 => t(Bin, "-", vec![e, w]),
                        8 => t(Bin, "in", vec![e, w]),
                        9 => t(Prefix, "!", vec![e]),
                        _ => t(Bin, *s.pick(&["+", "*", "==", ">>", "|"]), vec![e, w]),
                    }
                } else {
                    match how {
                        0 => t(Array, "", vec![e]),
                        1 => t(Call, "", vec![w, e]),
                        2 => t(Object, "", vec![t(Prop, "", vec![t1(KeyLit, "k"), e])]),
                        3 => t(Arrow, "", vec![t(List, "", vec![t1(PIdent, &format!("{}{}", tag, i))]), e]),
                        4 => t(FuncExpr, "", vec![nil(), t(List, "", vec![]), t(Block, "", vec![t(Return, "", vec![e])])]),
                        5 => t(Template, "", vec![t1(Quasi, "a"), e, t1(Quasi, "")]),
                        6 => t(CMember, "", vec![w, e]),
                        7 => t(Bin, "-", vec![w, e]),
                        8 => t(Prefix, *s.pick(&["-", "!", "typeof", "void"]), vec![e]),
                        9 => t(Arrow, "", vec![t(List, "", vec![]), t(Block, "", vec![t(ExprStmt, "", vec![e])])]),
                        10 => t(FuncExpr, "", vec![nil(), t(List, "", vec![]), t(Block, "", vec![t(If, "", vec![w.clone(), t(Block, "", vec![t(ExprStmt, "", vec![e])]), t(Block, "", vec![t(ExprStmt, "", vec![w])])])])]),
                        _ => t(Cond, "", vec![e, w.clone(), w]),
                    }
                };
            }
            at.kids[0] = e;
        }
        _ => {
            let long = "x".repeat([n, 60 * n][s.weighted(&[8, 1])]);
            match at.k {
                Str | Regex => at.s.insert_str(1, &long),
                Quasi => at.s.insert_str(0, &long),
                _ => at.s.push_str(&long),
            }
        }
    }
}
