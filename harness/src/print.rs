//! Canonical tree -> token list with the expected source location of every node, and token list ->
//! text in several layouts.
use crate::engine::Src;
use crate::tree::{tl, Tree, K::*};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TK {
    Word,
    Num,
    Punct,
    Str,
    Template,
    Regex,
}

/// What can follow a statement whose semicolon is missing.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ends {
    /// an expression that the next line may continue
    Open,
    /// a postfix operator: neither a call, an index nor a template can follow
    Postfix,
    /// nothing can follow
    Closed,
    /// nothing can follow, and no line break is needed
    DoWhile,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    pub kind: TK,
    /// restricted production: no line break may stand in front
    pub no_nl: bool,
    /// a statement-terminating semicolon that insertion may supply
    pub semi: bool,
    /// what may not continue the statement that ends before this semicolon
    pub ends: Ends,
    /// a comma that may be left out
    pub opt: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Compact,
    Spaced,
    Lines,
    Wild,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub mode: Mode,
    /// redundant parentheses with probability parens/16
    pub parens: usize,
    /// drop semicolons where insertion supplies them, with probability asi/8
    pub asi: usize,
    /// exotic white space (NBSP, BOM, LS, PS, VT, FF, CR) in Wild mode
    pub exotic: bool,
    /// now and then a huge gap
    pub room: bool,
}

impl Opts {
    pub fn plain() -> Opts {
        Opts { mode: Mode::Spaced, parens: 0, asi: 0, exotic: false, room: true }
    }
    pub fn gen(s: &mut Src) -> Opts {
        let mode = [Mode::Spaced, Mode::Compact, Mode::Lines, Mode::Wild][s.weighted(&[2, 2, 2, 4])];
        Opts { mode, parens: [0, 1, 4][s.below(3)], asi: [0, 4, 8][s.below(3)], exotic: s.chance(1, 3), room: true }
    }
}

pub struct P<'a> {
    pub toks: Vec<Tok>,
    src: &'a mut Src,
    o: Opts,
}

const GB: u8 = 1; // must not start with {
const GF: u8 = 2; // must not start with function/class
const NOIN: u8 = 4; // no bare `in` operator
const NOCALL: u8 = 8; // no call in the leftmost chain (callee of new)
const LEFT: u8 = GB | GF | NOIN | NOCALL;

pub fn bin_level(op: &str) -> u8 {
    match op {
        "||" => 3,
        "&&" => 4,
        "|" => 5,
        "^" => 6,
        "&" => 7,
        "==" | "!=" | "===" | "!==" => 8,
        "<" | ">" | "<=" | ">=" | "in" | "instanceof" => 9,
        "<<" | ">>" | ">>>" => 10,
        "+" | "-" => 11,
        "*" | "/" | "%" => 12,
        "**" => 13,
        _ => 1,
    }
}
pub fn level(t: &Tree) -> u8 {
    match t.k {
        Seq => 0,
        Arrow => 1,
        Cond => 2,
        Bin => bin_level(&t.s),
        Prefix => 14,
        Postfix => 15,
        New if t.s.is_empty() => 16,
        Call => 17,
        Member | CMember | Tagged | New | Meta => 18,
        _ => 20,
    }
}

impl<'a> P<'a> {
    pub fn new(src: &'a mut Src, o: Opts) -> P<'a> {
        P { toks: Vec::new(), src, o }
    }
    fn push(&mut self, text: &str, kind: TK) {
        self.toks.push(Tok { text: text.to_string(), kind, no_nl: false, semi: false, ends: Ends::Open, opt: false });
    }
    fn p(&mut self, s: &str) {
        self.push(s, TK::Punct)
    }
    fn w(&mut self, s: &str) {
        self.push(s, TK::Word)
    }
    fn no_nl(&mut self) {
        self.toks.last_mut().unwrap().no_nl = true;
    }
    /// a semicolon after a statement that no token can continue
    fn semi_closed(&mut self, ends: Ends) {
        self.semi();
        self.toks.last_mut().unwrap().ends = ends;
    }
    fn semi(&mut self) {
        let ends = match self.toks.last() {
            Some(t) if t.kind == TK::Punct && t.no_nl && (t.text == "++" || t.text == "--") => Ends::Postfix,
            _ => Ends::Open,
        };
        self.p(";");
        self.toks.last_mut().unwrap().semi = true;
        self.toks.last_mut().unwrap().ends = ends;
    }
    fn here(&self) -> u32 {
        self.toks.len() as u32
    }
    fn done(&self, t: &Tree, start: u32, kids: Vec<Tree>) -> Tree {
        tl(t.k, &t.s, (start, self.here()), kids)
    }
    fn trailing_comma(&mut self) {
        if self.o.parens > 0 && self.src.chance(1, 8) {
            self.p(",");
        }
    }

    pub fn program(&mut self, t: &Tree) -> Tree {
        let mut kids = Vec::new();
        for s in &t.kids {
            kids.push(self.stmt(s));
        }
        tl(Program, "", (0, self.here()), kids)
    }

    // ---- expressions

    pub fn e(&mut self, t: &Tree, min: u8, f: u8) -> Tree {
        let need = level(t) < min
            || (f & NOIN != 0 && t.k == Bin && t.s == "in")
            || (f & GB != 0 && (t.k == Object || Self::starts_with_object_pattern(t)))
            || (f & GF != 0 && matches!(t.k, FuncExpr | ClassExpr))
            || (f & NOCALL != 0 && t.k == Call);
        let extra = !need
            && self.o.parens > 0
            && !matches!(t.k, Spread | Hole)
            && self.src.chance(self.o.parens, 16);
        if need || extra {
            self.p("(");
            let r = self.bare(t, 0);
            self.p(")");
            // now and then a second pair
            r
        } else {
            self.bare(t, f)
        }
    }

    fn name(&mut self, t: &Tree) -> Tree {
        let s = self.here();
        self.w(&t.s);
        self.done(t, s, vec![])
    }

    fn args(&mut self, args: &[Tree]) -> Vec<Tree> {
        self.p("(");
        let mut v = Vec::new();
        for (i, a) in args.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            v.push(self.elem(a));
        }
        if !args.is_empty() {
            self.trailing_comma();
        }
        self.p(")");
        v
    }
    /// assignment-level expression or spread
    fn elem(&mut self, t: &Tree) -> Tree {
        if t.k == Spread || t.k == PSpread {
            let s = self.here();
            self.p("...");
            let x = self.e(&t.kids[0], 1, 0);
            self.done(t, s, vec![x])
        } else {
            self.e(t, 1, 0)
        }
    }

    fn bare(&mut self, t: &Tree, f: u8) -> Tree {
        let s = self.here();
        let noin = f & NOIN;
        match t.k {
            Hole => self.done(t, s, vec![]),
            This => {
                self.w("this");
                self.done(t, s, vec![])
            }
            Undefined => {
                self.w("undefined");
                self.done(t, s, vec![])
            }
            Null => {
                self.w("null");
                self.done(t, s, vec![])
            }
            True => {
                self.w("true");
                self.done(t, s, vec![])
            }
            False => {
                self.w("false");
                self.done(t, s, vec![])
            }
            Ident => {
                self.w(&t.s);
                self.done(t, s, vec![])
            }
            Num | BinNum => {
                self.push(&t.s, TK::Num);
                self.done(t, s, vec![])
            }
            Str => {
                self.push(&t.s, TK::Str);
                self.done(t, s, vec![])
            }
            Regex => {
                self.push(&t.s, TK::Regex);
                self.done(t, s, vec![])
            }
            Seq => {
                let mut kids = Vec::new();
                for (i, k) in t.kids.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    kids.push(self.e(k, 1, if i == 0 { f & LEFT } else { noin }));
                }
                self.done(t, s, kids)
            }
            Array => {
                self.p("[");
                let kids = self.array_items(t, &mut |p, k| p.elem(k));
                self.p("]");
                self.done(t, s, kids)
            }
            Member => {
                let o = self.e(&t.kids[0], 17, f & LEFT);
                self.p(".");
                let n = self.name(&t.kids[1]);
                self.done(t, s, vec![o, n])
            }
            CMember => {
                let o = self.e(&t.kids[0], 17, f & LEFT);
                self.p("[");
                let n = self.e(&t.kids[1], 0, 0);
                self.p("]");
                self.done(t, s, vec![o, n])
            }
            Meta => {
                let a = self.name(&t.kids[0]);
                self.p(".");
                let b = self.name(&t.kids[1]);
                self.done(t, s, vec![a, b])
            }
            Call => {
                let mut kids = vec![if t.kids[0].k == Ident && t.kids[0].s == "import" {
                    self.name(&t.kids[0])
                } else {
                    self.e(&t.kids[0], 17, f & LEFT)
                }];
                // ratel's test-suite fixes the location of a call as that of its argument list
                let s = self.here();
                kids.extend(self.args(&t.kids[1..]));
                self.done(t, s, kids)
            }
            New => {
                self.w("new");
                if t.s.is_empty() {
                    let x = self.e(&t.kids[0], 16, NOCALL);
                    self.done(t, s, vec![x])
                } else {
                    let mut kids = vec![self.e(&t.kids[0], 18, NOCALL)];
                    kids.extend(self.args(&t.kids[1..]));
                    self.done(t, s, kids)
                }
            }
            Bin => {
                let l = bin_level(&t.s);
                let (a, b) = if l == 1 {
                    (self.target(&t.kids[0], false, f & LEFT, t.s == "="), 1)
                } else if l == 13 {
                    (self.e(&t.kids[0], 15, f & LEFT), 13)
                } else {
                    (self.e(&t.kids[0], l, f & LEFT), l + 1)
                };
                if t.s.as_bytes()[0] == b'i' {
                    self.w(&t.s);
                } else {
                    self.p(&t.s);
                }
                let b = self.e(&t.kids[1], b, noin);
                self.done(t, s, vec![a, b])
            }
            Prefix => {
                if t.s.as_bytes()[0].is_ascii_alphabetic() {
                    self.w(&t.s);
                } else {
                    self.p(&t.s);
                }
                let x = self.e(&t.kids[0], 14, noin);
                self.done(t, s, vec![x])
            }
            Postfix => {
                let x = self.e(&t.kids[0], 16, f & LEFT);
                self.p(&t.s);
                self.no_nl();
                self.done(t, s, vec![x])
            }
            Cond => {
                let a = self.e(&t.kids[0], 3, f & LEFT);
                self.p("?");
                let b = self.e(&t.kids[1], 1, noin);
                self.p(":");
                let c = self.e(&t.kids[2], 1, noin);
                self.done(t, s, vec![a, b, c])
            }
            Template => self.template(t),
            Tagged => {
                let a = self.e(&t.kids[0], 17, f & LEFT);
                let q = self.template(&t.kids[1]);
                self.done(t, s, vec![a, q])
            }
            Spread => self.elem(t),
            Arrow => {
                let params = self.arrow_params(&t.kids[0]);
                self.p("=>");
                self.no_nl();
                let b = if t.kids[1].k == Block {
                    self.block(&t.kids[1])
                } else {
                    self.e(&t.kids[1], 1, GB | noin)
                };
                self.done(t, s, vec![params, b])
            }
            Object => {
                self.p("{");
                let kids = self.props(&t.kids, &mut |p, v| p.e(v, 1, 0));
                self.p("}");
                self.done(t, s, kids)
            }
            FuncExpr | FuncStmt => {
                self.w("function");
                if t.s == "*" {
                    self.p("*");
                }
                let n = if t.kids[0].k == Nil { t.kids[0].clone() } else { self.name(&t.kids[0]) };
                let ps = self.params(&t.kids[1]);
                let b = self.block(&t.kids[2]);
                self.done(t, s, vec![n, ps, b])
            }
            ClassExpr | ClassStmt => self.class(t),
            _ => panic!("HARNESS: cannot print {:?} as an expression", t.k),
        }
    }

    fn array_items(&mut self, t: &Tree, f: &mut dyn FnMut(&mut Self, &Tree) -> Tree) -> Vec<Tree> {
        let mut v = Vec::new();
        for (i, k) in t.kids.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            v.push(f(self, k));
        }
        if let Some(l) = t.kids.last() {
            if matches!(l.k, Hole | PVoid) {
                self.p(",");
            } else if !(matches!(l.k, Spread | PSpread)) {
                self.trailing_comma();
            }
        }
        v
    }

    fn template(&mut self, t: &Tree) -> Tree {
        let s = self.here();
        let mut kids = Vec::new();
        let n = t.kids.len();
        for (i, k) in t.kids.iter().enumerate() {
            if k.k == Quasi {
                let open = if i == 0 { "`" } else { "}" };
                let close = if i + 1 == n { "`" } else { "${" };
                let s = self.here();
                self.push(&format!("{}{}{}", open, k.s, close), TK::Template);
                kids.push(self.done(k, s, vec![]));
            } else {
                kids.push(self.e(k, 0, 0));
            }
        }
        self.done(t, s, kids)
    }

    pub fn key(&mut self, t: &Tree) -> Tree {
        let s = self.here();
        match t.k {
            KeyComputed => {
                self.p("[");
                let x = self.e(&t.kids[0], 1, 0);
                self.p("]");
                self.done(t, s, vec![x])
            }
            KeyBin => {
                self.push(&t.s, TK::Num);
                self.done(t, s, vec![])
            }
            _ => {
                let c = t.s.as_bytes()[0];
                let kind = if c == b'"' || c == b'\'' {
                    TK::Str
                } else if c.is_ascii_digit() || c == b'.' {
                    TK::Num
                } else {
                    TK::Word
                };
                self.push(&t.s, kind);
                self.done(t, s, vec![])
            }
        }
    }

    fn props(&mut self, ps: &[Tree], value: &mut dyn FnMut(&mut Self, &Tree) -> Tree) -> Vec<Tree> {
        let mut v = Vec::new();
        for (i, p) in ps.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            let s = self.here();
            v.push(match p.k {
                Shorthand => {
                    self.w(&p.s);
                    self.done(p, s, vec![])
                }
                Prop => {
                    let k = self.key(&p.kids[0]);
                    self.p(":");
                    let x = value(self, &p.kids[1]);
                    self.done(p, s, vec![k, x])
                }
                Method => {
                    let k = self.key(&p.kids[0]);
                    let x = self.method_fn(&p.kids[1]);
                    self.done(p, s, vec![k, x])
                }
                PSpread => {
                    self.p("...");
                    let x = value(self, &p.kids[0]);
                    self.done(p, s, vec![x])
                }
                _ => panic!("HARNESS: property {:?}", p.k),
            });
        }
        if ps.last().is_some_and(|p| p.k != PSpread) {
            self.trailing_comma();
        }
        v
    }

    fn method_fn(&mut self, t: &Tree) -> Tree {
        let s = self.here();
        let ps = self.params(&t.kids[0]);
        let b = self.block(&t.kids[1]);
        self.done(t, s, vec![ps, b])
    }

    /// Assignment target. `binding`: identifiers may not be parenthesised; `pat`: array and object
    /// literals are patterns here.
    fn target(&mut self, t: &Tree, binding: bool, f: u8, pat: bool) -> Tree {
        let s = self.here();
        match t.k {
            Array if pat => {
                self.p("[");
                let kids = self.array_items(t, &mut |p, k| p.target_elem(k, binding));
                self.p("]");
                self.done(t, s, kids)
            }
            Object if pat => {
                // an object pattern at the start of a statement needs the whole statement in
                // parentheses; the caller sees to that
                self.p("{");
                let kids = self.props(&t.kids, &mut |p, v| p.target_elem(v, binding));
                self.p("}");
                self.done(t, s, kids)
            }
            _ if binding => self.bare(t, f),
            _ => self.e(t, 16, f),
        }
    }
    fn target_elem(&mut self, t: &Tree, binding: bool) -> Tree {
        let s = self.here();
        match t.k {
            Hole => self.done(t, s, vec![]),
            Bin if t.s == "=" => {
                let a = self.target(&t.kids[0], binding, 0, true);
                self.p("=");
                let b = self.e(&t.kids[1], 1, 0);
                self.done(t, s, vec![a, b])
            }
            Spread => {
                self.p("...");
                let x = self.target(&t.kids[0], binding, 0, true);
                self.done(t, s, vec![x])
            }
            _ => self.target(t, binding, 0, true),
        }
    }

    fn pattern(&mut self, t: &Tree) -> Tree {
        let s = self.here();
        match t.k {
            PVoid => self.done(t, s, vec![]),
            PIdent => {
                self.w(&t.s);
                self.done(t, s, vec![])
            }
            PObject => {
                self.p("{");
                let kids = self.props(&t.kids, &mut |p, v| p.target_elem(v, true));
                self.p("}");
                self.done(t, s, kids)
            }
            PArray => {
                self.p("[");
                let kids = self.array_items(t, &mut |p, k| p.pattern(k));
                self.p("]");
                self.done(t, s, kids)
            }
            PRest => {
                self.p("...");
                let n = self.name(&t.kids[0]);
                self.done(t, s, vec![n])
            }
            PAssign => {
                let l = self.pattern(&t.kids[0]);
                self.p("=");
                let r = self.e(&t.kids[1], 1, 0);
                self.done(t, s, vec![l, r])
            }
            _ => panic!("HARNESS: pattern {:?}", t.k),
        }
    }

    fn params(&mut self, t: &Tree) -> Tree {
        self.p("(");
        let mut v = Vec::new();
        for (i, p) in t.kids.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            v.push(self.pattern(p));
        }
        if t.kids.last().is_some_and(|p| p.k != PRest) {
            self.trailing_comma();
        }
        self.p(")");
        tl(List, "", (0, 0), v)
    }
    fn arrow_params(&mut self, t: &Tree) -> Tree {
        if t.kids.len() == 1 && t.kids[0].k == PIdent && !self.src.chance(1, 2) {
            let p = self.pattern(&t.kids[0]);
            return tl(List, "", (0, 0), vec![p]);
        }
        self.p("(");
        let mut v = Vec::new();
        for (i, p) in t.kids.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            v.push(self.pattern(p));
        }
        self.p(")");
        tl(List, "", (0, 0), v)
    }

    fn class(&mut self, t: &Tree) -> Tree {
        let s = self.here();
        self.w("class");
        let n = if t.kids[0].k == Nil { t.kids[0].clone() } else { self.name(&t.kids[0]) };
        let x = if t.kids[1].k == Nil {
            t.kids[1].clone()
        } else {
            self.w("extends");
            self.e(&t.kids[1], 16, 0)
        };
        let bs = self.here();
        self.p("{");
        let mut ms = Vec::new();
        for m in &t.kids[2].kids {
            let s = self.here();
            match m.k {
                CMethod => {
                    let mut kind = m.s.as_str();
                    if let Some(rest) = kind.strip_prefix("static ") {
                        self.w("static");
                        kind = rest;
                    }
                    if kind == "get" || kind == "set" {
                        self.w(kind);
                    }
                    let k = self.key(&m.kids[0]);
                    let v = self.method_fn(&m.kids[1]);
                    ms.push(self.done(m, s, vec![k, v]));
                    if self.o.parens > 0 && self.src.chance(1, 8) {
                        self.p(";");
                    }
                }
                CField => {
                    if m.s == "static" {
                        self.w("static");
                    }
                    let k = self.key(&m.kids[0]);
                    self.p("=");
                    let v = self.e(&m.kids[1], 1, 0);
                    ms.push(self.done(m, s, vec![k, v]));
                    self.semi();
                }
                _ => panic!("HARNESS: class member {:?}", m.k),
            }
        }
        self.p("}");
        let body = tl(ClassBody, "", (bs, self.here()), ms);
        self.done(t, s, vec![n, x, body])
    }

    // ---- statements

    fn block(&mut self, t: &Tree) -> Tree {
        let s = self.here();
        self.p("{");
        let kids = t.kids.iter().map(|k| self.stmt(k)).collect();
        self.p("}");
        self.done(t, s, kids)
    }
    fn paren(&mut self, t: &Tree) -> Tree {
        self.p("(");
        let x = self.e(t, 0, 0);
        self.p(")");
        x
    }
    fn decl(&mut self, t: &Tree, f: u8) -> Tree {
        let s = self.here();
        self.w(&t.s);
        let mut v = Vec::new();
        for (i, d) in t.kids.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            let s = self.here();
            let id = self.pattern(&d.kids[0]);
            let init = if d.kids[1].k == Nil {
                d.kids[1].clone()
            } else {
                self.p("=");
                self.e(&d.kids[1], 1, f)
            };
            v.push(self.done(d, s, vec![id, init]));
        }
        self.done(t, s, v)
    }
    fn starts_with_object_pattern(t: &Tree) -> bool {
        match t.k {
            Bin if bin_level(&t.s) == 1 => t.kids[0].k == Object || Self::starts_with_object_pattern(&t.kids[0]),
            Seq | Bin | Cond | Member | CMember | Call | Tagged | Postfix => Self::starts_with_object_pattern(&t.kids[0]),
            _ => false,
        }
    }

    fn body_end(&self, t: &Tree, start: u32, kids: Vec<Tree>) -> Tree {
        let end = kids.iter().rev().find(|k| k.k != Nil).unwrap().loc.1;
        tl(t.k, &t.s, (start, end), kids)
    }

    pub fn stmt(&mut self, t: &Tree) -> Tree {
        let s = self.here();
        match t.k {
            Empty => {
                self.p(";");
                self.done(t, s, vec![])
            }
            Debugger => {
                self.w("debugger");
                let r = self.done(t, s, vec![]);
                self.semi_closed(Ends::Closed);
                r
            }
            ExprStmt => {
                let x = &t.kids[0];
                let whole = Self::starts_with_object_pattern(x) || self.src.chance(1, 4);
                let guarded = leftmost_needs_guard(x);
                let k = if guarded && whole {
                    self.p("(");
                    let r = self.bare(x, 0);
                    self.p(")");
                    r
                } else {
                    self.e(x, 0, GB | GF)
                };
                let r = self.done(t, s, vec![k]);
                self.semi();
                r
            }
            Decl => {
                let mut r = self.decl(t, 0);
                self.semi();
                r.loc.1 = self.here();
                r
            }
            Return | Throw => {
                self.w(if t.k == Return { "return" } else { "throw" });
                let k = if t.kids[0].k == Nil {
                    t.kids[0].clone()
                } else {
                    let at = self.toks.len();
                    let r = self.e(&t.kids[0], 0, 0);
                    self.toks[at].no_nl = true;
                    r
                };
                let r = self.done(t, s, vec![k]);
                if t.kids[0].k == Nil { self.semi_closed(Ends::Closed) } else { self.semi() }
                r
            }
            Break | Continue => {
                self.w(if t.k == Break { "break" } else { "continue" });
                let k = if t.kids[0].k == Nil {
                    t.kids[0].clone()
                } else {
                    let r = self.name(&t.kids[0]);
                    self.no_nl();
                    r
                };
                let r = self.done(t, s, vec![k]);
                self.semi_closed(Ends::Closed);
                r
            }
            If => {
                self.w("if");
                let c = self.paren(&t.kids[0]);
                let a = self.stmt(&t.kids[1]);
                let b = if t.kids[2].k == Nil {
                    t.kids[2].clone()
                } else {
                    self.w("else");
                    self.stmt(&t.kids[2])
                };
                self.body_end(t, s, vec![c, a, b])
            }
            While => {
                self.w("while");
                let c = self.paren(&t.kids[0]);
                let b = self.stmt(&t.kids[1]);
                self.body_end(t, s, vec![c, b])
            }
            Do => {
                self.w("do");
                let b = self.stmt(&t.kids[0]);
                self.w("while");
                let c = self.paren(&t.kids[1]);
                let r = self.done(t, s, vec![b, c]);
                self.semi_closed(Ends::DoWhile);
                r
            }
            For => {
                self.w("for");
                self.p("(");
                let i = match t.kids[0].k {
                    Nil => t.kids[0].clone(),
                    Decl => self.decl(&t.kids[0], NOIN),
                    _ => self.e(&t.kids[0], 0, NOIN),
                };
                self.p(";");
                let c = if t.kids[1].k == Nil { t.kids[1].clone() } else { self.e(&t.kids[1], 0, 0) };
                self.p(";");
                let u = if t.kids[2].k == Nil { t.kids[2].clone() } else { self.e(&t.kids[2], 0, 0) };
                self.p(")");
                let b = self.stmt(&t.kids[3]);
                self.body_end(t, s, vec![i, c, u, b])
            }
            ForIn | ForOf => {
                self.w("for");
                self.p("(");
                let l = match t.kids[0].k {
                    Decl => self.decl(&t.kids[0], NOIN),
                    _ => self.target(&t.kids[0], false, NOIN, true),
                };
                self.w(if t.k == ForIn { "in" } else { "of" });
                let r = self.e(&t.kids[1], if t.k == ForIn { 0 } else { 1 }, 0);
                self.p(")");
                let b = self.stmt(&t.kids[2]);
                self.body_end(t, s, vec![l, r, b])
            }
            Try => {
                self.w("try");
                let b = self.block(&t.kids[0]);
                let h = if t.kids[1].k == Nil {
                    t.kids[1].clone()
                } else {
                    let s = self.here();
                    self.w("catch");
                    self.p("(");
                    let p = self.pattern(&t.kids[1].kids[0]);
                    self.p(")");
                    let b = self.block(&t.kids[1].kids[1]);
                    self.done(&t.kids[1], s, vec![p, b])
                };
                let f = if t.kids[2].k == Nil {
                    t.kids[2].clone()
                } else {
                    self.w("finally");
                    self.block(&t.kids[2])
                };
                self.done(t, s, vec![b, h, f])
            }
            Block => self.block(t),
            Labeled => {
                self.w(&t.s);
                self.p(":");
                let b = self.stmt(&t.kids[0]);
                self.body_end(t, s, vec![b])
            }
            FuncStmt | ClassStmt => self.bare(t, 0),
            Switch => {
                self.w("switch");
                let d = self.paren(&t.kids[0]);
                let cs = self.here();
                self.p("{");
                let mut cases = Vec::new();
                for c in &t.kids[1].kids {
                    let s = self.here();
                    let mut kids = Vec::new();
                    if c.kids[0].k == Nil {
                        self.w("default");
                        kids.push(c.kids[0].clone());
                    } else {
                        self.w("case");
                        kids.push(self.e(&c.kids[0], 0, 0));
                    }
                    self.p(":");
                    let colon = self.here();
                    for k in &c.kids[1..] {
                        kids.push(self.stmt(k));
                    }
                    let end = if kids.len() > 1 { kids.last().unwrap().loc.1 } else { colon };
                    cases.push(tl(Case, "", (s, end), kids));
                }
                self.p("}");
                let cases = tl(Cases, "", (cs, self.here()), cases);
                self.done(t, s, vec![d, cases])
            }
            Import => {
                self.w("import");
                let mut v = Vec::new();
                let mut named = false;
                for (i, sp) in t.kids.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    let s = self.here();
                    match sp.k {
                        ImpDefault => {
                            let n = self.name(&sp.kids[0]);
                            v.push(self.done(sp, s, vec![n]));
                        }
                        ImpNs => {
                            self.p("*");
                            self.w("as");
                            let n = self.name(&sp.kids[0]);
                            v.push(self.done(sp, s, vec![n]));
                        }
                        _ => {
                            if !named {
                                self.p("{");
                                named = true;
                            }
                            let s = self.here();
                            if sp.kids[0].s == sp.kids[1].s && !self.src.chance(1, 8) {
                                let n = self.name(&sp.kids[0]);
                                v.push(self.done(sp, s, vec![n.clone(), n]));
                            } else {
                                let a = self.name(&sp.kids[0]);
                                self.w("as");
                                let b = self.name(&sp.kids[1]);
                                v.push(self.done(sp, s, vec![a, b]));
                            }
                        }
                    }
                }
                if named {
                    self.trailing_comma();
                    self.p("}");
                }
                if !v.is_empty() {
                    self.w("from");
                }
                let q = if t.s.contains('"') {
                    "'"
                } else if t.s.contains('\'') || self.src.chance(1, 2) {
                    "\""
                } else {
                    "'"
                };
                self.push(&format!("{}{}{}", q, t.s, q), TK::Str);
                let r = self.done(t, s, v);
                self.semi_closed(Ends::Closed);
                r
            }
            _ => panic!("HARNESS: cannot print {:?} as a statement", t.k),
        }
    }
}

/// would the bare text start with `{`, `function` or `class`?
pub fn leftmost_needs_guard(t: &Tree) -> bool {
    match t.k {
        Object | FuncExpr | ClassExpr => true,
        Seq | Bin | Cond | Member | CMember | Call | Tagged | Postfix => leftmost_needs_guard(&t.kids[0]),
        _ => false,
    }
}

fn is_ident_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '$' || c == '\\' || !c.is_ascii()
}

/// must a separator stand between two tokens written one after the other?
pub fn needs_sep(a: &Tok, b: &Tok) -> bool {
    let la = a.text.chars().last().unwrap_or(' ');
    let fb = b.text.chars().next().unwrap_or(' ');
    let word_end = match a.kind {
        TK::Word | TK::Num | TK::Regex => true,
        _ => false,
    };
    if word_end && is_ident_char(fb) && matches!(b.kind, TK::Word | TK::Num) {
        return true;
    }
    if matches!(a.kind, TK::Num) && fb == '.' {
        return true;
    }
    if a.kind == TK::Word && b.kind == TK::Num && fb == '.' {
        return false;
    }
    if a.kind == TK::Template || b.kind == TK::Template || a.kind == TK::Str || b.kind == TK::Str {
        return false;
    }
    match (la, fb) {
        ('+', '+') | ('-', '-') | ('/', '/') | ('/', '*') | ('-', '>') => true,
        ('<', '!') => true,
        _ => false,
    }
}

/// may a statement whose `;` was dropped be followed, after a line break, by this token?
fn safe_after_newline(ends: Ends, next: &Tok) -> bool {
    if next.text == ";" {
        return false;
    }
    match ends {
        Ends::Closed | Ends::DoWhile => return true,
        Ends::Postfix if next.kind == TK::Template || matches!(next.text.as_str(), "(" | "[") => return true,
        _ => {}
    }
    match next.kind {
        TK::Word => !matches!(next.text.as_str(), "in" | "instanceof"),
        TK::Num | TK::Str => !next.text.starts_with('.'),
        TK::Template | TK::Regex => false,
        TK::Punct => matches!(next.text.as_str(), "{" | "++" | "--" | "!" | "~"),
    }
}

const COMMENTS: &[&str] = &["/**/", "/*c*/", "/* ' \" ` ${ */", "/***/", "/* ** / */", "/* é→ */", "/*//*/"];
const NLCOMMENTS: &[&str] = &["//\n", "//c\n", "// ' \" ` */ /*\n", "/*\n*/", "/* a\n * b\n **/", "// é\n", "///\n"];

pub struct Laid {
    pub text: String,
    /// byte span per token (empty for dropped ones)
    pub spans: Vec<(u32, u32)>,
    pub dropped: usize,
    pub comments: usize,
    pub newlines: usize,
}

/// Lay the tokens out.
pub fn layout(toks: &[Tok], s: &mut Src, o: Opts) -> Laid {
    let n = toks.len();
    // which semicolons are dropped, and where a line break is then required
    let mut drop = vec![false; n];
    let mut must_nl = vec![false; n + 1];
    if o.asi > 0 {
        for i in 0..n {
            if !toks[i].semi {
                continue;
            }
            let next = toks.get(i + 1);
            let possible = match next {
                None => true,
                Some(t) if t.text == "}" && t.kind == TK::Punct => true,
                // a do-while, import etc. all end in tokens after which a line break suffices
                Some(t) => safe_after_newline(toks[i].ends, t) && !t.no_nl,
            };
            if possible && s.chance(o.asi, 9) {
                drop[i] = true;
                if let Some(t) = next {
                    if !(t.text == "}" && t.kind == TK::Punct) && !(toks[i].ends == Ends::DoWhile && s.chance(1, 2)) {
                        must_nl[i + 1] = true;
                    }
                }
            }
        }
    }
    // somewhere a lot of room: large offsets, line numbers and columns
    let (room_at, room) = if o.room && s.chance(1, 200) { (s.below(n + 1), s.below(6)) } else { (usize::MAX, 0) };
    let mut text = String::new();
    let mut spans = Vec::with_capacity(n);
    let mut prev: Option<&Tok> = None;
    let (mut comments, mut newlines, mut dropped) = (0, 0, 0);
    for i in 0..n {
        if drop[i] {
            spans.push((text.len() as u32, text.len() as u32));
            dropped += 1;
            continue;
        }
        let tok = &toks[i];
        let sep = prev.is_some_and(|p| needs_sep(p, tok));
        let nl_ok = !tok.no_nl;
        // dropped semicolons in between: find whether a break is required
        let need_nl = must_nl[i];
        let mut gap = String::new();
        match o.mode {
            Mode::Compact => {
                if sep {
                    gap.push(' ');
                }
            }
            Mode::Spaced => {
                if prev.is_some() {
                    gap.push(' ');
                }
            }
            Mode::Lines => {
                if prev.is_some() {
                    gap.push(if nl_ok { '\n' } else { ' ' });
                }
            }
            Mode::Wild => {
                let pieces = s.weighted(&[6, 6, 3, 1]);
                for _ in 0..pieces {
                    match s.weighted(&[8, 2, 4, 3, 3, if o.exotic { 3 } else { 0 }]) {
                        0 => gap.push(' '),
                        1 => gap.push('\t'),
                        2 => gap.push_str(if nl_ok { "\n" } else { " " }),
                        3 => {
                            comments += 1;
                            gap.push_str(s.pick(COMMENTS))
                        }
                        4 => {
                            if nl_ok {
                                comments += 1;
                                gap.push_str(s.pick(NLCOMMENTS))
                            }
                        }
                        _ => {
                            let safe = ["\u{a0}", "\u{feff}", "\u{b}", "\u{c}", "\u{2003}", "\u{3000}"];
                            let brk = ["\r\n", "\u{2028}", "\u{2029}", "\r"];
                            if nl_ok && s.chance(1, 2) {
                                gap.push_str(s.pick(&brk));
                            } else {
                                gap.push_str(s.pick(&safe));
                            }
                        }
                    }
                }
                if sep && gap.is_empty() {
                    gap.push(' ');
                }
            }
        }
        if i == room_at {
            match room {
                0 => gap.push_str(&" ".repeat(300)),
                1 => gap.push_str(&" ".repeat(66_000)),
                2 => gap.push_str(&format!("/*{}*/", "x".repeat(66_000))),
                3 if nl_ok => gap.push_str(&"\n".repeat(300)),
                4 if nl_ok => gap.push_str(&"  // é\n".repeat(1200)),
                _ => gap.push_str(&"\t".repeat(1100)),
            }
        }
        if need_nl && !gap.contains(['\n', '\r', '\u{2028}', '\u{2029}']) {
            gap.push('\n');
        }
        if gap.starts_with('/') && prev.is_some_and(|p| p.text.ends_with('/')) {
            gap.insert(0, ' ');
        }
        newlines += gap.matches('\n').count();
        text.push_str(&gap);
        let a = text.len() as u32;
        text.push_str(&tok.text);
        spans.push((a, text.len() as u32));
        prev = Some(tok);
    }
    if o.mode == Mode::Wild && s.chance(1, 3) {
        let tail = ["\n", " ", "//end", "/* end */", "\n\n//x\n"];
        let t: &&str = s.pick(&tail);
        if t.starts_with('/') && text.ends_with('/') {
            text.push(' ');
        }
        text.push_str(t);
    }
    Laid { text, spans, dropped, comments, newlines }
}

/// Replace token-index locations by byte offsets.
pub fn resolve(t: &mut Tree, spans: &[(u32, u32)]) {
    if t.k.has_loc() && !spans.is_empty() {
        let (a, b) = (t.loc.0 as usize, t.loc.1 as usize);
        if b > a {
            let mut last = b - 1;
            while last > a && spans[last].0 == spans[last].1 {
                last -= 1;
            }
            t.loc = (spans[a].0, spans[last].1);
        } else {
            t.loc = (0, 0);
        }
    }
    for k in &mut t.kids {
        resolve(k, spans);
    }
}

pub struct Printed {
    pub tree: Tree,
    pub toks: Vec<Tok>,
    pub laid: Laid,
}

/// Tree -> text plus the tree with expected locations.
pub fn print(t: &Tree, s: &mut Src, o: Opts) -> Printed {
    let (mut tree, toks) = {
        let mut p = P::new(s, o);
        let tree = p.program(t);
        (tree, p.toks)
    };
    let laid = layout(&toks, s, o);
    resolve(&mut tree, &laid.spans);
    Printed { tree, toks, laid }
}
