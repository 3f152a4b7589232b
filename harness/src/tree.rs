//! Canonical tree: one generic node type that the generator produces, the printer lays out, and
//! every reader (ratel's AST, ratel's ESTree JSON, acorn's ESTree JSON) is converted to.
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    /// an absent optional child
    Nil,
    /// a list of children without a location of its own
    List,
    Program,
    // expressions
    Hole,
    This,
    Ident,
    Undefined,
    Null,
    True,
    False,
    Num,
    BinNum,
    Str,
    Regex,
    Seq,
    Array,
    /// [object, Name]
    Member,
    CMember,
    /// [Name, Name]
    Meta,
    /// [callee, args...]
    Call,
    /// s = "()" with an argument list, "" without; [callee, args...]
    New,
    Bin,
    Prefix,
    Postfix,
    Cond,
    /// [Quasi, expr, Quasi, ...]
    Template,
    Quasi,
    Tagged,
    Spread,
    /// [List(params), body]; body is a Block or an expression
    Arrow,
    Object,
    // properties of objects and object patterns
    Shorthand,
    Prop,
    Method,
    PSpread,
    // keys
    KeyComputed,
    KeyLit,
    KeyBin,
    /// function without name, as in methods: [List(params), Block]
    MethodFn,
    /// s = "*" for generators; [Name|Nil, List(params), Block]
    FuncExpr,
    FuncStmt,
    /// [Name|Nil, extends|Nil, ClassBody]
    ClassExpr,
    ClassStmt,
    ClassBody,
    /// s = "static? kind"; [key, MethodFn]
    CMethod,
    /// s = "static" or ""; [key, value]
    CField,
    // patterns
    PVoid,
    PIdent,
    PObject,
    PArray,
    PRest,
    PAssign,
    Name,
    // statements
    Empty,
    Debugger,
    ExprStmt,
    /// s = var/let/const; [Declarator...]
    Decl,
    Declarator,
    Return,
    Break,
    Continue,
    Throw,
    If,
    While,
    Do,
    For,
    ForIn,
    ForOf,
    Try,
    Catch,
    Block,
    /// s = label
    Labeled,
    /// [discriminant, Cases]
    Switch,
    Cases,
    /// [test|Nil, statements...]
    Case,
    /// s = raw source text between the quotes; specifiers
    Import,
    ImpSpec,
    ImpDefault,
    ImpNs,
}
use K::*;

#[derive(Clone, Debug)]
pub struct Tree {
    pub k: K,
    pub s: String,
    pub loc: (u32, u32),
    pub kids: Vec<Tree>,
}

impl PartialEq for Tree {
    fn eq(&self, o: &Tree) -> bool {
        self.k == o.k && self.s == o.s && self.kids == o.kids
    }
}

pub fn t(k: K, s: &str, kids: Vec<Tree>) -> Tree {
    Tree { k, s: s.to_string(), loc: (0, 0), kids }
}
pub fn tl(k: K, s: &str, loc: (u32, u32), kids: Vec<Tree>) -> Tree {
    Tree { k, s: s.to_string(), loc, kids }
}
pub fn nil() -> Tree {
    t(Nil, "", vec![])
}

impl K {
    pub fn is_statement(self) -> bool {
        matches!(
            self,
            Empty | Debugger | ExprStmt | Decl | Return | Break | Continue | Throw | If | While | Do | For | ForIn
                | ForOf | Try | Block | Labeled | Switch | Import | FuncStmt | ClassStmt
        )
    }
    pub fn is_expression(self) -> bool {
        matches!(
            self,
            Hole | This | Ident | Undefined | Null | True | False | Num | BinNum | Str | Regex | Seq | Array | Member
                | CMember | Meta | Call | New | Bin | Prefix | Postfix | Cond | Template | Tagged | Spread | Arrow
                | Object | FuncExpr | ClassExpr
        )
    }
    /// kinds whose location is meaningful
    pub fn has_loc(self) -> bool {
        !matches!(self, Nil | List | Program | Hole | PVoid | Cases)
    }
}

impl Tree {
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_to(&mut s);
        s
    }
    fn show_to(&self, o: &mut String) {
        let _ = write!(o, "{:?}", self.k);
        if !self.s.is_empty() {
            let _ = write!(o, "⟨{}⟩", self.s);
        }
        if !self.kids.is_empty() {
            o.push('(');
            for (i, k) in self.kids.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                k.show_to(o);
            }
            o.push(')');
        }
    }
    /// visit all nodes, parents first
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Tree)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
    pub fn count(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |_| n += 1);
        n
    }
    pub fn depth(&self) -> usize {
        1 + self.kids.iter().map(|k| k.depth()).max().unwrap_or(0)
    }
    pub fn any(&self, f: &dyn Fn(&Tree) -> bool) -> bool {
        f(self) || self.kids.iter().any(|k| k.any(f))
    }
}

pub fn short(s: String) -> String {
    if s.chars().count() > 160 {
        let mut r: String = s.chars().take(160).collect();
        r.push('…');
        r
    } else {
        s
    }
}

/// First difference between two trees, as text. `locs` also compares locations.
pub fn diff(exp: &Tree, got: &Tree, locs: bool) -> Option<String> {
    let mut path = Vec::new();
    diff_at(exp, got, locs, &mut path)
}

fn at(path: &[String]) -> String {
    if path.is_empty() {
        "root".to_string()
    } else {
        path.join("/")
    }
}

fn diff_at(exp: &Tree, got: &Tree, locs: bool, path: &mut Vec<String>) -> Option<String> {
    if exp.k != got.k || exp.s != got.s {
        return Some(format!("at {}: expected {}, got {}", at(path), short(exp.show()), short(got.show())));
    }
    if exp.kids.len() != got.kids.len() {
        return Some(format!(
            "at {}: {:?} has {} children, expected {}: expected {}, got {}",
            at(path),
            exp.k,
            got.kids.len(),
            exp.kids.len(),
            short(exp.show()),
            short(got.show())
        ));
    }
    for (i, (e, g)) in exp.kids.iter().zip(&got.kids).enumerate() {
        path.push(format!("{:?}[{}]", exp.k, i));
        let d = diff_at(e, g, locs, path);
        path.pop();
        if d.is_some() {
            return d;
        }
    }
    if locs && exp.k.has_loc() && exp.loc != got.loc {
        return Some(format!(
            "at {}: location of {} is {}..{}, expected {}..{}",
            at(path),
            short(exp.show()),
            got.loc.0,
            got.loc.1,
            exp.loc.0,
            exp.loc.1
        ));
    }
    None
}
