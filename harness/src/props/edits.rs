//! C21: equality and dump of trees. C22: editing a program in place.
use super::common::*;
use super::estree::serialise;
use crate::engine::*;
use crate::fromjson::{self, Dialect};
use crate::fromratel;
use crate::gen::{self, Cfg};
use crate::print::{self, Opts};
use crate::tree::*;
use crate::{Prop, Sub};
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::*;
use ratel::Module;
use ratel_codegen::codegen;
use ratel_visitor::{ParentNode, Visitable, Visitor};
use std::collections::HashSet;

fn laid(t: &Tree, s: &mut Src) -> print::Printed {
    let o = Opts::gen(s);
    print::print(t, s, o)
}

const SWAPS: &[(&str, &[&str])] = &[
    ("+", &["-", "*", "<<", ","]), ("-", &["+", "/", "**"]), ("=", &["+=", "-=", "=="]), ("+=", &["=", "**="]), ("==", &["===", "!="]), ("===", &["==", "!=="]), ("&&", &["||", "&"]), ("||", &["&&", "|"]),
    ("<", &["<=", ">", "in", "instanceof"]), (">", &[">=", ">>", ">>>"]), ("var", &["let", "const"]), ("let", &["var", "const"]), ("const", &["var", "let"]), ("true", &["false", "null", "1"]), ("null", &["this", "undefined"]),
    ("this", &["null", "_this"]), ("++", &["--"]), ("--", &["++"]), ("!", &["~", "-", "void"]), ("typeof", &["void", "delete", "!"]), ("in", &["of", "instanceof"]), ("of", &["in"]), ("get", &["set", "gets"]),
    ("set", &["get", "sets"]), ("break", &["continue"]), ("continue", &["break"]), ("while", &["if"]), ("if", &["while"]), ("...", &[""]), ("function", &["class", "function*"]), ("static", &[""]), ("[", &["(", "", "[,"]),
    (",", &["", ",,", "+"]), (";", &["", ";;"]), (".", &[",", "+"]), ("as", &[""]), ("default", &["case a"]),
];

/// Another text, which is often another program that differs little.
fn near(s: &mut Src, p: &print::Printed) -> String {
    let mut toks: Vec<String> = p.toks.iter().map(|t| t.text.clone()).collect();
    for _ in 0..1 + s.weighted(&[4, 1]) {
        if toks.is_empty() {
            break;
        }
        let i = s.below(toks.len());
        let x = toks[i].clone();
        let swaps = SWAPS.iter().find(|w| w.0 == x).map_or(&[][..], |w| w.1);
        match s.weighted(&[4, 2, 2, 1]) {
            0 if !swaps.is_empty() => toks[i] = s.pick(swaps).to_string(),
            0 | 1 => {
                // a name, a number or a text that is a little different
                let c = x.chars().last().unwrap_or(' ');
                if c.is_alphanumeric() {
                    toks[i].push(*s.pick(&['0', '1', 'a', 'b']));
                } else if (c == '\'' || c == '"' || c == '`' || c == '{') && x.len() > 1 {
                    toks[i].insert(1, *s.pick(&['0', 'a', ' ', '}']));
                }
            }
            2 => {
                toks.remove(i);
            }
            _ => {
                let y = toks[s.below(toks.len())].clone();
                toks.insert(i, y);
            }
        }
    }
    toks.join(" ")
}

fn c21_equal(s: &mut Src) -> PropResult {
    let cfg = Cfg { fuel: [2, 4, 8, 20][s.weighted(&[2, 4, 3, 1])], ..Cfg::standard(s) };
    let t = gen::program(s, cfg);
    let p = laid(&t, s);
    // nodes at the same offsets, and at large ones
    let spaced: String = p.toks.iter().map(|t| t.text.as_str()).collect::<Vec<_>>().join(" ");
    let pad = " ".repeat([0, 40, 300, 1200, 5000, 66_000][s.weighted(&[20, 2, 2, 2, 1, 1])]);
    let mut same_places = false;
    let other = match s.weighted(&[1, 6, 1]) {
        0 => laid(&t, s).laid.text,
        1 => {
            same_places = s.chance(1, 2);
            near(s, &p)
        }
        _ => {
            let cfg = Cfg { fuel: 2, ..Cfg::standard(s) };
            let t = gen::program(s, cfg);
            laid(&t, s).laid.text
        }
    };
    let a = &format!("{}{}", pad, if same_places { &spaced } else { &p.laid.text });
    let other = format!("{}{}", pad, other);
    let render = format!("{}\n=== and ===\n{}", a, other);
    let (ma, mb) = match (parse(a), parse(&other)) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return Ok(Case { render, nontrivial: false, skipped: Some("no program") }),
    };
    let (ta, tb) = fromratel::exact(|| (fromratel::module(&ma), fromratel::module(&mb)));
    let d = diff(&ta, &tb, false);
    fn equal<'a>(x: &Module<'a>, y: &Module<'a>) -> bool {
        x.body() == y.body()
    }
    for (x, y, want) in [(&ma, &ma, true), (&mb, &mb, true), (&ma, &mb, d.is_none()), (&mb, &ma, d.is_none())] {
        if equal(x, y) != want {
            return fail("equality", format!("the trees compare as {}, though {}", if want { "different" } else { "equal" }, d.map_or("they are the same".to_string(), |d| format!("they differ {}", d))), render);
        }
    }
    let with_locs = diff(&ta, &tb, true);
    for (pretty, x, y) in [(false, format!("{:?}", ma), format!("{:?}", mb)), (true, format!("{:#?}", ma.body()), format!("{:#?}", mb.body()))] {
        if (x == y) != with_locs.is_none() {
            return fail(
                "dump",
                format!("the {}dumps are {}, though {}", if pretty { "pretty " } else { "" }, if x == y { "equal" } else { "different" }, with_locs.map_or("the trees are the same".to_string(), |d| format!("the trees differ {}", d))),
                render,
            );
        }
    }
    s.label(if d.is_none() { "equal" } else { "different" });
    ok(render, t.count() >= 4)
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "two programs: two layouts of one program, a program and one that differs in a token or two, or two small ones; == on their bodies, both ways, and with themselves, and whether the dumps are equal, against comparing trees read field by field. Non-trivial: at least 4 nodes",
        assumptions: &[],
        subs: vec![Sub { name: "equal", quick: 400_000, thorough: 4_000_000, f: c21_equal }],
        probes: vec![],
    }
}

// ---- C22

#[derive(Default)]
struct Sites<'a> {
    /// expressions and where they are
    exprs: Vec<(&'a ExpressionNode<'a>, Vec<usize>)>,
    stmts: Vec<(&'a StatementNode<'a>, Vec<usize>)>,
    /// what only some expressions can be put in place of
    fixed: HashSet<usize>,
    parents: Vec<usize>,
}
fn addr<T>(n: &Node<T>) -> usize {
    &**n as *const Loc<T> as usize
}
fn assigns(op: &str) -> bool {
    op.ends_with('=') && !matches!(op, "==" | "===" | "!=" | "!==" | "<=" | ">=")
}
impl<'a> Sites<'a> {
    fn expr(&mut self, n: &'a ExpressionNode<'a>) {
        match n.item {
            Expression::Binary(ref b) if assigns(b.operator.as_str()) => {
                self.fixed.insert(addr(&b.left));
            }
            Expression::Prefix(ref p) if matches!(p.operator, OperatorKind::Increment | OperatorKind::Decrement | OperatorKind::New) => {
                self.fixed.insert(addr(&p.operand));
            }
            Expression::Postfix(ref p) => {
                self.fixed.insert(addr(&p.operand));
            }
            _ => {}
        }
        if !matches!(n.item, Expression::Void | Expression::Spread(_)) {
            self.exprs.push((n, self.parents.clone()));
        }
    }
    /// the values of object patterns are targets, too
    fn pattern(&mut self, p: &Node<'a, Pattern<'a>>) {
        match p.item {
            Pattern::ObjectPattern { ref properties } => {
                for p in properties.iter() {
                    match p.item {
                        Property::Literal { ref value, .. } => self.fixed.insert(addr(value)),
                        Property::Spread { ref argument } => self.fixed.insert(addr(argument)),
                        _ => false,
                    };
                }
            }
            Pattern::ArrayPattern { ref elements } => elements.iter().for_each(|p| self.pattern(p)),
            Pattern::AssignmentPattern { ref left, .. } => self.pattern(left),
            _ => {}
        }
    }
    fn declarators(&mut self, d: &DeclarationStatement<'a>) {
        d.declarators.iter().for_each(|d| self.pattern(&d.id));
    }
    fn params(&mut self, l: &PatternList<'a>) {
        l.iter().for_each(|p| self.pattern(p));
    }
    fn class(&mut self, b: &BlockNode<'a, ClassMember<'a>>) {
        for m in b.body.iter() {
            if let ClassMember::Method { ref value, .. } = m.item {
                self.params(&value.params);
            }
        }
    }
    fn head(&mut self, f: &Node<'a, ForInit<'a>>) {
        match f.item {
            ForInit::Declaration(ref d) => self.declarators(d),
            ForInit::Expression(ref e) => {
                self.fixed.insert(addr(e));
            }
        }
    }
    fn patterns_of(&mut self, n: &ParentNode<'a>) {
        match n {
            ParentNode::Expression(e) => match e.item {
                Expression::Function(ref f) => self.params(&f.params),
                Expression::Arrow(ref f) => self.params(&f.params),
                Expression::Class(ref c) => self.class(&c.body),
                Expression::Object(ref o) => {
                    for p in o.body.iter() {
                        if let Property::Method { ref value, .. } = p.item {
                            self.params(&value.params);
                        }
                    }
                }
                _ => {}
            },
            ParentNode::Statement(s) => match s.item {
                Statement::Declaration(ref d) => self.declarators(d),
                Statement::Function(ref f) => self.params(&f.params),
                Statement::Class(ref c) => self.class(&c.body),
                Statement::Try(ref t) => {
                    if let Some(h) = t.handler {
                        self.pattern(&h.param);
                    }
                }
                Statement::For(ref f) => {
                    if let Some(ForInit::Declaration(ref d)) = f.init.as_ref().map(|i| &i.item) {
                        self.declarators(d);
                    }
                }
                Statement::ForIn(ref f) => self.head(&f.left),
                Statement::ForOf(ref f) => self.head(&f.left),
                _ => {}
            },
        }
    }
    fn free(&self, a: usize, parents: &[usize]) -> bool {
        !self.fixed.contains(&a) && !parents.iter().any(|p| self.fixed.contains(p))
    }
}

macro_rules! sites {
    ($($f:ident $t:ty;)*) => {$(
        fn $f(&mut self, _: &$t, node: &'a ExpressionNode<'a>) {
            self.expr(node);
        }
    )*};
}
impl<'a> Visitor<'a> for Sites<'a> {
    fn push_parent(&mut self, node: ParentNode<'a>) {
        self.patterns_of(&node);
        self.parents.push(match node {
            ParentNode::Statement(s) => addr(s),
            ParentNode::Expression(e) => addr(e),
        });
    }
    fn pop_parent(&mut self) {
        self.parents.pop();
    }
    fn on_statement_list(&mut self, body: StatementList<'a>) {
        // a list is visited through the nodes it holds, wherever it is copied to
        let nodes: Vec<&'a StatementNode<'a>> = body.iter().collect();
        for n in nodes {
            self.stmts.push((n, self.parents.clone()));
        }
    }
    fn on_this_expression(&mut self, node: &'a ExpressionNode<'a>) {
        self.expr(node);
    }
    sites! {
        on_identifier_expression Identifier<'a>;
        on_literal_expression Literal<'a>;
        on_sequence_expression SequenceExpression<'a>;
        on_array_expression ArrayExpression<'a>;
        on_member_expression MemberExpression<'a>;
        on_computed_member_expression ComputedMemberExpression<'a>;
        on_call_expression CallExpression<'a>;
        on_binary_expression BinaryExpression<'a>;
        on_prefix_expression PrefixExpression<'a>;
        on_postfix_expression PostfixExpression<'a>;
        on_conditional_expression ConditionalExpression<'a>;
        on_template_literal TemplateLiteral<'a>;
        on_tagged_template_expression TaggedTemplateExpression<'a>;
        on_arrow_expression ArrowExpression<'a>;
        on_object_expression ObjectExpression<'a>;
        on_function_expression FunctionExpression<'a>;
        on_class_expression ClassExpression<'a>;
    }
}

fn sites<'a>(m: &'a Module<'a>) -> Sites<'a> {
    let mut x = Sites::default();
    m.visit_with(&mut x);
    x
}

/// Put the trees in place of their markers; counts the markers.
fn substitute(t: &mut Tree, trees: &[Tree], seen: &mut [usize]) {
    let n = match t.k {
        K::Ident => t.s.strip_prefix("__marker").and_then(|x| x.parse::<usize>().ok()),
        _ => None,
    };
    let inner = match t.k {
        K::ExprStmt if t.kids[0].k == K::Ident => t.kids[0].s.strip_prefix("__marker").and_then(|x| x.parse::<usize>().ok()),
        _ => None,
    };
    if let Some(n) = n.or(inner.filter(|n| trees[*n].k.is_statement())) {
        *t = trees[n].clone();
        seen[n] += 1;
        return;
    }
    t.kids.iter_mut().for_each(|k| substitute(k, trees, seen));
}

/// What is put where.
#[derive(Clone, Copy)]
enum Change<'a> {
    E { at: &'a ExpressionNode<'a>, old: &'a Loc<Expression<'a>>, new: &'a Loc<Expression<'a>> },
    S { at: &'a StatementNode<'a>, old: &'a Loc<Statement<'a>>, new: &'a Loc<Statement<'a>> },
}
fn expr_tree(e: &Loc<Expression>) -> Tree {
    fromratel::expr_item(&e.item, (e.start, e.end))
}
fn stmt_tree(e: &Loc<Statement>) -> Tree {
    fromratel::stmt_item(&e.item, (e.start, e.end))
}
impl<'a> Change<'a> {
    fn trees(&self) -> (Tree, Tree) {
        match *self {
            Change::E { old, new, .. } => (expr_tree(old), expr_tree(new)),
            Change::S { old, new, .. } => (stmt_tree(old), stmt_tree(new)),
        }
    }
    fn mark(&self, m: &'a Module<'a>, i: usize) {
        let name: &'a str = m.arena().alloc_str(&format!("__marker{}", i));
        let id: &'a Loc<Expression<'a>> = m.arena().alloc(Loc::new(0, 0, Expression::Identifier(name)));
        match *self {
            Change::E { at, .. } => at.set(id),
            Change::S { at, .. } => at.set(m.arena().alloc(Loc::new(0, 0, Statement::Expression(Node::new(id))))),
        }
    }
    fn make(&self) {
        match *self {
            Change::E { at, new, .. } => at.set(new),
            Change::S { at, new, .. } => at.set(new),
        }
    }
    fn undo(&self) {
        match *self {
            Change::E { at, old, .. } => at.set(old),
            Change::S { at, old, .. } => at.set(old),
        }
    }
}

/// Some place of a program and something of the donor's to put there
fn change<'a>(s: &mut Src, all: &Sites<'a>, donor: &'a Module<'a>) -> Option<(Change<'a>, usize, Vec<usize>)> {
    let ds = sites(donor);
    if s.chance(1, 4) {
        if all.stmts.is_empty() || ds.stmts.is_empty() {
            return None;
        }
        let (at, parents) = &all.stmts[s.below(all.stmts.len())];
        let new = ds.stmts[s.below(ds.stmts.len())].0;
        // only a program's own statement can be an import
        if matches!(new.item, Statement::Import(_)) && !parents.is_empty() {
            return None;
        }
        let new = if s.chance(1, 3) { donor.arena().alloc(Loc::new(0, 0, new.item)) } else { &**new };
        return Some((Change::S { at, old: at, new }, addr(at), parents.clone()));
    }
    if all.exprs.is_empty() || ds.exprs.is_empty() {
        return None;
    }
    let (at, parents) = &all.exprs[s.below(all.exprs.len())];
    let (new, above) = &ds.exprs[s.below(ds.exprs.len())];
    if !all.free(addr(at), parents) || !ds.free(addr(new), above) {
        return None;
    }
    // a node of its own, as a transform would make it, that has no place in any text
    let new = if s.chance(1, 3) { donor.arena().alloc(Loc::new(0, 0, new.item)) } else { &***new };
    Some((Change::E { at, old: at, new }, addr(at), parents.clone()))
}

fn check<'a>(m: &'a Module<'a>, want: &Tree, render: &str) -> Result<(), Failure> {
    let got = fromratel::module(m);
    if let Some(d) = diff(want, &got, true) {
        return fail("tree", format!("the edited tree is not what was edited: {}", d), render);
    }
    for minify in [true, false] {
        let out = codegen(m, minify);
        let what = if minify { "the minified output of the edited program" } else { "the pretty output of the edited program" };
        let r = format!("{}\n=== {} ===\n{}", render, what, out);
        let m2 = must_parse(&out, what, &r)?;
        if let Some(d) = diff(want, &fromratel::module(&m2), false) {
            return fail("output", format!("{} parses to another tree: {}", what, d), r);
        }
    }
    mirrors(m, want, render)
}

/// The JSON of the module is that of the tree
fn mirrors<'a>(m: &'a Module<'a>, want: &Tree, render: &str) -> Result<(), Failure> {
    let mut a = want.clone();
    fromjson::as_ratel_json(&mut a);
    let (_, j) = serialise(m, render)?;
    match fromjson::program(&j, Dialect::Ratel) {
        Err(e) => fail("json", e, render),
        Ok(mut b) => {
            fromjson::as_estree(&mut b);
            match diff(&a, &b, false) {
                Some(d) => fail("json", format!("tree and JSON of the edited program differ: {}", d), render),
                None => Ok(()),
            }
        }
    }
}

fn outputs(m: &Module) -> [String; 3] {
    [codegen(m, true), codegen(m, false), serde_json::to_string(m).unwrap()]
}

/// How many edits were made
fn edit<'a>(s: &mut Src, m: &'a Module<'a>, donors: &'a [Module<'a>], render: &str) -> Result<usize, Failure> {
    let before = outputs(m);
    let mut done: Vec<Change<'a>> = Vec::new();
    let mut left = donors;
    while !left.is_empty() {
        let tree = fromratel::module(m);
        let all = sites(m);
        let mut now: Vec<(Change<'a>, usize, Vec<usize>)> = Vec::new();
        for _ in 0..1 + s.below(3) {
            let Some((d, rest)) = left.split_first() else { break };
            left = rest;
            let Some(x) = change(s, &all, d) else { continue };
            // places inside of each other are for the next round
            if now.iter().all(|y| x.1 != y.1 && !x.2.contains(&y.1) && !y.2.contains(&x.1)) {
                now.push(x);
            }
        }
        if now.is_empty() {
            continue;
        }
        let (old, new): (Vec<Tree>, Vec<Tree>) = now.iter().map(|c| c.0.trees()).unzip();
        for (i, c) in now.iter().enumerate() {
            c.0.mark(m, i);
        }
        let marked = fromratel::module(m);
        let mut restored = marked.clone();
        let mut seen = vec![0; now.len()];
        substitute(&mut restored, &old, &mut seen);
        if let Some(i) = seen.iter().position(|n| *n != 1) {
            return fail("aliasing", format!("setting one node, that of {}, changes {} places", short(old[i].show()), seen[i]), render);
        }
        if let Some(d) = diff(&tree, &restored, true) {
            return fail("aliasing", format!("setting some nodes changes something else, too: {}", d), render);
        }
        for c in &now {
            c.0.make();
        }
        let mut want = marked;
        substitute(&mut want, &new, &mut seen);
        let edits: Vec<String> = now.iter().map(|c| c.0.trees()).map(|(o, n)| format!("{} by {}", short(o.show()), short(n.show()))).collect();
        check(m, &want, &format!("{}\n=== edited: ===\n{}", render, edits.join("\n")))?;
        done.extend(now.iter().map(|c| c.0));
    }
    for c in done.iter().rev() {
        c.undo();
    }
    if outputs(m) != before {
        return fail("undo", "taking the edits back does not bring the program back", render);
    }
    Ok(done.len())
}

fn forever<'a>(m: &'a Module<'a>, donors: &'a [Module<'a>], s: &mut Src, render: &str) -> Result<usize, Failure> {
    edit(s, m, donors, render)
}

fn c22_edit(s: &mut Src) -> PropResult {
    let t = program(s);
    let text = laid(&t, s).laid.text;
    let n = 1 + s.below(6);
    let donors: Vec<String> = (0..n)
        .map(|_| {
            let cfg = Cfg { fuel: [2, 4, 8][s.below(3)], ..Cfg::standard(s) };
            let t = gen::program(s, cfg);
            laid(&t, s).laid.text
        })
        .collect();
    let render = format!("{}\n=== donors ===\n{}", text, donors.join("\n---\n"));
    let m = match parse(&text) {
        Ok(m) => m,
        Err(_) => return Ok(Case { render, nontrivial: false, skipped: Some("rejected (see C04)") }),
    };
    let ds: Vec<Module> = donors.iter().filter_map(|d| parse(d).ok()).collect();
    set_current(&render);
    let n = forever(&m, &ds, s, &render)?;
    if n >= 3 {
        s.label("three edits or more");
    }
    ok(render, n >= 1 && t.count() >= 8)
}

// ---- transforms written with the transformer's context

/// What a transform does to the kinds of nodes it is for
#[derive(Clone, Copy)]
struct Rule {
    /// the kinds, as a set of bits
    kinds: u64,
    /// as soon as the node is visited, or after everything inside of it
    early: bool,
    /// wrapped in a call, an array or a sequence, with this many new nodes next to it
    how: usize,
    more: usize,
    /// the new nodes are replaced again, at once
    again: bool,
    /// the first new node is given to the list twice, once more at the end and next to itself
    twice: bool,
    statements: bool,
}
const KINDS: &[K] = &[
    K::This, K::Ident, K::Num, K::Str, K::Seq, K::Array, K::Member, K::CMember, K::Call, K::Bin, K::Prefix, K::Postfix, K::Cond, K::Template, K::Tagged, K::Spread, K::Arrow, K::Object,
    K::FuncExpr, K::ClassExpr,
];
fn kind(e: &Expression) -> Option<usize> {
    let k = match *e {
        Expression::This(_) => K::This,
        Expression::Identifier(_) => K::Ident,
        Expression::Literal(Literal::Number(_)) => K::Num,
        Expression::Literal(Literal::String(_)) => K::Str,
        Expression::Sequence(_) => K::Seq,
        Expression::Array(_) => K::Array,
        Expression::Member(_) => K::Member,
        Expression::ComputedMember(_) => K::CMember,
        Expression::Call(_) => K::Call,
        Expression::Binary(_) => K::Bin,
        Expression::Prefix(_) => K::Prefix,
        Expression::Postfix(_) => K::Postfix,
        Expression::Conditional(_) => K::Cond,
        Expression::Template(_) => K::Template,
        Expression::TaggedTemplate(_) => K::Tagged,
        Expression::Spread(_) => K::Spread,
        Expression::Arrow(_) => K::Arrow,
        Expression::Object(_) => K::Object,
        Expression::Function(_) => K::FuncExpr,
        Expression::Class(_) => K::ClassExpr,
        _ => return None,
    };
    KINDS.iter().position(|x| *x == k)
}
impl Rule {
    fn gen(s: &mut Src) -> Rule {
        let early = s.chance(1, 2);
        let mut kinds = 0;
        for _ in 0..[1, 2, 6, 20][s.below(4)] {
            kinds |= 1 << s.below(KINDS.len());
        }
        if !early {
            // these have nothing inside, the visitor does not come back to them
            kinds &= !0b1101;
        }
        Rule { kinds, early, how: s.below(3), more: [0, 1, 2, 3, 5, 9, 17][s.below(7)], again: s.chance(1, 3), twice: s.chance(1, 4), statements: !early && s.chance(1, 3) }
    }
    fn twins(&self) -> bool {
        self.twice && !self.again && self.more > 1
    }
    fn is_for(&self, k: usize) -> bool {
        self.kinds >> k & 1 == 1
    }
    /// the same on the model
    fn apply(&self, t: &mut Tree) {
        for i in 0..t.kids.len() {
            if t.k == K::Tagged && i == 1 {
                t.kids[i].kids.iter_mut().for_each(|k| self.apply(k));
            } else {
                self.apply(&mut t.kids[i]);
            }
        }
        if t.s == "(hole)" {
            return;
        }
        let loc = t.loc;
        if KINDS.iter().position(|x| *x == t.k).is_some_and(|k| self.is_for(k)) {
            let old = std::mem::replace(t, tl(K::Nil, "", loc, vec![]));
            let near = (old.loc.0, old.loc.1);
            let mut kids: Vec<Tree> = (0..self.more)
                .map(|i| {
                    let loc = if i % 2 == 0 { (0, 0) } else { near };
                    if self.again && i % 3 == 0 {
                        tl(K::Array, "", loc, vec![])
                    } else {
                        tl(K::Ident, &format!("new{}", i), loc, vec![])
                    }
                })
                .collect();
            kids.insert(self.more / 2, old);
            if self.twins() {
                kids.insert(0, kids[0].clone());
                kids.push(kids[0].clone());
            }
            *t = match self.how {
                0 => {
                    kids.insert(0, tl(K::Ident, "wrap", (0, 0), vec![]));
                    tl(K::Call, "", loc, kids)
                }
                1 => tl(K::Array, "", loc, kids),
                _ => tl(K::Seq, "", loc, kids),
            };
        } else if self.statements && t.k == K::ExprStmt {
            let old = std::mem::replace(t, tl(K::Nil, "", loc, vec![]));
            *t = tl(K::Block, "", loc, vec![old]);
        }
    }
}

struct Custom<'a> {
    ctx: ratel_transformer::TransformerCtxt<'a>,
    rule: Rule,
    parents: Vec<ParentNode<'a>>,
    done: usize,
}
impl<'a> Custom<'a> {
    fn wrap(&mut self, at: &'a ExpressionNode<'a>) {
        if !kind(&at.item).is_some_and(|k| self.rule.is_for(k)) {
            return;
        }
        self.done += 1;
        // the location that is there, with the very nodes inside
        let old: &'a Loc<Expression<'a>> = at;
        let old = Node::new(old);
        let mut nodes: Vec<ExpressionNode<'a>> = (0..self.rule.more)
            .map(|i| {
                let name: &'a str = self.ctx.arena.alloc_str(&format!("new{}", i));
                if i % 2 == 0 {
                    self.ctx.alloc(Expression::Identifier(name))
                } else {
                    self.ctx.alloc_as_loc(&old, Expression::Identifier(name))
                }
            })
            .collect();
        nodes.insert(self.rule.more / 2, old);
        if self.rule.twins() {
            nodes.insert(0, nodes[0]);
            nodes.push(nodes[0]);
        }
        let body = self.ctx.list(&nodes);
        if self.rule.again {
            // where they are in the tree: a node that is a local variable is no place the
            // compiler expects to change (toolshed's cell is none to it)
            let at = self.rule.more / 2;
            for (j, n) in body.iter().enumerate() {
                if j != at && (j - (j > at) as usize) % 3 == 0 {
                    self.ctx.swap(n, ArrayExpression { body: NodeList::empty() });
                }
            }
        }
        match self.rule.how {
            0 => {
                let callee = self.ctx.alloc(Expression::Identifier("wrap"));
                self.ctx.swap(at, CallExpression { callee, arguments: body })
            }
            1 => self.ctx.swap(at, ArrayExpression { body }),
            _ => self.ctx.swap(at, SequenceExpression { body }),
        }
    }
    fn early(&mut self, at: &'a ExpressionNode<'a>) {
        if self.rule.early {
            self.wrap(at);
        }
    }
}
macro_rules! early {
    ($($f:ident $t:ty;)*) => {$(
        fn $f(&mut self, _: &$t, node: &'a ExpressionNode<'a>) {
            self.early(node);
        }
    )*};
}
impl<'a> Visitor<'a> for Custom<'a> {
    fn push_parent(&mut self, node: ParentNode<'a>) {
        self.parents.push(node);
    }
    fn pop_parent(&mut self) {
        let node = self.parents.pop();
        if self.rule.early {
            return;
        }
        match node {
            Some(ParentNode::Expression(at)) => self.wrap(at),
            Some(ParentNode::Statement(at)) if self.rule.statements && matches!(at.item, Statement::Expression(_)) => {
                let old: &'a Loc<Statement<'a>> = at;
                let body = self.ctx.list([Node::new(old)]);
                self.ctx.swap(at, Statement::Block(Block { body }));
                self.done += 1;
            }
            _ => {}
        }
    }
    fn on_this_expression(&mut self, node: &'a ExpressionNode<'a>) {
        self.early(node);
    }
    early! {
        on_identifier_expression Identifier<'a>;
        on_literal_expression Literal<'a>;
        on_sequence_expression SequenceExpression<'a>;
        on_array_expression ArrayExpression<'a>;
        on_member_expression MemberExpression<'a>;
        on_computed_member_expression ComputedMemberExpression<'a>;
        on_call_expression CallExpression<'a>;
        on_binary_expression BinaryExpression<'a>;
        on_prefix_expression PrefixExpression<'a>;
        on_postfix_expression PostfixExpression<'a>;
        on_conditional_expression ConditionalExpression<'a>;
        on_template_literal TemplateLiteral<'a>;
        on_tagged_template_expression TaggedTemplateExpression<'a>;
        on_spread_expression SpreadExpression<'a>;
        on_arrow_expression ArrowExpression<'a>;
        on_object_expression ObjectExpression<'a>;
        on_function_expression FunctionExpression<'a>;
        on_class_expression ClassExpression<'a>;
    }
}

fn custom<'a>(m: &'a Module<'a>, rule: Rule, render: &str) -> Result<usize, Failure> {
    let arena = m.arena();
    let mut want = fromratel::exact(|| fromratel::module(m));
    let scope = arena.alloc(ratel_transformer::scope::Scope::new(ratel_visitor::ScopeKind::Function, None));
    let mut v = Custom { ctx: ratel_transformer::TransformerCtxt { arena, scope }, rule, parents: Vec::new(), done: 0 };
    m.visit_with(&mut v);
    rule.apply(&mut want);
    let got = fromratel::exact(|| fromratel::module(m));
    match diff(&want, &got, true) {
        Some(d) => fail("transform", format!("a transform that wraps nodes as it walks gives another tree: {}", d), render),
        None => {
            mirrors(m, &fromratel::module(m), render)?;
            Ok(v.done)
        }
    }
}
fn custom_forever<'a>(m: &'a Module<'a>, rule: Rule, render: &str) -> Result<usize, Failure> {
    custom(m, rule, render)
}

fn c22_transform(s: &mut Src) -> PropResult {
    let t = program(s);
    let text = laid(&t, s).laid.text;
    let rule = Rule::gen(s);
    let kinds: Vec<&K> = KINDS.iter().enumerate().filter(|(i, _)| rule.is_for(*i)).map(|x| x.1).collect();
    let render = format!(
        "{}\n=== {:?}{} wrapped in {} with {} more, {} their parts ===",
        text,
        kinds,
        if rule.statements { " and expression statements" } else { "" },
        ["a call", "an array", "a sequence"][rule.how],
        rule.more,
        if rule.early { "before" } else { "after" }
    );
    let m = match parse(&text) {
        Ok(m) => m,
        Err(_) => return Ok(Case { render, nontrivial: false, skipped: Some("rejected (see C04)") }),
    };
    set_current(&render);
    let n = custom_forever(&m, rule, &render)?;
    if n >= 3 {
        s.label("three nodes or more");
    }
    ok(render, n >= 1)
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "a program, and up to six others; in rounds, up to three places of the program - expressions but for assignment targets, statements of lists - are set to expressions or statements of the others. The tree read back must be the old one with these places replaced, both outputs must parse to it and the JSON must mirror it; taking the edits back must bring the program back. Non-trivial: at least one edit in a program of at least 8 nodes",
        assumptions: &["places are those the visitor reports (see C14)"],
        subs: vec![Sub { name: "edit", quick: 200_000, thorough: 3_000_000, f: c22_edit }, Sub { name: "transform", quick: 150_000, thorough: 2_000_000, f: c22_transform }],
        probes: vec![],
    }
}
