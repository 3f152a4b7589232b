//! C14 visitor, C15 scope analysis, C16 ES2015 transform.
use super::common::*;
use crate::engine::*;
use crate::fromratel;
use crate::print::{self, Opts};
use crate::tree::*;
use crate::{Prop, Sub};
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::*;
use ratel::Module;
use ratel_codegen::codegen;
use ratel_transformer::scope::{analyze, Scope};
use ratel_visitor::{ParentNode, ScopeKind, Visitable, Visitor};
use std::collections::BTreeSet;

fn source(s: &mut Src) -> (Tree, String) {
    // names declared more than once, in the same scope and in different ones
    let free_names = s.chance(1, 3);
    let cfg = crate::gen::Cfg { free_names, deepest: 1100, ..crate::gen::Cfg::standard(s) };
    let t = crate::gen::program(s, cfg);
    let o = Opts::gen(s);
    let p = print::print(&t, s, o);
    (t, p.laid.text)
}

// ---- C14

#[derive(PartialEq, Clone, Debug)]
enum What {
    Node(&'static str),
    List,
}

#[derive(PartialEq, Clone)]
struct Ev {
    what: What,
    /// the node, or the members of the list
    at: Vec<usize>,
    loc: (u32, u32),
    /// enclosing expressions and statements
    parents: Vec<usize>,
}

impl Ev {
    fn show(&self) -> String {
        match self.what {
            What::Node(n) => format!("{} at {}..{} below {} parents", n, self.loc.0, self.loc.1, self.parents.len()),
            What::List => format!("a list of {} statements below {} parents", self.at.len(), self.parents.len()),
        }
    }
}

fn addr<T>(n: &Node<T>) -> usize {
    &**n as *const Loc<T> as usize
}

/// What the walk does.
#[derive(Default)]
struct Rec {
    evs: Vec<Ev>,
    parents: Vec<usize>,
    scopes: Vec<ScopeKind>,
    entered: usize,
    bad: Option<String>,
}

impl Rec {
    fn node<T>(&mut self, name: &'static str, n: &Node<T>, item_ok: bool) {
        if !item_ok {
            self.bad.get_or_insert(format!("the item given to {} is not that of the node at {}..{}", name, n.start, n.end));
        }
        let parents = self.parents.clone();
        self.evs.push(Ev { what: What::Node(name), at: vec![addr(n)], loc: (n.start, n.end), parents });
    }
}

/// Equality of an item and a callback's argument of the same type, whose lifetime the trait
/// leaves open.
fn same<A: PartialEq, B>(x: &A, item: &B) -> bool {
    assert_eq!(std::mem::size_of::<A>(), std::mem::size_of::<B>());
    *x == *unsafe { &*(item as *const B as *const A) }
}

macro_rules! rec_expr {
    ($($f:ident $v:ident $t:ty;)*) => {$(
        fn $f(&mut self, item: &$t, node: &'ast ExpressionNode<'ast>) {
            let good = matches!(node.item, Expression::$v(ref x) if x == item);
            self.node(stringify!($v), node, good);
        }
    )*};
}
macro_rules! rec_stmt {
    ($($f:ident $v:ident $t:ty;)*) => {$(
        fn $f(&mut self, item: &$t, node: &'ast StatementNode<'ast>) {
            let good = matches!(node.item, Statement::$v(ref x) if same(x, item));
            self.node(concat!(stringify!($v), "Statement"), node, good);
        }
    )*};
}

impl<'ast> Visitor<'ast> for Rec {
    fn push_parent(&mut self, node: ParentNode<'ast>) {
        self.parents.push(match node {
            ParentNode::Statement(s) => addr(s),
            ParentNode::Expression(e) => addr(e),
        });
    }
    fn pop_parent(&mut self) {
        if self.parents.pop().is_none() {
            self.bad.get_or_insert("a parent is popped that was never pushed".into());
        }
    }
    fn on_statement_list(&mut self, body: StatementList<'ast>) {
        let parents = self.parents.clone();
        self.evs.push(Ev { what: What::List, at: body.iter().map(addr).collect(), loc: (0, 0), parents });
    }
    fn on_enter_scope(&mut self, kind: ScopeKind) {
        self.entered += 1;
        self.scopes.push(kind);
    }
    fn on_leave_scope(&mut self) {
        if self.scopes.pop().is_none() {
            self.bad.get_or_insert("a scope is left that was never entered".into());
        }
    }
    fn on_this_expression(&mut self, node: &'ast ExpressionNode<'ast>) {
        self.node("This", node, true);
    }
    fn on_meta_property(&mut self, item: &MetaPropertyExpression<'ast>, node: &ExpressionNode<'ast>) {
        let good = matches!(node.item, Expression::MetaProperty(ref x) if x == item);
        self.node("MetaProperty", node, good);
    }
    rec_expr! {
        on_identifier_expression Identifier Identifier<'ast>;
        on_literal_expression Literal Literal<'ast>;
        on_sequence_expression Sequence SequenceExpression<'ast>;
        on_array_expression Array ArrayExpression<'ast>;
        on_member_expression Member MemberExpression<'ast>;
        on_computed_member_expression ComputedMember ComputedMemberExpression<'ast>;
        on_call_expression Call CallExpression<'ast>;
        on_binary_expression Binary BinaryExpression<'ast>;
        on_prefix_expression Prefix PrefixExpression<'ast>;
        on_postfix_expression Postfix PostfixExpression<'ast>;
        on_conditional_expression Conditional ConditionalExpression<'ast>;
        on_template_literal Template TemplateLiteral<'ast>;
        on_tagged_template_expression TaggedTemplate TaggedTemplateExpression<'ast>;
        on_spread_expression Spread SpreadExpression<'ast>;
        on_arrow_expression Arrow ArrowExpression<'ast>;
        on_object_expression Object ObjectExpression<'ast>;
        on_function_expression Function FunctionExpression<'ast>;
        on_class_expression Class ClassExpression<'ast>;
    }
    rec_stmt! {
        on_expression_statement Expression ExpressionNode<'ast>;
        on_declaration_statement Declaration DeclarationStatement;
        on_return_statement Return ReturnStatement;
        on_break_statement Break BreakStatement;
        on_continue_statement Continue ContinueStatement;
        on_throw_statement Throw ThrowStatement;
        on_if_statement If IfStatement;
        on_while_statement While WhileStatement;
        on_do_statement Do DoStatement;
        on_for_statement For ForStatement;
        on_for_in_statement ForIn ForInStatement;
        on_for_of_statement ForOf ForOfStatement;
        on_try_statement Try TryStatement;
        on_block_statement Block BlockStatement<'ast>;
        on_labeled_statement Labeled LabeledStatement;
        on_switch_statement Switch SwitchStatement;
        on_function_statement Function FunctionStatement<'ast>;
        on_class_statement Class ClassStatement<'ast>;
        on_import_declaration_statement Import ImportDeclaration<'ast>;
    }
}

/// What the walk should do, read off the tree.
#[derive(Default)]
struct Want {
    evs: Vec<Ev>,
    parents: Vec<usize>,
}

impl Want {
    fn node<T>(&mut self, name: &'static str, n: &Node<T>) {
        let parents = self.parents.clone();
        self.evs.push(Ev { what: What::Node(name), at: vec![addr(n)], loc: (n.start, n.end), parents });
        self.parents.push(addr(n));
    }
    fn list(&mut self, l: &StatementList) {
        let parents = self.parents.clone();
        self.evs.push(Ev { what: What::List, at: l.iter().map(addr).collect(), loc: (0, 0), parents });
        l.iter().for_each(|s| self.stmt(s));
    }
    fn exprs(&mut self, l: &ExpressionList) {
        l.iter().for_each(|e| self.expr(e));
    }
    fn opt(&mut self, e: &Option<ExpressionNode>) {
        e.iter().for_each(|e| self.expr(e));
    }
    fn patterns(&mut self, l: &PatternList) {
        l.iter().for_each(|p| self.pattern(p));
    }
    fn pattern(&mut self, p: &Node<Pattern>) {
        match p.item {
            Pattern::Void | Pattern::Identifier(_) | Pattern::RestElement { .. } => {}
            Pattern::ObjectPattern { ref properties } => properties.iter().for_each(|p| self.property(p)),
            Pattern::ArrayPattern { ref elements } => self.patterns(elements),
            Pattern::AssignmentPattern { ref left, ref right } => {
                self.pattern(left);
                self.expr(right)
            }
        }
    }
    fn key(&mut self, k: &Node<PropertyKey>) {
        if let PropertyKey::Computed(ref e) = k.item {
            self.expr(e)
        }
    }
    fn property(&mut self, p: &Node<Property>) {
        match p.item {
            Property::Shorthand(_) => {}
            Property::Literal { ref key, ref value } => {
                self.key(key);
                self.expr(value)
            }
            Property::Method { ref key, ref value } => {
                self.key(key);
                self.function(value)
            }
            Property::Spread { ref argument } => self.expr(argument),
        }
    }
    fn function<'a, N: Name<'a>>(&mut self, f: &Function<'a, N>) {
        self.patterns(&f.params);
        self.list(&f.body.body);
    }
    fn class<'a, N: Name<'a>>(&mut self, c: &Class<'a, N>) {
        self.opt(&c.extends);
        for m in c.body.body.iter() {
            match m.item {
                ClassMember::Error => {}
                ClassMember::Method { ref key, ref value, .. } => {
                    self.key(key);
                    self.function(value)
                }
                ClassMember::Literal { ref key, ref value, .. } => {
                    self.key(key);
                    self.expr(value)
                }
            }
        }
    }
    fn expr(&mut self, e: &ExpressionNode) {
        use ratel::ast::Expression as E;
        let name = match e.item {
            E::Void => return,
            E::This(_) => "This",
            E::Identifier(_) => "Identifier",
            E::Literal(_) => "Literal",
            E::Sequence(_) => "Sequence",
            E::Array(_) => "Array",
            E::Member(_) => "Member",
            E::ComputedMember(_) => "ComputedMember",
            E::MetaProperty(_) => "MetaProperty",
            E::Call(_) => "Call",
            E::Binary(_) => "Binary",
            E::Prefix(_) => "Prefix",
            E::Postfix(_) => "Postfix",
            E::Conditional(_) => "Conditional",
            E::Template(_) => "Template",
            E::TaggedTemplate(_) => "TaggedTemplate",
            E::Spread(_) => "Spread",
            E::Arrow(_) => "Arrow",
            E::Object(_) => "Object",
            E::Function(_) => "Function",
            E::Class(_) => "Class",
        };
        self.node(name, e);
        match e.item {
            E::Void | E::This(_) | E::Identifier(_) | E::Literal(_) | E::MetaProperty(_) => {}
            E::Sequence(ref x) => self.exprs(&x.body),
            E::Array(ref x) => self.exprs(&x.body),
            E::Member(ref x) => self.expr(&x.object),
            E::ComputedMember(ref x) => {
                self.expr(&x.object);
                self.expr(&x.property)
            }
            E::Call(ref x) => {
                self.expr(&x.callee);
                self.exprs(&x.arguments)
            }
            E::Binary(ref x) => {
                self.expr(&x.left);
                self.expr(&x.right)
            }
            E::Prefix(ref x) => self.expr(&x.operand),
            E::Postfix(ref x) => self.expr(&x.operand),
            E::Conditional(ref x) => {
                self.expr(&x.test);
                self.expr(&x.consequent);
                self.expr(&x.alternate)
            }
            E::Template(ref x) => self.exprs(&x.expressions),
            E::TaggedTemplate(ref x) => {
                self.expr(&x.tag);
                self.exprs(&x.quasi.expressions)
            }
            E::Spread(ref x) => self.expr(&x.argument),
            E::Arrow(ref x) => {
                self.patterns(&x.params);
                match x.body {
                    ArrowBody::Expression(ref e) => self.expr(e),
                    ArrowBody::Block(ref b) => self.list(&b.body),
                }
            }
            E::Object(ref x) => x.body.iter().for_each(|p| self.property(p)),
            E::Function(ref x) => self.function(x),
            E::Class(ref x) => self.class(x),
        }
        self.parents.pop();
    }
    fn init(&mut self, i: &Node<ForInit>) {
        match i.item {
            ForInit::Declaration(ref d) => self.declaration(d),
            ForInit::Expression(ref e) => self.expr(e),
        }
    }
    fn declaration(&mut self, d: &DeclarationStatement) {
        for d in d.declarators.iter() {
            self.pattern(&d.id);
            self.opt(&d.init);
        }
    }
    fn stmt(&mut self, s: &StatementNode) {
        use ratel::ast::Statement as S;
        let name = match s.item {
            S::Empty | S::Debugger => return,
            S::Expression(_) => "ExpressionStatement",
            S::Declaration(_) => "DeclarationStatement",
            S::Return(_) => "ReturnStatement",
            S::Break(_) => "BreakStatement",
            S::Continue(_) => "ContinueStatement",
            S::Throw(_) => "ThrowStatement",
            S::If(_) => "IfStatement",
            S::While(_) => "WhileStatement",
            S::Do(_) => "DoStatement",
            S::For(_) => "ForStatement",
            S::ForIn(_) => "ForInStatement",
            S::ForOf(_) => "ForOfStatement",
            S::Try(_) => "TryStatement",
            S::Block(_) => "BlockStatement",
            S::Labeled(_) => "LabeledStatement",
            S::Switch(_) => "SwitchStatement",
            S::Function(_) => "FunctionStatement",
            S::Class(_) => "ClassStatement",
            S::Import(_) => "ImportStatement",
        };
        self.node(name, s);
        match s.item {
            S::Empty | S::Debugger | S::Break(_) | S::Continue(_) | S::Import(_) => {}
            S::Expression(ref x) => self.expr(x),
            S::Declaration(ref x) => self.declaration(x),
            S::Return(ref x) => self.opt(&x.value),
            S::Throw(ref x) => self.expr(&x.value),
            S::If(ref x) => {
                self.expr(&x.test);
                self.stmt(&x.consequent);
                x.alternate.iter().for_each(|s| self.stmt(s))
            }
            S::While(ref x) => {
                self.expr(&x.test);
                self.stmt(&x.body)
            }
            S::Do(ref x) => {
                self.stmt(&x.body);
                self.expr(&x.test)
            }
            S::For(ref x) => {
                x.init.iter().for_each(|i| self.init(i));
                self.opt(&x.test);
                self.opt(&x.update);
                self.stmt(&x.body)
            }
            S::ForIn(ref x) => {
                self.init(&x.left);
                self.expr(&x.right);
                self.stmt(&x.body)
            }
            S::ForOf(ref x) => {
                self.init(&x.left);
                self.expr(&x.right);
                self.stmt(&x.body)
            }
            S::Try(ref x) => {
                self.list(&x.block.body);
                if let Some(ref h) = x.handler {
                    self.pattern(&h.param);
                    self.list(&h.body.body);
                }
                x.finalizer.iter().for_each(|b| self.list(&b.body))
            }
            S::Block(ref x) => self.list(&x.body),
            S::Labeled(ref x) => self.stmt(&x.body),
            S::Switch(ref x) => {
                self.expr(&x.discriminant);
                for c in x.cases.body.iter() {
                    self.opt(&c.test);
                    self.list(&c.consequent);
                }
            }
            S::Function(ref x) => self.function(x),
            S::Class(ref x) => self.class(x),
        }
        self.parents.pop();
    }
}

fn walked<'a>(m: &'a Module<'a>) -> Rec {
    let mut r = Rec::default();
    m.visit_with(&mut r);
    r
}

/// All callbacks of a walk, in order.
pub fn walk_text<'a>(m: &'a Module<'a>) -> String {
    let r = walked(m);
    let mut out: Vec<String> = r.evs.iter().map(|e| e.show()).collect();
    out.push(format!("{:?} {} {}", r.bad, r.parents.len(), r.scopes.len()));
    out.join("\n")
}

fn compare_walk<'a>(m: &'a Module<'a>, text: &str) -> Result<usize, Failure> {
    let mut want = Want::default();
    want.list(&m.body());
    compare_events(walked(m), want, text)
}

/// The nodes a walk passes that have parts.
#[derive(Default)]
struct Inner<'a>(Vec<ParentNode<'a>>);

impl<'a> Visitor<'a> for Inner<'a> {
    fn push_parent(&mut self, node: ParentNode<'a>) {
        self.0.push(node);
    }
}

/// A part of the tree is walked alone as it is within the tree.
fn compare_part<'a>(s: &mut Src, m: &'a Module<'a>, text: &str) -> Result<usize, Failure> {
    let mut all = Inner::default();
    m.visit_with(&mut all);
    if all.0.is_empty() {
        return Ok(0);
    }
    let (mut got, mut want) = (Rec::default(), Want::default());
    match all.0[s.below(all.0.len())] {
        ParentNode::Statement(n) => {
            n.visit_with(&mut got);
            want.stmt(n);
        }
        ParentNode::Expression(n) => {
            n.visit_with(&mut got);
            want.expr(n);
        }
    }
    compare_events(got, want, text)
}

fn compare_events(got: Rec, want: Want, text: &str) -> Result<usize, Failure> {
    if let Some(b) = got.bad {
        return fail("visitor", b, text);
    }
    for (i, w) in want.evs.iter().enumerate() {
        match got.evs.get(i) {
            Some(g) if g == w => {}
            Some(g) => {
                let same = g.what == w.what && g.at == w.at;
                let d = if same { " (its parents differ)" } else { "" };
                return fail("visitor", format!("callback {} is {}, expected {}{}", i, g.show(), w.show(), d), text);
            }
            None => return fail("visitor", format!("no callback {}: {}", i, w.show()), text),
        }
    }
    if let Some(g) = got.evs.get(want.evs.len()) {
        return fail("visitor", format!("one callback too many: {}", g.show()), text);
    }
    if !got.parents.is_empty() || !got.scopes.is_empty() {
        return fail("visitor", format!("{} parents and {} scopes are left at the end", got.parents.len(), got.scopes.len()), text);
    }
    Ok(want.evs.len())
}

/// What the walk says of names, scope by scope.
struct Names(Vec<Sc>);

impl<'ast> Visitor<'ast> for Names {
    fn on_enter_scope(&mut self, kind: ScopeKind) {
        self.0.push(Sc { block: kind == ScopeKind::Block, ..Sc::default() });
    }
    fn on_leave_scope(&mut self) {
        if self.0.len() > 1 {
            let c = self.0.pop().unwrap();
            self.0.last_mut().unwrap().children.push(c);
        }
    }
    fn on_reference_use(&mut self, ident: &Identifier<'ast>) {
        self.0.last_mut().unwrap().each.push(format!("-{}", ident));
    }
    fn on_reference_declaration(&mut self, ident: &Identifier<'ast>) {
        self.0.last_mut().unwrap().each.push(format!("+{}", ident));
    }
}

fn names_diff(want: &mut Sc, got: &mut Sc, path: &str) -> Option<String> {
    want.each.sort();
    got.each.sort();
    if want.each != got.each {
        return Some(format!("scope {}: the names reported are {:?}, expected {:?}", path, got.each, want.each));
    }
    if want.block != got.block || want.children.len() != got.children.len() {
        return Some(format!("scope {} (block: {}) has {} scopes in it, expected {} (block: {})", path, got.block, got.children.len(), want.children.len(), want.block));
    }
    want.children.iter_mut().zip(&mut got.children).enumerate().find_map(|(i, (a, b))| names_diff(a, b, &format!("{}/{}", path, i)))
}

fn compare_names<'a>(m: &'a Module<'a>, t: &Tree, text: &str) -> Result<(), Failure> {
    let mut want = Sc::default();
    want.walk(t);
    let mut got = Names(vec![Sc::default()]);
    m.visit_with(&mut got);
    let mut got = got.0.pop().unwrap();
    match names_diff(&mut want, &mut got, "root") {
        Some(d) => fail("names", d, text),
        None => Ok(()),
    }
}

fn c14_walk(s: &mut Src) -> PropResult {
    let (t, text) = source(s);
    let m = match parse(&text) {
        Ok(m) => m,
        Err(_) => return Ok(Case { render: text.to_string(), nontrivial: false, skipped: Some("rejected (see C04)") }),
    };
    compare_walk(&m, &text)?;
    compare_part(s, &m, &text)?;
    compare_names(&m, &t, &text)?;
    ok(&*text, t.count() >= 8 && t.depth() >= 4)
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "a random program is walked with a visitor that records every node and statement-list callback, the item it gets and the stack of pushed parents; the record has to equal the one an independent recursion over the tree makes (same nodes by address, same order, same chains of parents), and scopes and parents have to balance; a part of the tree is walked alone; every use and declaration of a name is reported once, in its scope. Non-trivial: at least 8 nodes and depth 4.",
        assumptions: &["the template of a tagged template, function bodies, try blocks and the declaration of a for loop are no expression or statement nodes of their own", "identifiers, literals and this may or may not be pushed as parents: they have no children"],
        subs: vec![Sub { name: "walk", quick: 400_000, thorough: 2_000_000, f: c14_walk }],
        probes: vec![],
    }
}

// ---- C15

#[derive(PartialEq, Debug, Default)]
struct Sc {
    block: bool,
    this: bool,
    used: BTreeSet<String>,
    declared: BTreeSet<String>,
    children: Vec<Sc>,
    /// every use (-) and declaration (+), as often as there are
    each: Vec<String>,
}

impl Sc {
    fn child(&mut self, block: bool, f: impl FnOnce(&mut Sc)) {
        let mut c = Sc { block, ..Sc::default() };
        f(&mut c);
        self.children.push(c);
    }
    fn all(&mut self, ts: &[Tree]) {
        ts.iter().for_each(|t| self.walk(t));
    }
    fn declare(&mut self, t: &Tree) {
        self.declared.insert(t.s.clone());
        self.each.push(format!("+{}", t.s));
    }
    /// a binding pattern, and an expression that stands for one
    fn bind(&mut self, t: &Tree) {
        use K::*;
        match t.k {
            PVoid | Hole => {}
            PIdent | Ident | Shorthand | Name => self.declare(t),
            PArray | PRest | PObject | Array | Object | Spread | PSpread => t.kids.iter().for_each(|k| self.bind(k)),
            Prop => {
                self.walk(&t.kids[0]);
                self.bind(&t.kids[1]);
            }
            PAssign => {
                self.bind(&t.kids[0]);
                self.walk(&t.kids[1]);
            }
            Bin if t.s == "=" => {
                self.bind(&t.kids[0]);
                self.walk(&t.kids[1]);
            }
            _ => self.walk(t),
        }
    }
    /// parameters and body, in a scope of their own
    fn function(&mut self, params: &Tree, body: &Tree) {
        self.child(false, |c| {
            params.kids.iter().for_each(|p| c.bind(p));
            match body.k {
                K::Block => c.all(&body.kids),
                _ => c.walk(body),
            }
        });
    }
    fn walk(&mut self, t: &Tree) {
        use K::*;
        match t.k {
            This => self.this = true,
            Ident | Shorthand => {
                self.used.insert(t.s.clone());
                self.each.push(format!("-{}", t.s));
            }
            Member => self.walk(&t.kids[0]),
            Meta | Name | Break | Continue => {}
            Arrow => self.function(&t.kids[0], &t.kids[1]),
            MethodFn => self.function(&t.kids[0], &t.kids[1]),
            FuncExpr => self.function(&t.kids[1], &t.kids[2]),
            FuncStmt => {
                self.declare(&t.kids[0]);
                self.function(&t.kids[1], &t.kids[2]);
            }
            ClassStmt => {
                self.declare(&t.kids[0]);
                self.all(&t.kids[1..]);
            }
            ClassExpr => self.all(&t.kids[1..]),
            Declarator => {
                self.bind(&t.kids[0]);
                self.walk(&t.kids[1]);
            }
            Block | Cases => self.child(true, |c| c.all(&t.kids)),
            Catch => self.child(true, |c| {
                c.bind(&t.kids[0]);
                c.all(&t.kids[1].kids);
            }),
            Import => {
                for s in &t.kids {
                    self.declare(s.kids.last().unwrap());
                }
            }
            _ => self.all(&t.kids),
        }
    }
}

fn scope_of<'a>(s: &'a Scope<'a>) -> Result<Sc, String> {
    let mut children = Vec::new();
    for c in s.children.as_list().iter() {
        let c: &'a Scope<'a> = c;
        match c.parent {
            Some(p) if p.as_usize() == s.as_usize() => {}
            _ => return Err("a scope is not the parent of its child".into()),
        }
        if c.parent != Some(s) || c == s || unsafe { Scope::from_usize(c.as_usize()) } != c {
            return Err("scopes are compared by something else than which one they are".into());
        }
        children.push(scope_of(c)?);
    }
    let names = |m: &toolshed::map::BloomMap<'a, &'a str, ()>, what: &str| -> Result<BTreeSet<String>, String> {
        let mut out = BTreeSet::new();
        for (k, _) in m.iter() {
            if !m.contains_key(*k) {
                return Err(format!("{} is listed as {} but not found", k, what));
            }
            if !out.insert(k.to_string()) {
                return Err(format!("{} is listed as {} twice", k, what));
            }
        }
        if m.is_empty() != out.is_empty() {
            return Err(format!("is_empty of the names {} is wrong", what));
        }
        Ok(out)
    };
    if s.used_super.get() {
        return Err("super is said to be used".into());
    }
    Ok(Sc {
        block: s.kind == ScopeKind::Block,
        this: s.used_this.get(),
        used: names(&s.used_refs, "used")?,
        declared: names(&s.declared_refs, "declared")?,
        children,
        each: vec![],
    })
}

fn scope_diff(want: &Sc, got: &Sc, path: &str) -> Option<String> {
    if want.block != got.block {
        return Some(format!("scope {} is a {} scope", path, if got.block { "block" } else { "function" }));
    }
    if want.this != got.this {
        return Some(format!("scope {}: used_this is {}", path, got.this));
    }
    if want.declared != got.declared {
        return Some(format!("scope {} declares {:?}, expected {:?}", path, got.declared, want.declared));
    }
    if want.used != got.used {
        return Some(format!("scope {} uses {:?}, expected {:?}", path, got.used, want.used));
    }
    if want.children.len() != got.children.len() {
        return Some(format!("scope {} has {} children, expected {}", path, got.children.len(), want.children.len()));
    }
    want.children.iter().zip(&got.children).enumerate().find_map(|(i, (a, b))| scope_diff(a, b, &format!("{}/{}", path, i)))
}

fn total(s: &Sc, f: &dyn Fn(&Sc) -> usize) -> usize {
    f(s) + s.children.iter().map(|c| total(c, f)).sum::<usize>()
}
fn count(s: &Sc) -> usize {
    total(s, &|_| 1)
}

pub fn analysed<'a>(m: &'a Module<'a>) -> String {
    format!("{:?}", scope_of(analyze(m)))
}

fn c15_scopes(s: &mut Src) -> PropResult {
    let (t, text) = source(s);
    let m = match parse(&text) {
        Ok(m) => m,
        Err(_) => return Ok(Case { render: text.to_string(), nontrivial: false, skipped: Some("rejected (see C04)") }),
    };
    let mut want = Sc::default();
    want.walk(&t);
    let root = analyze(&m);
    if root.parent.is_some() {
        return fail("scopes", "the root scope has a parent", &*text);
    }
    let got = match scope_of(root) {
        Ok(g) => g,
        Err(e) => return fail("scopes", e, &*text),
    };
    match scope_diff(&want, &got, "root") {
        Some(d) => fail("scopes", d, &*text),
        None => {
            let n = count(&want);
            // the dump has every name of every scope
            let dump = format!("{:?}", root);
            let there = total(&want, &|s| s.used.len() + s.declared.len());
            let found = dump.matches('"').count() / 2;
            if found != there {
                return fail("dump", format!("the dump of scopes with {} names has {}", there, found), format!("{}\n=== dump ===\n{}", text, short(dump)));
            }
            if n >= 4 {
                s.label("at least 4 scopes");
            }
            ok(&*text, n >= 2 && !(want.used.is_empty() && want.declared.is_empty()))
        }
    }
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "the scope tree of a random program is compared with the one computed from the generated tree (not from ratel's): kinds, nesting, order, declared and used names as sets, use of this, parent links; its debug dump lists them all. Non-trivial: at least two scopes and a name in the outermost one.",
        assumptions: &["the cases of a switch form a block", "names declared by a for loop's head belong to the scope around the loop; var is not hoisted out of blocks (each name is listed where it is written)", "`undefined` is a literal", "the names of function and class expressions are not declared anywhere (fixed by the repository's tests)"],
        subs: vec![Sub { name: "scopes", quick: 400_000, thorough: 2_000_000, f: c15_scopes }],
        probes: vec![],
    }
}

// ---- C16

/// The transformed tree: every arrow as a function.
fn without_arrows(t: &Tree, n: &mut usize) -> Tree {
    let mut kids: Vec<Tree> = t.kids.iter().map(|k| without_arrows(k, n)).collect();
    if t.k != K::Arrow {
        return Tree { k: t.k, s: t.s.clone(), loc: t.loc, kids };
    }
    *n += 1;
    let body = kids.pop().unwrap();
    let params = kids.pop().unwrap();
    let body = match body.k {
        K::Block => body,
        _ => {
            let loc = body.loc;
            tl(K::Block, "", loc, vec![tl(K::Return, "", loc, vec![body])])
        }
    };
    tl(K::FuncExpr, "", t.loc, vec![nil(), params, body])
}

fn c16_transform(s: &mut Src) -> PropResult {
    let (t, text) = source(s);
    let m = match parse(&text) {
        Ok(m) => m,
        Err(_) => return Ok(Case { render: text.to_string(), nontrivial: false, skipped: Some("rejected (see C04)") }),
    };
    let before = fromratel::module(&m);
    let mut n = 0;
    let want = without_arrows(&before, &mut n);
    ratel_transformer::transform(&m);
    let got = fromratel::module(&m);
    if let Some(d) = diff(&want, &got, true) {
        return fail("tree", format!("the transformed program differs: {}", d), format!("{}\n=== transformed ===\n{}", text, codegen(&m, false)));
    }
    // the same program written with functions
    let plain = Opts { mode: print::Mode::Spaced, parens: 0, asi: 0, exotic: false, room: true };
    let written = print::print(&without_arrows(&t, &mut 0), s, plain).laid.text;
    if let Ok(m2) = ratel::parse(&written) {
        for minify in [true, false] {
            let (x, y) = (codegen(&m, minify), codegen(&m2, minify));
            // texts may differ in a comma at the end of an array
            let b = match ratel::parse(&y) {
                Ok(b) => fromratel::module(&b),
                Err(_) => continue,
            };
            if ratel::parse(&x).map(|a| fromratel::module(&a)).ok() != Some(b) {
                return fail("print", format!("the transformed program prints as {:?}, the same program with functions as {:?}", x, y), &*text);
            }
        }
    }
    ratel_transformer::transform(&m);
    if let Some(d) = diff(&want, &fromratel::module(&m), true) {
        return fail("again", format!("transforming again changes the program: {}", d), &*text);
    }
    if n > 1 {
        s.label("several arrows");
    }
    ok(&*text, n >= 1)
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "a random program is transformed in place; the tree has to equal the original with every arrow replaced by the equivalent function (locations included; the block and return made for an expression body are located at the expression), print in both modes as the same program written with functions does, and transforming again must change nothing. Non-trivial: at least one arrow.",
        assumptions: &["what `this` means inside a replaced arrow is not part of the property"],
        subs: vec![Sub { name: "transform", quick: 400_000, thorough: 2_000_000, f: c16_transform }],
        probes: vec![],
    }
}
