//! ratel's AST (through its public API) to the canonical tree.
use crate::tree::{nil, t, tl, Tree, K, K::*};
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::*;
use ratel::Module;

thread_local! {
    static ALL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn all() -> bool {
    ALL.with(|h| h.get())
}
/// Trees exactly as ratel has them, with a hole for the comma at the end of an array, and the
/// location of every hole and of the call inside of a `new`.
pub fn exact<T>(f: impl FnOnce() -> T) -> T {
    ALL.with(|h| h.set(true));
    let r = f();
    ALL.with(|h| h.set(false));
    r
}

pub fn module(m: &Module) -> Tree {
    t(K::Program, "", stmts(&m.body()))
}

fn stmts(l: &StatementList) -> Vec<Tree> {
    l.iter().map(stmt).collect()
}
fn exprs(l: &ExpressionList) -> Vec<Tree> {
    l.iter().map(expr).collect()
}
fn opt<T>(o: &Option<T>, f: impl Fn(&T) -> Tree) -> Tree {
    match o {
        Some(x) => f(x),
        None => nil(),
    }
}
fn name<'a>(n: &IdentifierNode<'a>) -> Tree {
    tl(Name, n.item, (n.start, n.end), vec![])
}
pub fn key(k: &Node<PropertyKey>) -> Tree {
    let loc = (k.start, k.end);
    match k.item {
        PropertyKey::Computed(ref e) => tl(KeyComputed, "", loc, vec![expr(e)]),
        PropertyKey::Literal(s) => tl(KeyLit, s, loc, vec![]),
        PropertyKey::Binary(s) => tl(KeyBin, s, loc, vec![]),
    }
}
fn block<'a>(b: &BlockNode<'a, Statement<'a>>) -> Tree {
    tl(Block, "", (b.start, b.end), stmts(&b.body))
}
fn method_fn(f: &Node<Function<EmptyName>>) -> Tree {
    tl(MethodFn, if f.generator { "*" } else { "" }, (f.start, f.end), vec![list(patterns(&f.params)), block(&f.body)])
}
fn list(v: Vec<Tree>) -> Tree {
    t(List, "", v)
}
fn patterns(p: &PatternList) -> Vec<Tree> {
    p.iter().map(pattern).collect()
}
/// One trailing hole stands for the trailing comma.
fn drop_last_hole(mut v: Vec<Tree>, hole: K) -> Vec<Tree> {
    if !all() && v.last().is_some_and(|x| x.k == hole) {
        v.pop();
    }
    v
}
pub fn pattern(p: &Node<Pattern>) -> Tree {
    let loc = (p.start, p.end);
    match p.item {
        Pattern::Void if all() => tl(PIdent, "(hole)", loc, vec![]),
        Pattern::Void => tl(PVoid, "", loc, vec![]),
        Pattern::Identifier(s) => tl(PIdent, s, loc, vec![]),
        Pattern::ObjectPattern { ref properties } => tl(PObject, "", loc, properties.iter().map(property).collect()),
        Pattern::ArrayPattern { ref elements } => tl(PArray, "", loc, drop_last_hole(patterns(elements), PVoid)),
        Pattern::RestElement { ref argument } => tl(PRest, "", loc, vec![name(argument)]),
        Pattern::AssignmentPattern { ref left, ref right } => tl(PAssign, "", loc, vec![pattern(left), expr(right)]),
    }
}
pub fn property(p: &Node<Property>) -> Tree {
    let loc = (p.start, p.end);
    match p.item {
        Property::Shorthand(s) => tl(Shorthand, s, loc, vec![]),
        Property::Literal { key: ref k, ref value } => tl(Prop, "", loc, vec![key(k), expr(value)]),
        Property::Method { key: ref k, ref value } => tl(Method, "", loc, vec![key(k), method_fn(value)]),
        Property::Spread { ref argument } => tl(PSpread, "", loc, vec![expr(argument)]),
    }
}
fn template(tpl: &TemplateLiteral, loc: (u32, u32)) -> Tree {
    let mut kids = Vec::new();
    let mut es = tpl.expressions.iter();
    for q in tpl.quasis.iter() {
        kids.push(tl(Quasi, q.item, (q.start, q.end), vec![]));
        if let Some(e) = es.next() {
            kids.push(expr(e));
        }
    }
    for e in es {
        kids.push(expr(e));
    }
    tl(Template, "", loc, kids)
}
fn class_body<'a>(b: &BlockNode<'a, ClassMember<'a>>) -> Tree {
    let ms = b
        .body
        .iter()
        .map(|m| {
            let loc = (m.start, m.end);
            match m.item {
                ClassMember::Error => tl(Hole, "class member error", loc, vec![]),
                ClassMember::Method { is_static, key: ref k, kind, ref value } => {
                    let kind = match kind {
                        MethodKind::Constructor => "constructor",
                        MethodKind::Method => "method",
                        MethodKind::Get => "get",
                        MethodKind::Set => "set",
                    };
                    let s = if is_static { format!("static {}", kind) } else { kind.to_string() };
                    tl(CMethod, &s, loc, vec![key(k), method_fn(value)])
                }
                ClassMember::Literal { is_static, key: ref k, ref value } => {
                    tl(CField, if is_static { "static" } else { "" }, loc, vec![key(k), expr(value)])
                }
            }
        })
        .collect();
    tl(ClassBody, "", (b.start, b.end), ms)
}
pub fn expr(e: &ExpressionNode) -> Tree {
    let loc = (e.start, e.end);
    expr_item(&e.item, loc)
}
pub fn expr_item(item: &Expression, loc: (u32, u32)) -> Tree {
    use ratel::ast::Expression as E;
    match *item {
        E::Void if all() => tl(Ident, "(hole)", loc, vec![]),
        E::Void => tl(Hole, "", loc, vec![]),
        E::This(_) => tl(This, "", loc, vec![]),
        E::Identifier(s) => tl(Ident, s, loc, vec![]),
        E::Literal(l) => match l {
            Literal::Undefined => tl(Undefined, "", loc, vec![]),
            Literal::Null => tl(Null, "", loc, vec![]),
            Literal::True => tl(True, "", loc, vec![]),
            Literal::False => tl(False, "", loc, vec![]),
            Literal::Number(s) => tl(Num, s, loc, vec![]),
            Literal::Binary(s) => tl(BinNum, s, loc, vec![]),
            Literal::String(s) => tl(Str, s, loc, vec![]),
            Literal::RegEx(s) => tl(Regex, s, loc, vec![]),
        },
        E::Sequence(ref s) => tl(Seq, "", loc, exprs(&s.body)),
        E::Array(ref a) => tl(Array, "", loc, drop_last_hole(exprs(&a.body), Hole)),
        E::Member(ref m) => tl(Member, "", loc, vec![expr(&m.object), name(&m.property)]),
        E::ComputedMember(ref m) => tl(CMember, "", loc, vec![expr(&m.object), expr(&m.property)]),
        E::MetaProperty(ref m) => tl(Meta, "", loc, vec![name(&m.meta), name(&m.property)]),
        E::Call(ref c) => {
            let mut kids = vec![expr(&c.callee)];
            kids.extend(exprs(&c.arguments));
            tl(Call, "", loc, kids)
        }
        E::Binary(ref b) => {
            let o = b.operator;
            misused(o, if !o.infix() { "infix" } else if o.assignment() != assigns(o.as_str()) { "assignment" } else { "" });
            tl(Bin, o.as_str(), loc, vec![expr(&b.left), expr(&b.right)])
        }
        E::Prefix(ref p) if p.operator == OperatorKind::New && !all() => match p.operand.item {
            E::Call(ref c) => {
                let mut kids = vec![expr(&c.callee)];
                kids.extend(exprs(&c.arguments));
                tl(New, "()", loc, kids)
            }
            _ => tl(New, "", loc, vec![expr(&p.operand)]),
        },
        E::Prefix(ref p) => {
            misused(p.operator, if !p.operator.prefix() { "prefix" } else if p.operator.assignment() { "assignment" } else { "" });
            tl(Prefix, p.operator.as_str(), loc, vec![expr(&p.operand)])
        }
        E::Postfix(ref p) => tl(Postfix, p.operator.as_str(), loc, vec![expr(&p.operand)]),
        E::Conditional(ref c) => tl(Cond, "", loc, vec![expr(&c.test), expr(&c.consequent), expr(&c.alternate)]),
        E::Template(ref tp) => template(tp, loc),
        E::TaggedTemplate(ref tt) => {
            tl(Tagged, "", loc, vec![expr(&tt.tag), template(&tt.quasi.item, (tt.quasi.start, tt.quasi.end))])
        }
        E::Spread(ref s) => tl(Spread, "", loc, vec![expr(&s.argument)]),
        E::Arrow(ref a) => {
            let body = match a.body {
                ArrowBody::Expression(ref e) => expr(e),
                ArrowBody::Block(ref b) => block(b),
            };
            tl(Arrow, "", loc, vec![list(patterns(&a.params)), body])
        }
        E::Object(ref o) => tl(Object, "", loc, o.body.iter().map(property).collect()),
        E::Function(ref f) => tl(
            FuncExpr,
            if f.generator { "*" } else { "" },
            loc,
            vec![opt(&f.name.0, name), list(patterns(&f.params)), block(&f.body)],
        ),
        E::Class(ref c) => {
            tl(ClassExpr, "", loc, vec![opt(&c.name.0, name), opt(&c.extends, expr), class_body(&c.body)])
        }
    }
}
fn declaration(d: &DeclarationStatement, loc: (u32, u32)) -> Tree {
    let kind = match d.kind {
        DeclarationKind::Var => "var",
        DeclarationKind::Let => "let",
        DeclarationKind::Const => "const",
    };
    let ds = d
        .declarators
        .iter()
        .map(|d| tl(Declarator, "", (d.start, d.end), vec![pattern(&d.id), opt(&d.init, expr)]))
        .collect();
    tl(Decl, kind, loc, ds)
}
fn for_init(i: &Node<ForInit>) -> Tree {
    match i.item {
        ForInit::Declaration(ref d) => declaration(d, (i.start, i.end)),
        ForInit::Expression(ref e) => expr(e),
    }
}
pub fn stmt(s: &StatementNode) -> Tree {
    stmt_item(&s.item, (s.start, s.end))
}
pub fn stmt_item(item: &Statement, loc: (u32, u32)) -> Tree {
    use ratel::ast::Statement as S;
    match *item {
        S::Empty => tl(Empty, "", loc, vec![]),
        S::Debugger => tl(Debugger, "", loc, vec![]),
        S::Expression(ref e) => tl(ExprStmt, "", loc, vec![expr(e)]),
        S::Declaration(ref d) => declaration(d, loc),
        S::Return(ref r) => tl(Return, "", loc, vec![opt(&r.value, expr)]),
        S::Break(ref b) => tl(Break, "", loc, vec![opt(&b.label, name)]),
        S::Continue(ref b) => tl(Continue, "", loc, vec![opt(&b.label, name)]),
        S::Throw(ref b) => tl(Throw, "", loc, vec![expr(&b.value)]),
        S::If(ref i) => tl(If, "", loc, vec![expr(&i.test), stmt(&i.consequent), opt(&i.alternate, stmt)]),
        S::While(ref w) => tl(While, "", loc, vec![expr(&w.test), stmt(&w.body)]),
        S::Do(ref w) => tl(Do, "", loc, vec![stmt(&w.body), expr(&w.test)]),
        S::For(ref f) => tl(
            For,
            "",
            loc,
            vec![opt(&f.init, for_init), opt(&f.test, expr), opt(&f.update, expr), stmt(&f.body)],
        ),
        S::ForIn(ref f) => tl(ForIn, "", loc, vec![for_init(&f.left), expr(&f.right), stmt(&f.body)]),
        S::ForOf(ref f) => tl(ForOf, "", loc, vec![for_init(&f.left), expr(&f.right), stmt(&f.body)]),
        S::Try(ref tr) => tl(
            Try,
            "",
            loc,
            vec![
                block(&tr.block),
                opt(&tr.handler, |h| tl(Catch, "", (h.start, h.end), vec![pattern(&h.param), block(&h.body)])),
                opt(&tr.finalizer, block),
            ],
        ),
        S::Block(ref b) => tl(Block, "", loc, stmts(&b.body)),
        S::Labeled(ref l) => tl(Labeled, l.label, loc, vec![stmt(&l.body)]),
        S::Function(ref f) => tl(
            FuncStmt,
            if f.generator { "*" } else { "" },
            loc,
            vec![name(&f.name.0), list(patterns(&f.params)), block(&f.body)],
        ),
        S::Class(ref c) => tl(ClassStmt, "", loc, vec![name(&c.name.0), opt(&c.extends, expr), class_body(&c.body)]),
        S::Switch(ref s) => {
            let cases = s
                .cases
                .body
                .iter()
                .map(|c| {
                    let mut kids = vec![opt(&c.test, expr)];
                    kids.extend(stmts(&c.consequent));
                    tl(Case, "", (c.start, c.end), kids)
                })
                .collect();
            tl(Switch, "", loc, vec![expr(&s.discriminant), tl(Cases, "", (s.cases.start, s.cases.end), cases)])
        }
        S::Import(ref i) => tl(
            Import,
            i.source,
            loc,
            i.specifiers
                .iter()
                .map(|s| {
                    let loc = (s.start, s.end);
                    match s.item {
                        ForImportSpecifier::ImportSpecifier(ref x) => {
                            tl(ImpSpec, "", loc, vec![name(&x.imported), name(&x.local)])
                        }
                        ForImportSpecifier::ImportDefaultSpecifier(ref x) => tl(ImpDefault, "", loc, vec![name(&x.local)]),
                        ForImportSpecifier::ImportNamespaceSpecifier(ref x) => tl(ImpNs, "", loc, vec![name(&x.local)]),
                    }
                })
                .collect(),
        ),
    }
}

thread_local! { static MISUSED: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }

/// The first operator since the last call that says something else of itself (`prefix()`, `infix()`,
/// `assignment()`) than what it is used as.
pub fn misused_operator() -> Option<String> {
    MISUSED.with(|m| m.borrow_mut().take())
}
fn misused(o: OperatorKind, what: &str) {
    if !what.is_empty() {
        MISUSED.with(|m| {
            m.borrow_mut().get_or_insert(format!("{}() of {} ({:?})", what, o.as_str(), o));
        });
    }
}
fn assigns(o: &str) -> bool {
    o.ends_with('=') && !matches!(o, "==" | "===" | "!=" | "!==" | "<=" | ">=")
}
