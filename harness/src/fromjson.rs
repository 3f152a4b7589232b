//! ESTree JSON to the canonical tree: ratel's own serialisation, read strictly (every node has
//! exactly the fields of its type), and acorn's.
use crate::json::J;
use crate::tree::{nil, t, tl, Tree, K, K::*};

type R<T> = Result<T, String>;

#[derive(Clone, Copy, PartialEq)]
pub enum Dialect {
    Ratel,
    Acorn,
}

pub struct Reader {
    pub d: Dialect,
}

struct N<'a> {
    ty: &'a str,
    loc: (u32, u32),
    j: &'a J,
}

pub fn program(j: &J, d: Dialect) -> R<Tree> {
    let r = Reader { d };
    let n = r.node(j)?;
    if n.ty != "Program" {
        return Err(format!("the root is a {}", n.ty));
    }
    let body = r.arr(&n, "body")?;
    r.only(&n, &["body"])?;
    let body = body.iter().map(|x| r.stmt(x)).collect::<R<Vec<_>>>()?;
    Ok(tl(Program, "", n.loc, body))
}

impl Reader {
    fn node<'a>(&self, j: &'a J) -> R<N<'a>> {
        let ty = match j.get("type").and_then(|x| x.str()) {
            Some(t) => t,
            None => return Err(format!("expected a node, got {}", j.show())),
        };
        let num = |k: &str| match j.get(k) {
            Some(J::Num(s)) => s.parse::<u32>().map_err(|_| format!("bad {} of {}", k, j.show())),
            _ => Err(format!("{} without {}", j.show(), k)),
        };
        Ok(N { ty, loc: (num("start")?, num("end")?), j })
    }
    fn field<'a>(&self, n: &N<'a>, k: &str) -> R<&'a J> {
        n.j.get(k).ok_or_else(|| format!("{} without {}: {}", n.ty, k, n.j.show()))
    }
    fn arr<'a>(&self, n: &N<'a>, k: &str) -> R<&'a [J]> {
        match self.field(n, k)? {
            J::Arr(v) => Ok(v),
            x => Err(format!("{} of {} is {}", k, n.ty, x.show())),
        }
    }
    fn s<'a>(&self, n: &N<'a>, k: &str) -> R<&'a str> {
        match self.field(n, k)? {
            J::Str(v) => Ok(v),
            x => Err(format!("{} of {} is {}", k, n.ty, x.show())),
        }
    }
    fn b(&self, n: &N, k: &str) -> R<bool> {
        match self.field(n, k)? {
            J::Bool(v) => Ok(*v),
            x => Err(format!("{} of {} is {}", k, n.ty, x.show())),
        }
    }
    fn want(&self, n: &N, k: &str, v: J) -> R<()> {
        if *self.field(n, k)? == v {
            Ok(())
        } else {
            Err(format!("{} of {} is not {:?}: {}", k, n.ty, v, n.j.show()))
        }
    }
    /// ratel: a node has these fields and no others
    fn only(&self, n: &N, fields: &[&str]) -> R<()> {
        if self.d == Dialect::Acorn {
            return Ok(());
        }
        if let J::Obj(o) = n.j {
            for (k, _) in o {
                if !fields.contains(&k.as_str()) && !["type", "start", "end"].contains(&k.as_str()) {
                    return Err(format!("{} has an unexpected field {}", n.ty, k));
                }
            }
        }
        Ok(())
    }
    fn opt(&self, j: &J, f: impl Fn(&J) -> R<Tree>) -> R<Tree> {
        match j {
            J::Null => Ok(nil()),
            x => f(x),
        }
    }
    fn ident<'a>(&self, j: &'a J, k: K) -> R<Tree> {
        let n = self.node(j)?;
        if n.ty != "Identifier" {
            return Err(format!("expected an identifier, got {}", j.show()));
        }
        self.only(&n, &["name"])?;
        let name = self.s(&n, "name")?;
        if name.starts_with(|c: char| c.is_ascii() && !c.is_ascii_alphabetic() && !matches!(c, '_' | '$' | '\\')) {
            return Err(format!("an identifier with the name {:?}", name));
        }
        Ok(tl(k, name, n.loc, vec![]))
    }
    fn ratel(&self) -> bool {
        self.d == Dialect::Ratel
    }

    fn stmts(&self, v: &[J]) -> R<Vec<Tree>> {
        v.iter().map(|x| self.stmt(x)).collect()
    }
    fn exprs(&self, v: &[J]) -> R<Vec<Tree>> {
        v.iter().map(|x| self.expr(x)).collect()
    }
    fn block(&self, j: &J) -> R<Tree> {
        let n = self.node(j)?;
        if n.ty != "BlockStatement" {
            return Err(format!("expected a block, got {}", j.show()));
        }
        self.only(&n, &["body"])?;
        Ok(tl(Block, "", n.loc, self.stmts(self.arr(&n, "body")?)?))
    }
    fn params(&self, n: &N) -> R<Tree> {
        let ps = self.arr(n, "params")?.iter().map(|x| self.pattern(x)).collect::<R<Vec<_>>>()?;
        Ok(t(List, "", ps))
    }
    fn function(&self, j: &J, k: K) -> R<Tree> {
        let n = self.node(j)?;
        let exp = if k == FuncStmt { "FunctionDeclaration" } else { "FunctionExpression" };
        if n.ty != exp {
            return Err(format!("expected a {}, got {}", exp, j.show()));
        }
        self.only(&n, &["generator", "id", "params", "body"])?;
        let id = self.opt(self.field(&n, "id")?, |x| self.ident(x, Name))?;
        let star = if self.b(&n, "generator")? { "*" } else { "" };
        let ps = self.params(&n)?;
        let body = self.block(self.field(&n, "body")?)?;
        if k == MethodFn {
            if id.k != Nil {
                return Err("a method's function has a name".into());
            }
            return Ok(tl(k, star, n.loc, vec![ps, body]));
        }
        Ok(tl(k, star, n.loc, vec![id, ps, body]))
    }
    fn key(&self, j: &J, computed: bool) -> R<Tree> {
        if computed {
            return Ok(tl(KeyComputed, "", (0, 0), vec![self.expr(j)?]));
        }
        let n = self.node(j)?;
        match n.ty {
            "Identifier" => self.ident(j, KeyLit),
            "Literal" => {
                let l = self.literal(&n)?;
                let k = if l.k == BinNum { KeyBin } else { KeyLit };
                if !matches!(l.k, Num | Str | BinNum) {
                    return Err(format!("a strange key: {}", j.show()));
                }
                Ok(tl(k, &l.s, l.loc, vec![]))
            }
            _ => Err(format!("a strange key: {}", j.show())),
        }
    }
    fn property(&self, j: &J) -> R<Tree> {
        let n = self.node(j)?;
        match n.ty {
            // ratel's form of a shorthand property
            "Identifier" if self.ratel() => self.ident(j, Shorthand),
            "SpreadProperty" if self.ratel() => {
                self.only(&n, &["argument"])?;
                Ok(tl(PSpread, "", n.loc, vec![self.expr(self.field(&n, "argument")?)?]))
            }
            "SpreadElement" | "RestElement" if !self.ratel() => {
                Ok(tl(PSpread, "", n.loc, vec![self.expr(self.field(&n, "argument")?)?]))
            }
            "Property" => {
                self.only(&n, &["key", "method", "shorthand", "computed", "value", "kind"])?;
                self.want(&n, "kind", J::Str("init".into()))?;
                let k = self.key(self.field(&n, "key")?, self.b(&n, "computed")?)?;
                let v = self.field(&n, "value")?;
                if self.b(&n, "shorthand")? {
                    if self.ratel() {
                        return Err("an unexpected shorthand property".into());
                    }
                    return self.ident(v, Shorthand);
                }
                if self.b(&n, "method")? {
                    return Ok(tl(Method, "", n.loc, vec![k, self.function(v, MethodFn)?]));
                }
                Ok(tl(Prop, "", n.loc, vec![k, self.expr(v)?]))
            }
            _ => Err(format!("expected a property, got {}", j.show())),
        }
    }
    fn literal(&self, n: &N) -> R<Tree> {
        let raw = self.s(n, "raw")?;
        if self.field(n, "raw").is_ok() && n.j.get("regex").is_some() {
            self.only(n, &["regex", "raw"])?;
            return Ok(tl(Regex, raw, n.loc, vec![]));
        }
        if raw == "undefined" {
            self.only(n, &["raw"])?;
            return Ok(tl(Undefined, "", n.loc, vec![]));
        }
        self.only(n, &["value", "raw"])?;
        let v = self.field(n, "value")?;
        let bin = raw.starts_with("0b") || raw.starts_with("0B");
        let k = match (raw, v) {
            ("null", J::Null) => return Ok(tl(Null, "", n.loc, vec![])),
            ("true", J::Bool(true)) => return Ok(tl(True, "", n.loc, vec![])),
            ("false", J::Bool(false)) => return Ok(tl(False, "", n.loc, vec![])),
            (_, J::Str(_)) => Str,
            // infinite values have no notation in JSON
            (_, J::Num(_)) | (_, J::Null) if bin => BinNum,
            (_, J::Num(_)) | (_, J::Null) => Num,
            _ => return Err(format!("the value does not fit the text of a literal: {}", n.j.show())),
        };
        Ok(tl(k, raw, n.loc, vec![]))
    }
    fn template(&self, j: &J) -> R<Tree> {
        let n = self.node(j)?;
        if n.ty != "TemplateLiteral" {
            return Err(format!("expected a template, got {}", j.show()));
        }
        self.only(&n, &["quasis", "expressions"])?;
        let qs = self.arr(&n, "quasis")?;
        let es = self.arr(&n, "expressions")?;
        if qs.len() != es.len() + 1 {
            return Err(format!("a template with {} pieces and {} expressions", qs.len(), es.len()));
        }
        let mut kids = Vec::new();
        for (i, q) in qs.iter().enumerate() {
            let qn = self.node(q)?;
            if qn.ty != "TemplateElement" {
                return Err(format!("expected a template element, got {}", q.show()));
            }
            self.only(&qn, &["tail", "value"])?;
            self.want(&qn, "tail", J::Bool(i == es.len()))?;
            let v = self.field(&qn, "value")?;
            match (v, v.get("raw"), v.get("cooked")) {
                (J::Obj(o), Some(J::Str(raw)), Some(_)) if o.len() == 2 => kids.push(tl(Quasi, raw, qn.loc, vec![])),
                _ => return Err(format!("a strange template element: {}", q.show())),
            }
            if i < es.len() {
                kids.push(self.expr(&es[i])?);
            }
        }
        Ok(tl(Template, "", n.loc, kids))
    }
    fn class(&self, n: &N, k: K) -> R<Tree> {
        self.only(n, &["id", "superClass", "body"])?;
        let id = self.opt(self.field(n, "id")?, |x| self.ident(x, Name))?;
        let sup = self.opt(self.field(n, "superClass")?, |x| self.expr(x))?;
        let b = self.node(self.field(n, "body")?)?;
        if b.ty != "ClassBody" {
            return Err(format!("expected a class body, got {}", b.j.show()));
        }
        self.only(&b, &["body"])?;
        let mut ms = Vec::new();
        for j in self.arr(&b, "body")? {
            let m = self.node(j)?;
            let st = self.b(&m, "static")?;
            let key = self.key(self.field(&m, "key")?, self.b(&m, "computed")?)?;
            match m.ty {
                "MethodDefinition" => {
                    self.only(&m, &["static", "computed", "key", "kind", "value"])?;
                    let kind = self.s(&m, "kind")?;
                    if !["constructor", "method", "get", "set"].contains(&kind) {
                        return Err(format!("a strange kind of method: {}", kind));
                    }
                    let s = if st { format!("static {}", kind) } else { kind.to_string() };
                    ms.push(tl(CMethod, &s, m.loc, vec![key, self.function(self.field(&m, "value")?, MethodFn)?]));
                }
                "PropertyDefinition" => {
                    self.only(&m, &["static", "computed", "key", "value"])?;
                    let v = self.opt(self.field(&m, "value")?, |x| self.expr(x))?;
                    ms.push(tl(CField, if st { "static" } else { "" }, m.loc, vec![key, v]));
                }
                _ => return Err(format!("a strange class member: {}", j.show())),
            }
        }
        Ok(tl(k, "", n.loc, vec![id, sup, tl(ClassBody, "", b.loc, ms)]))
    }

    pub fn expr(&self, j: &J) -> R<Tree> {
        let n = self.node(j)?;
        let f = |k: &str| self.expr(self.field(&n, k)?);
        let mk = |k: K, s: &str, kids: Vec<Tree>| Ok(tl(k, s, n.loc, kids));
        match n.ty {
            "ThisExpression" => {
                self.only(&n, &[])?;
                mk(This, "", vec![])
            }
            "Identifier" => {
                let x = self.ident(j, Ident)?;
                if !self.ratel() && x.s == "undefined" {
                    return mk(Undefined, "", vec![]);
                }
                Ok(x)
            }
            "Literal" => self.literal(&n),
            "SequenceExpression" => {
                self.only(&n, &["expressions"])?;
                mk(Seq, "", self.exprs(self.arr(&n, "expressions")?)?)
            }
            "ArrayExpression" => {
                self.only(&n, &["elements"])?;
                let v = self.arr(&n, "elements")?;
                mk(Array, "", v.iter().map(|x| self.element(x)).collect::<R<Vec<_>>>()?)
            }
            "ArrayPattern" if !self.ratel() => {
                let v = self.arr(&n, "elements")?;
                mk(Array, "", v.iter().map(|x| self.element(x)).collect::<R<Vec<_>>>()?)
            }
            "ObjectPattern" if !self.ratel() => {
                let v = self.arr(&n, "properties")?;
                mk(Object, "", v.iter().map(|x| self.property(x)).collect::<R<Vec<_>>>()?)
            }
            "AssignmentPattern" if !self.ratel() => mk(Bin, "=", vec![f("left")?, f("right")?]),
            "RestElement" if !self.ratel() => mk(Spread, "", vec![f("argument")?]),
            "ObjectExpression" => {
                self.only(&n, &["properties"])?;
                let v = self.arr(&n, "properties")?;
                mk(Object, "", v.iter().map(|x| self.property(x)).collect::<R<Vec<_>>>()?)
            }
            "MemberExpression" => {
                self.only(&n, &["object", "property", "computed"])?;
                let o = f("object")?;
                if self.b(&n, "computed")? {
                    mk(CMember, "", vec![o, f("property")?])
                } else {
                    mk(Member, "", vec![o, self.ident(self.field(&n, "property")?, Name)?])
                }
            }
            "MetaProperty" => {
                self.only(&n, &["meta", "property"])?;
                mk(Meta, "", vec![self.ident(self.field(&n, "meta")?, Name)?, self.ident(self.field(&n, "property")?, Name)?])
            }
            "CallExpression" | "NewExpression" => {
                self.only(&n, &["callee", "arguments"])?;
                let mut kids = vec![f("callee")?];
                kids.extend(self.exprs(self.arr(&n, "arguments")?)?);
                if n.ty == "CallExpression" { mk(Call, "", kids) } else { mk(New, "", kids) }
            }
            "BinaryExpression" | "LogicalExpression" | "AssignmentExpression" => {
                self.only(&n, &["operator", "left", "right"])?;
                let op = self.s(&n, "operator")?;
                let ty = match op {
                    "||" | "&&" => "LogicalExpression",
                    "==" | "===" | "!=" | "!==" | "<=" | ">=" => "BinaryExpression",
                    _ if op.ends_with('=') => "AssignmentExpression",
                    _ => "BinaryExpression",
                };
                if ty != n.ty || (!crate::gen::BINOPS.contains(&op) && !crate::gen::ASSIGNOPS.contains(&op)) {
                    return Err(format!("operator {} in a {}", op, n.ty));
                }
                mk(Bin, op, vec![f("left")?, f("right")?])
            }
            "UnaryExpression" => {
                self.only(&n, &["operator", "argument", "prefix"])?;
                let op = self.s(&n, "operator")?;
                self.want(&n, "prefix", J::Bool(true))?;
                if !["!", "-", "+", "~", "typeof", "void", "delete"].contains(&op) {
                    return Err(format!("operator {} in a {}", op, n.ty));
                }
                mk(Prefix, op, vec![f("argument")?])
            }
            "UpdateExpression" => {
                self.only(&n, &["operator", "argument", "prefix"])?;
                let op = self.s(&n, "operator")?;
                if !["++", "--"].contains(&op) {
                    return Err(format!("operator {} in a {}", op, n.ty));
                }
                mk(if self.b(&n, "prefix")? { Prefix } else { Postfix }, op, vec![f("argument")?])
            }
            "ConditionalExpression" => {
                self.only(&n, &["test", "consequent", "alternate"])?;
                mk(Cond, "", vec![f("test")?, f("consequent")?, f("alternate")?])
            }
            "TemplateLiteral" => self.template(j),
            "TaggedTemplateExpression" => {
                self.only(&n, &["tag", "quasi"])?;
                mk(Tagged, "", vec![f("tag")?, self.template(self.field(&n, "quasi")?)?])
            }
            "SpreadElement" => {
                self.only(&n, &["argument"])?;
                mk(Spread, "", vec![f("argument")?])
            }
            "ArrowFunctionExpression" => {
                self.only(&n, &["params", "body"])?;
                let ps = self.params(&n)?;
                let b = self.field(&n, "body")?;
                let body = if self.node(b)?.ty == "BlockStatement" { self.block(b)? } else { self.expr(b)? };
                mk(Arrow, "", vec![ps, body])
            }
            "FunctionExpression" => self.function(j, FuncExpr),
            "ClassExpression" => self.class(&n, ClassExpr),
            _ => Err(format!("expected an expression, got {}", j.show())),
        }
    }
    fn element(&self, j: &J) -> R<Tree> {
        if *j == J::Null {
            return Ok(t(Hole, "", vec![]));
        }
        self.expr(j)
    }

    pub fn pattern(&self, j: &J) -> R<Tree> {
        let n = self.node(j)?;
        match n.ty {
            "Identifier" => self.ident(j, PIdent),
            "ObjectPattern" => {
                let f = if self.ratel() { "keys" } else { "properties" };
                self.only(&n, &[f])?;
                let v = self.arr(&n, f)?;
                Ok(tl(PObject, "", n.loc, v.iter().map(|x| self.property(x)).collect::<R<Vec<_>>>()?))
            }
            "ArrayPattern" => {
                self.only(&n, &["elements"])?;
                let v = self.arr(&n, "elements")?;
                let kids = v
                    .iter()
                    .map(|x| if *x == J::Null { Ok(t(PVoid, "", vec![])) } else { self.pattern(x) })
                    .collect::<R<Vec<_>>>()?;
                Ok(tl(PArray, "", n.loc, kids))
            }
            "RestElement" => {
                self.only(&n, &["argument"])?;
                Ok(tl(PRest, "", n.loc, vec![self.ident(self.field(&n, "argument")?, Name)?]))
            }
            "AssignmentPattern" => {
                self.only(&n, &["left", "right"])?;
                let l = self.pattern(self.field(&n, "left")?)?;
                Ok(tl(PAssign, "", n.loc, vec![l, self.expr(self.field(&n, "right")?)?]))
            }
            _ => Err(format!("expected a pattern, got {}", j.show())),
        }
    }

    fn declaration(&self, n: &N) -> R<Tree> {
        self.only(n, &["kind", "declarations"])?;
        let kind = self.s(n, "kind")?;
        if !["var", "let", "const"].contains(&kind) {
            return Err(format!("a strange kind of declaration: {}", kind));
        }
        let mut ds = Vec::new();
        for d in self.arr(n, "declarations")? {
            let d = self.node(d)?;
            if d.ty != "VariableDeclarator" {
                return Err(format!("expected a declarator, got {}", d.j.show()));
            }
            self.only(&d, &["id", "init"])?;
            let id = self.pattern(self.field(&d, "id")?)?;
            let init = self.opt(self.field(&d, "init")?, |x| self.expr(x))?;
            ds.push(tl(Declarator, "", d.loc, vec![id, init]));
        }
        Ok(tl(Decl, kind, n.loc, ds))
    }
    fn for_init(&self, j: &J) -> R<Tree> {
        let n = self.node(j)?;
        if n.ty == "VariableDeclaration" { self.declaration(&n) } else { self.expr(j) }
    }

    pub fn stmt(&self, j: &J) -> R<Tree> {
        let n = self.node(j)?;
        let mk = |k: K, s: &str, kids: Vec<Tree>| Ok(tl(k, s, n.loc, kids));
        let f = |k: &str| self.field(&n, k);
        match n.ty {
            "EmptyStatement" => {
                self.only(&n, &[])?;
                mk(Empty, "", vec![])
            }
            "DebuggerStatement" => {
                self.only(&n, &[])?;
                mk(Debugger, "", vec![])
            }
            "ExpressionStatement" => {
                self.only(&n, &["expression"])?;
                mk(ExprStmt, "", vec![self.expr(f("expression")?)?])
            }
            "VariableDeclaration" => self.declaration(&n),
            "ReturnStatement" => {
                self.only(&n, &["argument"])?;
                mk(Return, "", vec![self.opt(f("argument")?, |x| self.expr(x))?])
            }
            "BreakStatement" | "ContinueStatement" => {
                self.only(&n, &["label"])?;
                let l = self.opt(f("label")?, |x| self.ident(x, Name))?;
                mk(if n.ty == "BreakStatement" { Break } else { Continue }, "", vec![l])
            }
            "ThrowStatement" => {
                self.only(&n, &["argument"])?;
                mk(Throw, "", vec![self.expr(f("argument")?)?])
            }
            "IfStatement" => {
                self.only(&n, &["test", "consequent", "alternate"])?;
                mk(If, "", vec![self.expr(f("test")?)?, self.stmt(f("consequent")?)?, self.opt(f("alternate")?, |x| self.stmt(x))?])
            }
            "WhileStatement" => {
                self.only(&n, &["test", "body"])?;
                mk(While, "", vec![self.expr(f("test")?)?, self.stmt(f("body")?)?])
            }
            "DoWhileStatement" => {
                self.only(&n, &["test", "body"])?;
                mk(Do, "", vec![self.stmt(f("body")?)?, self.expr(f("test")?)?])
            }
            "ForStatement" => {
                self.only(&n, &["init", "test", "update", "body"])?;
                mk(
                    For,
                    "",
                    vec![
                        self.opt(f("init")?, |x| self.for_init(x))?,
                        self.opt(f("test")?, |x| self.expr(x))?,
                        self.opt(f("update")?, |x| self.expr(x))?,
                        self.stmt(f("body")?)?,
                    ],
                )
            }
            "ForInStatement" | "ForOfStatement" => {
                self.only(&n, &["left", "right", "body"])?;
                let kids = vec![self.for_init(f("left")?)?, self.expr(f("right")?)?, self.stmt(f("body")?)?];
                mk(if n.ty == "ForInStatement" { ForIn } else { ForOf }, "", kids)
            }
            "TryStatement" => {
                self.only(&n, &["block", "handler", "finalizer"])?;
                let h = self.opt(f("handler")?, |x| {
                    let c = self.node(x)?;
                    if c.ty != "CatchClause" {
                        return Err(format!("expected a catch clause, got {}", x.show()));
                    }
                    self.only(&c, &["param", "body"])?;
                    Ok(tl(Catch, "", c.loc, vec![self.pattern(self.field(&c, "param")?)?, self.block(self.field(&c, "body")?)?]))
                })?;
                mk(Try, "", vec![self.block(f("block")?)?, h, self.opt(f("finalizer")?, |x| self.block(x))?])
            }
            "BlockStatement" => self.block(j),
            "LabeledStatement" => {
                self.only(&n, &["label", "body"])?;
                let l = if self.ratel() { self.s(&n, "label")?.to_string() } else { self.ident(f("label")?, Name)?.s };
                mk(Labeled, &l, vec![self.stmt(f("body")?)?])
            }
            "FunctionDeclaration" => self.function(j, FuncStmt),
            "ClassDeclaration" => self.class(&n, ClassStmt),
            "SwitchStatement" => {
                self.only(&n, &["discriminant", "cases"])?;
                let mut cs = Vec::new();
                for c in self.arr(&n, "cases")? {
                    let c = self.node(c)?;
                    if c.ty != "SwitchCase" {
                        return Err(format!("expected a case, got {}", c.j.show()));
                    }
                    self.only(&c, &["test", "consequent"])?;
                    let mut kids = vec![self.opt(self.field(&c, "test")?, |x| self.expr(x))?];
                    kids.extend(self.stmts(self.arr(&c, "consequent")?)?);
                    cs.push(tl(Case, "", c.loc, kids));
                }
                mk(Switch, "", vec![self.expr(f("discriminant")?)?, t(Cases, "", cs)])
            }
            "ImportDeclaration" => {
                self.only(&n, &["specifiers", "source"])?;
                let src = if self.ratel() {
                    self.s(&n, "source")?.to_string()
                } else {
                    let l = self.node(f("source")?)?;
                    let raw = self.s(&l, "raw")?;
                    raw[1..raw.len() - 1].to_string()
                };
                let mut ss = Vec::new();
                for s in self.arr(&n, "specifiers")? {
                    let s = self.node(s)?;
                    let local = self.ident(self.field(&s, "local")?, Name)?;
                    ss.push(match s.ty {
                        "ImportSpecifier" => {
                            self.only(&s, &["imported", "local"])?;
                            tl(ImpSpec, "", s.loc, vec![self.ident(self.field(&s, "imported")?, Name)?, local])
                        }
                        "ImportDefaultSpecifier" => {
                            self.only(&s, &["local"])?;
                            tl(ImpDefault, "", s.loc, vec![local])
                        }
                        "ImportNamespaceSpecifier" => {
                            self.only(&s, &["local"])?;
                            tl(ImpNs, "", s.loc, vec![local])
                        }
                        _ => return Err(format!("a strange import specifier: {}", s.j.show())),
                    });
                }
                mk(Import, &src, ss)
            }
            _ => Err(format!("expected a statement, got {}", j.show())),
        }
    }
}

/// What the ESTree form can not tell apart: `new X` from `new X()`, and (ratel) holes at the end
/// of an array literal from none. Computed keys have no node of their own there, and the pieces of
/// templates are located without the first and last byte of their delimiters.
pub fn as_ratel_json(t: &mut Tree) {
    as_estree(t);
    t.kids.iter_mut().for_each(as_ratel_json_at);
    t.loc = (t.kids.first().map_or(0, |k| k.loc.0), t.kids.last().map_or(0, |k| k.loc.1));
}
fn as_ratel_json_at(t: &mut Tree) {
    match t.k {
        Array => {
            while t.kids.last().is_some_and(|k| k.k == Hole) {
                t.kids.pop();
            }
        }
        KeyComputed => t.loc = (0, 0),
        Quasi => t.loc = (t.loc.0 + 1, t.loc.1 - 1),
        _ => {}
    }
    t.kids.iter_mut().for_each(as_ratel_json_at);
}
pub fn as_estree(t: &mut Tree) {
    if t.k == New {
        t.s.clear();
    }
    t.kids.iter_mut().for_each(as_estree);
}
