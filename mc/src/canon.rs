//! Canonical rendering of the syntax tree RESSA returns (`resast`) as an s-expression.
//! The reference grammar (`refp.rs`) produces the same notation, so that two trees are
//! the same tree exactly when the two strings are equal. The notation keeps everything
//! a consumer of the tree can read off it (operators, order, grouping, flags, kinds,
//! literal text); it erases only the choice between the `Expr` and `Pat` wrapper types
//! for one and the same binding or assignment target, where `resast` offers both.
use resast::prelude::*;
use resast::expr::*;
use resast::decl::*;
use resast::stmt::*;
use resast::pat::*;
use resast::{Program, ProgramPart, Function, FunctionArg, Class};
use std::fmt::Write;

pub fn program(p: &Program) -> String {
    let mut o = String::new();
    let parts = match p { Program::Mod(v) => { o.push_str("(module"); v } Program::Script(v) => { o.push_str("(script"); v } };
    for x in parts { o.push(' '); part(&mut o, x) }
    o.push(')');
    o
}
pub fn parts_only(ps: &[ProgramPart]) -> String { let mut o = String::new(); parts(&mut o, ps); o }
fn parts(o: &mut String, ps: &[ProgramPart]) { o.push('['); for (i, p) in ps.iter().enumerate() { if i > 0 { o.push(' ') } part(o, p) } o.push(']'); }
pub fn part_s(p: &ProgramPart) -> String { let mut o = String::new(); part(&mut o, p); o }
fn part(o: &mut String, p: &ProgramPart) {
    match p {
        ProgramPart::Dir(d) => { let _ = write!(o, "(dir {} ", d.dir); lit(o, &d.expr); o.push(')') }
        ProgramPart::Decl(d) => decl(o, d),
        ProgramPart::Stmt(s) => stmt(o, s),
    }
}
fn vkind(k: &VariableKind) -> &'static str { match k { VariableKind::Var => "var", VariableKind::Let => "let", VariableKind::Const => "const" } }
fn vdecl(o: &mut String, d: &VariableDecl) {
    match &d.init { None => pat(o, &d.id), Some(e) => { o.push_str("(init "); pat(o, &d.id); o.push(' '); expr(o, e); o.push(')') } }
}
fn vdecls(o: &mut String, k: &str, ds: &[VariableDecl]) { o.push('('); o.push_str(k); for d in ds { o.push(' '); vdecl(o, d) } o.push(')') }
fn decl(o: &mut String, d: &Decl) {
    match d {
        Decl::Variable(k, ds) => vdecls(o, vkind(k), ds),
        Decl::Function(f) => { o.push_str("(fdecl "); func(o, f); o.push(')') }
        Decl::Class(c) => { o.push_str("(cdecl "); class(o, c); o.push(')') }
        Decl::Import(i) => {
            o.push_str("(import [");
            for (n, s) in i.specifiers.iter().enumerate() {
                if n > 0 { o.push(' ') }
                match s {
                    ImportSpecifier::Normal(a, b) => { let _ = write!(o, "{}", a); if let Some(b) = b { let _ = write!(o, "@as@{}", b); } }
                    ImportSpecifier::Default(a) => { let _ = write!(o, "default@{}", a); }
                    ImportSpecifier::Namespace(a) => { let _ = write!(o, "*@{}", a); }
                }
            }
            o.push_str("] "); lit(o, &i.source); o.push(')')
        }
        Decl::Export(e) => match &**e {
            ModExport::Default(d) => { o.push_str("(export-default "); match d { DefaultExportDecl::Decl(d) => decl(o, d), DefaultExportDecl::Expr(e) => expr(o, e) } o.push(')') }
            ModExport::All(l) => { o.push_str("(export-all "); lit(o, l); o.push(')') }
            ModExport::Named(NamedExportDecl::Decl(d)) => { o.push_str("(export "); decl(o, d); o.push(')') }
            ModExport::Named(NamedExportDecl::Specifier(v, src)) => {
                o.push_str("(export [");
                for (n, s) in v.iter().enumerate() { if n > 0 { o.push(' ') } let _ = write!(o, "{}", s.local); if let Some(b) = &s.exported { let _ = write!(o, "@as@{}", b); } }
                o.push(']'); if let Some(l) = src { o.push(' '); lit(o, l) } o.push(')')
            }
        },
    }
}
fn ostr(o: &mut String, s: &Option<String>) { match s { Some(s) => { let _ = write!(o, "${}", s); } None => o.push('_') } }
fn func(o: &mut String, f: &Function) {
    o.push_str(if f.is_async { "(async-" } else { "(" }); o.push_str(if f.generator { "fn* " } else { "fn " });
    ostr(o, &f.id); o.push(' '); args(o, &f.params); o.push(' '); parts(o, &f.body); o.push(')')
}
fn args(o: &mut String, a: &[FunctionArg]) { o.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(' ') } match x { FunctionArg::Expr(e) => expr(o, e), FunctionArg::Pat(p) => pat(o, p) } } o.push(']') }
fn class(o: &mut String, c: &Class) {
    o.push_str("(class "); ostr(o, &c.id); o.push(' ');
    match &c.super_class { None => o.push('_'), Some(e) => expr(o, e) }
    for p in &c.body { o.push(' '); prop(o, p) }
    o.push(')')
}
fn key(o: &mut String, k: &PropertyKey, computed: bool) {
    if computed { o.push_str("[[") }
    match k {
        // a key that is a literal, computed or not, is one in the tree
        PropertyKey::Literal(l) => { if computed { o.push('=') } lit(o, l) }
        PropertyKey::Expr(e @ Expr::Literal(_)) if !computed => { o.push_str("expr:"); expr(o, e) }
        PropertyKey::Expr(e) => expr(o, e),
        PropertyKey::Pat(p) => pat(o, p),
    }
    if computed { o.push_str("]]") }
}
fn prop(o: &mut String, p: &Property) {
    o.push('(');
    o.push_str(match p.kind { PropertyKind::Init => "init", PropertyKind::Get => "get", PropertyKind::Set => "set", PropertyKind::Ctor => "ctor", PropertyKind::Method => "cmethod" });
    if p.method { o.push_str("/m") }
    if p.short_hand { o.push_str("/sh") }
    o.push(' ');
    key(o, &p.key, p.computed);
    match &p.value {
        PropertyValue::None => {}
        PropertyValue::Expr(e) => { o.push(' '); expr(o, e) }
        PropertyValue::Pat(q) => { o.push(' '); pat(o, q) }
    }
    o.push(')')
}
fn pat(o: &mut String, p: &Pat) {
    match p {
        Pat::Identifier(i) => { let _ = write!(o, "${}", i); }
        Pat::Object(ps) => {
            o.push_str("(obj");
            for x in ps { o.push(' '); match x { ObjectPatPart::Assignment(p) => prop(o, p), ObjectPatPart::Rest(r) => match &**r { Pat::RestElement(_) => pat(o, r), q => { o.push_str("(... "); pat(o, q); o.push(')') } } } }
            o.push(')')
        }
        Pat::Array(v) => { o.push_str("(arr"); for x in v { o.push(' '); match x { None => o.push('_'), Some(ArrayPatPart::Pat(p)) => pat(o, p), Some(ArrayPatPart::Expr(e)) => expr(o, e) } } o.push(')') }
        Pat::RestElement(p) => { o.push_str("(... "); pat(o, p); o.push(')') }
        Pat::Assignment(a) => { o.push_str("(= "); pat(o, &a.left); o.push(' '); expr(o, &a.right); o.push(')') }
    }
}
pub fn lit(o: &mut String, l: &Literal) {
    match l {
        Literal::Null => o.push_str("null"),
        Literal::String(s) => o.push_str(s),
        Literal::Number(n) => { o.push('#'); o.push_str(n) }
        Literal::Boolean(b) => { let _ = write!(o, "{}", b); }
        Literal::RegEx(r) => { let _ = write!(o, "(re {} {})", r.pattern, r.flags); }
        Literal::Template(t) => tpl(o, t),
    }
}
fn tpl(o: &mut String, t: &TemplateLiteral) {
    o.push_str("(tpl");
    for q in &t.quasis { let _ = write!(o, " <{}|{}|{}>", q.raw, q.cooked, q.tail); }
    for e in &t.expressions { o.push(' '); expr(o, e) }
    o.push(')')
}
fn list(o: &mut String, v: &[Expr]) { for e in v { o.push(' '); expr(o, e) } }
pub fn expr_s(e: &Expr) -> String { let mut o = String::new(); expr(&mut o, e); o }
pub fn expr(o: &mut String, e: &Expr) {
    match e {
        Expr::Array(v) => { o.push_str("(arr"); for x in v { o.push(' '); match x { None => o.push('_'), Some(e) => expr(o, e) } } o.push(')') }
        Expr::ArrowFunction(f) => {
            o.push_str(if f.is_async { "(async-arrow" } else { "(arrow" });
            if f.generator { o.push_str("-GEN") }
            if f.id.is_some() { o.push_str("-NAMED") }
            o.push(' '); args(o, &f.params); o.push(' ');
            match (&f.body, f.expression) {
                (ArrowFunctionBody::FunctionBody(b), false) => parts(o, b),
                (ArrowFunctionBody::Expr(e), true) => expr(o, e),
                _ => o.push_str("BAD-EXPRESSION-FLAG"),
            }
            o.push(')')
        }
        Expr::ArrowParamPlaceHolder(a, s) => { let _ = write!(o, "(PLACEHOLDER {} ", s); args(o, a); o.push(')') }
        Expr::Assignment(a) => {
            o.push('('); o.push_str(assign_op(&a.operator)); o.push(' ');
            match &a.left { AssignmentLeft::Pat(p) => pat(o, p), AssignmentLeft::Expr(e) => expr(o, e) }
            o.push(' '); expr(o, &a.right); o.push(')')
        }
        Expr::Await(e) => { o.push_str("(await "); expr(o, e); o.push(')') }
        Expr::Binary(b) => { o.push('('); o.push_str("b:"); o.push_str(bin_op(&b.operator)); o.push(' '); expr(o, &b.left); o.push(' '); expr(o, &b.right); o.push(')') }
        Expr::Logical(b) => { o.push_str(match b.operator { LogicalOperator::Or => "(l:|| ", LogicalOperator::And => "(l:&& " }); expr(o, &b.left); o.push(' '); expr(o, &b.right); o.push(')') }
        Expr::Class(c) => class(o, c),
        Expr::Call(c) => { o.push_str("(call "); expr(o, &c.callee); list(o, &c.arguments); o.push(')') }
        Expr::Conditional(c) => { o.push_str("(? "); expr(o, &c.test); o.push(' '); expr(o, &c.consequent); o.push(' '); expr(o, &c.alternate); o.push(')') }
        Expr::Function(f) => func(o, f),
        Expr::Ident(i) => { let _ = write!(o, "${}", i); }
        Expr::Literal(l) => lit(o, l),
        Expr::Member(m) => { o.push_str(if m.computed { "(idx " } else { "(dot " }); expr(o, &m.object); o.push(' '); expr(o, &m.property); o.push(')') }
        Expr::MetaProperty(m) => { let _ = write!(o, "(meta {} {})", m.meta, m.property); }
        Expr::New(c) => { o.push_str("(new "); expr(o, &c.callee); list(o, &c.arguments); o.push(')') }
        Expr::Object(ps) => {
            o.push_str("(obj");
            for x in ps { o.push(' '); match x { ObjectProperty::Property(p) => prop(o, p), ObjectProperty::Spread(e) => match &**e { Expr::Spread(_) => expr(o, e), q => { o.push_str("(... "); expr(o, q); o.push(')') } } } }
            o.push(')')
        }
        Expr::Sequence(v) => { o.push_str("(seq"); list(o, v); o.push(')') }
        Expr::Spread(e) => { o.push_str("(... "); expr(o, e); o.push(')') }
        Expr::Super => o.push_str("super"),
        Expr::TaggedTemplate(t) => { o.push_str("(tag "); expr(o, &t.tag); o.push(' '); tpl(o, &t.quasi); o.push(')') }
        Expr::This => o.push_str("this"),
        Expr::Unary(u) => {
            o.push_str(match u.operator { UnaryOperator::Minus => "(u:- ", UnaryOperator::Plus => "(u:+ ", UnaryOperator::Not => "(u:! ", UnaryOperator::Tilde => "(u:~ ", UnaryOperator::TypeOf => "(u:typeof ", UnaryOperator::Void => "(u:void ", UnaryOperator::Delete => "(u:delete " });
            if !u.prefix { o.push_str("NOT-PREFIX ") }
            expr(o, &u.argument); o.push(')')
        }
        Expr::Update(u) => {
            o.push_str(match (&u.operator, u.prefix) { (UpdateOperator::Increment, true) => "(++_ ", (UpdateOperator::Increment, false) => "(_++ ", (UpdateOperator::Decrement, true) => "(--_ ", (UpdateOperator::Decrement, false) => "(_-- " });
            expr(o, &u.argument); o.push(')')
        }
        Expr::Yield(y) => { o.push_str(if y.delegate { "(yield*" } else { "(yield" }); if let Some(a) = &y.argument { o.push(' '); expr(o, a) } o.push(')') }
    }
}
fn assign_op(a: &AssignmentOperator) -> &'static str {
    use AssignmentOperator::*;
    match a { Equal => "=", PlusEqual => "+=", MinusEqual => "-=", TimesEqual => "*=", DivEqual => "/=", ModEqual => "%=", LeftShiftEqual => "<<=", RightShiftEqual => ">>=", UnsignedRightShiftEqual => ">>>=", OrEqual => "|=", XOrEqual => "^=", AndEqual => "&=", PowerOfEqual => "**=" }
}
fn bin_op(a: &BinaryOperator) -> &'static str {
    use BinaryOperator::*;
    match a { Equal => "==", NotEqual => "!=", StrictEqual => "===", StrictNotEqual => "!==", LessThan => "<", GreaterThan => ">", LessThanEqual => "<=", GreaterThanEqual => ">=", LeftShift => "<<", RightShift => ">>", UnsignedRightShift => ">>>", Plus => "+", Minus => "-", Times => "*", Over => "/", Mod => "%", Or => "|", XOr => "^", And => "&", In => "in", InstanceOf => "instanceof", PowerOf => "**" }
}
fn oid(o: &mut String, i: &Option<String>) { if let Some(i) = i { let _ = write!(o, " ${}", i); } }
fn stmt(o: &mut String, s: &Stmt) {
    match s {
        Stmt::Expr(e) => { o.push_str("(es "); expr(o, e); o.push(')') }
        Stmt::Block(b) => { o.push_str("(block "); parts(o, b); o.push(')') }
        Stmt::Empty => o.push_str("(empty)"),
        Stmt::Debugger => o.push_str("(debugger)"),
        Stmt::With(w) => { o.push_str("(with "); expr(o, &w.object); o.push(' '); stmt(o, &w.body); o.push(')') }
        Stmt::Return(e) => { o.push_str("(return"); if let Some(e) = e { o.push(' '); expr(o, e) } o.push(')') }
        Stmt::Labeled(l) => { let _ = write!(o, "(label ${} ", l.label); stmt(o, &l.body); o.push(')') }
        Stmt::Break(i) => { o.push_str("(break"); oid(o, i); o.push(')') }
        Stmt::Continue(i) => { o.push_str("(continue"); oid(o, i); o.push(')') }
        Stmt::If(i) => { o.push_str("(if "); expr(o, &i.test); o.push(' '); stmt(o, &i.consequent); if let Some(a) = &i.alternate { o.push(' '); stmt(o, a) } o.push(')') }
        Stmt::Switch(s) => {
            o.push_str("(switch "); expr(o, &s.discriminant);
            for c in &s.cases { o.push_str(" (case "); match &c.test { Some(t) => expr(o, t), None => o.push_str("default") } o.push(' '); parts(o, &c.consequent); o.push(')') }
            o.push(')')
        }
        Stmt::Throw(e) => { o.push_str("(throw "); expr(o, e); o.push(')') }
        Stmt::Try(t) => {
            o.push_str("(try "); parts(o, &t.block);
            if let Some(h) = &t.handler { o.push_str(" (catch "); match &h.param { Some(p) => pat(o, p), None => o.push('_') } o.push(' '); parts(o, &h.body); o.push(')') }
            if let Some(f) = &t.finalizer { o.push_str(" (finally "); parts(o, f); o.push(')') }
            o.push(')')
        }
        Stmt::While(w) => { o.push_str("(while "); expr(o, &w.test); o.push(' '); stmt(o, &w.body); o.push(')') }
        Stmt::DoWhile(w) => { o.push_str("(do "); stmt(o, &w.body); o.push(' '); expr(o, &w.test); o.push(')') }
        Stmt::For(f) => {
            o.push_str("(for ");
            match &f.init { None => o.push('_'), Some(LoopInit::Expr(e)) => expr(o, e), Some(LoopInit::Variable(k, d)) => vdecls(o, vkind(k), d) }
            o.push(' '); match &f.test { None => o.push('_'), Some(e) => expr(o, e) }
            o.push(' '); match &f.update { None => o.push('_'), Some(e) => expr(o, e) }
            o.push(' '); stmt(o, &f.body); o.push(')')
        }
        Stmt::ForIn(f) => { o.push_str("(for-in "); left(o, &f.left); o.push(' '); expr(o, &f.right); o.push(' '); stmt(o, &f.body); o.push(')') }
        Stmt::ForOf(f) => { o.push_str(if f.is_await { "(for-await-of " } else { "(for-of " }); left(o, &f.left); o.push(' '); expr(o, &f.right); o.push(' '); stmt(o, &f.body); o.push(')') }
        Stmt::Var(d) => vdecls(o, "var", d),
    }
}
fn left(o: &mut String, l: &LoopLeft) {
    match l { LoopLeft::Expr(e) => expr(o, e), LoopLeft::Pat(p) => pat(o, p), LoopLeft::Variable(k, d) => { o.push('('); o.push_str(vkind(k)); o.push(' '); vdecl(o, d); o.push(')') } }
}
