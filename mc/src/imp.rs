//! Running the implementation under test: one call = one execution of RESSA, with panics caught.
use std::panic::{catch_unwind, AssertUnwindSafe};
use crate::canon;
use ressa::{Builder, Error, Parser};

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(String),
    /// kind of error, position if it carries one (line, column), message
    Err(&'static str, Option<(usize, usize)>, String),
    Panic(String),
}
impl Out {
    pub fn is_ok(&self) -> bool { matches!(self, Out::Ok(_)) }
    pub fn is_err(&self) -> bool { matches!(self, Out::Err(..)) }
    pub fn show(&self) -> String { match self { Out::Ok(s) => format!("accepted: {}", s), Out::Err(k, p, m) => format!("rejected: {} at {:?}: {}", k, p, m), Out::Panic(m) => format!("PANIC: {}", m) } }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg { pub module: bool, pub tolerant: bool }
pub const SCRIPT: Cfg = Cfg { module: false, tolerant: false };
pub const MODULE: Cfg = Cfg { module: true, tolerant: false };

pub fn err_out(e: &Error) -> Out {
    let pos = |p: &ressa::Position| Some((p.line, p.column));
    match e {
        Error::UnexpectedToken(p, m) => Out::Err("UnexpectedToken", pos(p), m.clone()),
        Error::UnexpectedEoF => Out::Err("UnexpectedEoF", None, String::new()),
        Error::ParseAfterEoF => Out::Err("ParseAfterEoF", None, String::new()),
        Error::UnableToReinterpret(p, a, b) => Out::Err("UnableToReinterpret", pos(p), format!("{} {}", a, b)),
        Error::Redecl(p, m) => Out::Err("Redecl", pos(p), m.clone()),
        Error::OperationError(p, m) => Out::Err("OperationError", pos(p), m.clone()),
        Error::InvalidGetterParams(p) => Out::Err("InvalidGetterParams", pos(p), String::new()),
        Error::InvalidSetterParams(p) => Out::Err("InvalidSetterParams", pos(p), String::new()),
        Error::NonStrictFeatureInStrictContext(p, m) => Out::Err("NonStrictFeatureInStrictContext", pos(p), m.clone()),
        #[allow(unreachable_patterns)]
        other => Out::Err("Other", None, format!("{}", other)),
    }
}
pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() }
}
pub fn guard<F: FnOnce() -> Out>(f: F) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(o) => o, Err(p) => Out::Panic(panic_msg(p)) }
}
/// `Builder` + `parse`
pub fn parse(text: &str, cfg: Cfg) -> Out {
    guard(|| {
        let mut b = Builder::new();
        b.module(cfg.module).tolerant(cfg.tolerant).js(text);
        match b.build() { Err(e) => err_out(&e), Ok(mut p) => match p.parse() { Ok(p) => Out::Ok(canon::program(&p)), Err(e) => err_out(&e) } }
    })
}
/// `Parser::new` + `parse`
pub fn parse_new(text: &str) -> Out {
    guard(|| match Parser::new(text) { Err(e) => err_out(&e), Ok(mut p) => match p.parse() { Ok(p) => Out::Ok(canon::program(&p)), Err(e) => err_out(&e) } })
}
#[derive(Clone, Debug, PartialEq)]
pub enum End { Done, Err(&'static str, Option<(usize, usize)>, String), Panic(String), Endless, Revived }
#[derive(Clone, Debug, PartialEq)]
pub struct Iter { pub parts: Vec<String>, pub end: End }
/// `Builder` + iteration
pub fn iterate(text: &str, cfg: Cfg, limit: usize) -> Iter {
    let mut parts = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut b = Builder::new();
        b.module(cfg.module).tolerant(cfg.tolerant).js(text);
        let as_end = |e: &Error| match err_out(e) { Out::Err(k, p, m) => End::Err(k, p, m), _ => End::Done };
        let mut p = match b.build() { Err(e) => return as_end(&e), Ok(p) => p };
        let mut end = End::Done;
        for _ in 0..limit + 1 {
            match p.next() { None => break, Some(Ok(x)) => { if parts.len() >= limit { return End::Endless } parts.push(canon::part_s(&x)) } Some(Err(e)) => { end = as_end(&e); break } }
        }
        for _ in 0..3 { if p.next().is_some() { return End::Revived } }
        end
    }));
    let end = match r { Ok(e) => e, Err(p) => End::Panic(panic_msg(p)) };
    Iter { parts, end }
}
/// What the comment handler is given: (start, end, text) of each comment.
pub fn comments(text: &str, cfg: Cfg) -> Result<Vec<(usize, usize, String)>, String> {
    let v = std::cell::RefCell::new(vec![]);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut b = Builder::new();
        b.module(cfg.module).tolerant(cfg.tolerant).js(text);
        let h = |i: ress::Item| {
            let body = match &i.token { ress::Token::Comment(c) => {
                let k = match c.kind { ress::CommentKind::Single => "//", ress::CommentKind::Multi => "/*", ress::CommentKind::Html => "<!--" };
                if c.content.starts_with(k) { c.content.clone() } else { format!("{:?} comment with text {:?}", c.kind, c.content) }
            } t => format!("not a comment: {:?}", t) };
            v.borrow_mut().push((i.span.start, i.span.end, body));
        };
        if let Ok(mut p) = b.with_comment_handler(h) { let _ = p.parse(); }
    }));
    match r { Ok(()) => Ok(v.into_inner()), Err(p) => Err(panic_msg(p)) }
}
/// The other ways to parse a text under a configuration: (name, outcome).
pub fn entries(text: &str, cfg: Cfg) -> Vec<(&'static str, Out)> {
    fn fin<CH: ressa::CommentHandler>(r: Result<Parser<CH>, Error>) -> Out { match r { Err(e) => err_out(&e), Ok(mut p) => match p.parse() { Ok(p) => Out::Ok(canon::program(&p)), Err(e) => err_out(&e) } } }
    let mut v = vec![];
    if cfg == SCRIPT { v.push(("Parser::new", parse_new(text))) }
    v.push(("Builder with set_ methods", guard(|| { let mut b = Builder::new(); b.set_js(text); b.set_tolerant(cfg.tolerant); b.set_module(cfg.module); fin(b.build()) })));
    v.push(("the second parser of one Builder", guard(|| { let mut b = Builder::new(); b.js(text).tolerant(cfg.tolerant).module(cfg.module); if let Ok(mut p) = b.build() { let _ = p.parse(); } fin(b.build()) })));
    v.push(("Builder set twice", guard(|| { let mut b = Builder::new(); b.js("(").tolerant(!cfg.tolerant).module(!cfg.module); let _ = b.build(); b.js(text).tolerant(cfg.tolerant).module(cfg.module); fin(b.build()) })));
    v.push(("a comment handler", guard(|| { let mut b = Builder::new(); b.js(text).tolerant(cfg.tolerant).module(cfg.module); fin(b.with_comment_handler(|_: ress::Item| ())) })));
    for k in 1..=4 {
        let mut whole = false;
        let o = guard(|| {
            let mut b = Builder::new(); b.js(text).tolerant(cfg.tolerant).module(cfg.module);
            let mut p = match b.build() { Err(e) => return err_out(&e), Ok(p) => p };
            let mut o = String::from(if cfg.module { "(module" } else { "(script" });
            for _ in 0..k { match p.next() { None => { whole = true; break } Some(Err(e)) => { whole = true; return err_out(&e) } Some(Ok(x)) => { o.push(' '); o.push_str(&canon::part_s(&x)) } } }
            match p.parse() { Err(e) => err_out(&e), Ok(q) => { let s = canon::program(&q); o.push_str(&s["(script".len()..s.len() - 1]); o.push(')'); Out::Ok(o) } }
        });
        v.push((["", "parse after one part", "parse after two parts", "parse after three parts", "parse after four parts"][k], o));
        if whole { break }
    }
    v
}
/// `parse_expression` on a text: the tree of the expression.
pub fn expression(text: &str, cfg: Cfg) -> Out {
    guard(|| {
        let mut b = Builder::new(); b.js(text).tolerant(cfg.tolerant).module(cfg.module);
        match b.build() { Err(e) => err_out(&e), Ok(mut p) => match p.parse_expression() { Ok(e) => Out::Ok(canon::expr_s(&e)), Err(e) => err_out(&e) } }
    })
}
pub struct Said { pub kind: &'static str, pub pos: Option<(usize, usize)>, pub msg: String, pub shown: String }
/// The error of a text, if it has one.
pub fn error(text: &str, cfg: Cfg) -> Option<Said> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut b = Builder::new(); b.js(text).tolerant(cfg.tolerant).module(cfg.module);
        match b.build() { Err(e) => Some(e), Ok(mut p) => p.parse().err() }.map(|e| match err_out(&e) { Out::Err(kind, pos, msg) => Said { kind, pos, msg, shown: format!("{}", e) }, _ => unreachable!() })
    }));
    match r { Ok(e) => e, Err(p) => Some(Said { kind: "Panic", pos: None, msg: panic_msg(p), shown: String::new() }) }
}
type Kept = std::rc::Rc<std::cell::RefCell<Vec<(usize, usize)>>>;
type Keeper = Box<dyn FnMut(ress::Item)>;
/// What the steps of one parser gave, and how many comments had been handed over after each.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Steps { pub parts: Vec<String>, pub comments: Vec<Vec<(usize, usize)>> }
/// Steps the parsers of the given texts in the order of `schedule`. `one_builder`: all are built by one builder, which is changed in between. `plain`: without a comment handler.
pub fn interleave(texts: &[(&str, Cfg)], schedule: &[usize], one_builder: bool, late: bool, plain: bool) -> Result<Vec<Steps>, String> {
    type Items = Box<dyn Iterator<Item = Result<resast::ProgramPart, Error>>>;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut shared = Builder::new();
        let mut set: Option<(&str, Cfg)> = None;
        let mut v: Vec<Steps> = vec![Default::default(); texts.len()];
        let mut ps: Vec<Option<(Items, Kept)>> = texts.iter().map(|_| None).collect();
        let mut build = |i: usize, v: &mut Vec<Steps>| {
            let (t, k) = texts[i]; let mut own = Builder::new();
            let b = if one_builder { &mut shared } else { &mut own };
            // a builder that is set this way already is used as it is
            if !one_builder || set != Some((t, k)) { b.js(t).module(k.module).tolerant(k.tolerant); set = Some((t, k)) }
            let kept: Kept = Default::default();
            let to = kept.clone();
            let r = if plain && !one_builder && k == SCRIPT { Parser::new(t).map(|p| Box::new(p) as Items) }
                else if plain { b.build().map(|p| Box::new(p) as Items) }
                else { b.with_comment_handler(Box::new(move |i: ress::Item| to.borrow_mut().push((i.span.start, i.span.end))) as Keeper).map(|p| Box::new(p) as Items) };
            match r { Ok(p) => Some((p, kept)), Err(e) => { v[i].parts.push(err_out(&e).show()); None } }
        };
        let mut built = vec![false; texts.len()];
        if !late { for i in 0..texts.len() { ps[i] = build(i, &mut v); built[i] = true } }
        for &i in schedule {
            if !built[i] { ps[i] = build(i, &mut v); built[i] = true }
            let Some((p, kept)) = &mut ps[i] else { continue };
            v[i].parts.push(match p.next() { None => "end".into(), Some(Ok(x)) => canon::part_s(&x), Some(Err(e)) => err_out(&e).show() });
            v[i].comments.push(kept.borrow().clone());
        }
        v
    }));
    r.map_err(panic_msg)
}

/// One parser taken through a history of calls: N is `next`, P is `parse`, E is `parse_expression`. One answer per call.
pub fn history(text: &str, cfg: Cfg, ops: &str) -> Vec<String> {
    let mut v = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut b = Builder::new();
        b.module(cfg.module).tolerant(cfg.tolerant).js(text);
        let mut p = match b.build() { Err(e) => { v.push(err_out(&e).show()); return }, Ok(p) => p };
        for o in ops.chars() {
            let a = match o {
                'N' => match p.next() { None => "end".into(), Some(Ok(x)) => canon::part_s(&x), Some(Err(e)) => err_out(&e).show() },
                'P' => match p.parse() { Ok(x) => canon::program(&x), Err(e) => err_out(&e).show() },
                _ => match p.parse_expression() { Ok(x) => canon::expr_s(&x), Err(e) => err_out(&e).show() },
            };
            v.push(a);
        }
    }));
    if let Err(p) = r { v.push(format!("PANIC {}", panic_msg(p))) }
    v
}
