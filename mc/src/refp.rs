//! The reference model: a recognizer and tree builder for the ECMAScript 2018/2019 grammar,
//! written as a plain backtracking descent over a token list (no scanner, no saved context,
//! no cover grammars reinterpreted after the fact). It returns the canonical tree (see
//! `canon.rs`) of the one derivation the grammar admits, plus a set of *early-error bits* for
//! programs that are derivable but that ECMAScript rejects for a static-semantics reason.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K { Word, Punct, Num, Str, Re, Tpl, Eof }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Tok<'a> { pub k: K, pub s: &'a str, /// a line terminator stands between the previous token and this one
    pub nl: bool }

macro_rules! bits { ($($n:ident),* $(,)?) => { bits!(@ 0u32; $($n,)*); pub const NAMES: &[&str] = &[$(stringify!($n)),*]; };
    (@ $i:expr; $n:ident, $($r:ident,)*) => { pub const $n: u64 = 1u64 << ($i); bits!(@ $i + 1; $($r,)*); };
    (@ $i:expr;) => {}; }
bits! { STRICT_RESERVED, STRICT_WITH, STRICT_DELETE, STRICT_EVAL, STRICT_FN_IF, STRICT_OCTAL, RETURN_TOP, BREAK_TARGET, CONTINUE_TARGET,
    LABEL_DUP, SUPER_CTX, NEWTARGET_CTX, MODITEM_NESTED, MODITEM_SCRIPT, TARGET_ASSIGN, TARGET_UPDATE, TARGET_FOR, COVER_INIT, CONST_NOINIT,
    PATTERN_NOINIT, FORIN_INIT, LET_LET, DECL_IN_STMT, FN_IN_STMT, GETTER_PARAMS, SETTER_PARAMS, REST_TRAIL, DUP_PROTO, DUP_CTOR,
    CTOR_SPECIAL, STATIC_PROTOTYPE, FOR_AWAIT_CTX, FOR_AWAIT_NONOF, EXP_UNARY, YIELD_IN_PARAMS, AWAIT_IN_PARAMS, ARROW_NL, ARROW_PARAMS,
    IMPORT_ARGS, IMPORT_RESERVED, EXPORT_RESERVED, DIR_NONSIMPLE, REST_PATTERN, ASYNC_OF, TARGET_PAREN_PATTERN, DUP_PARAMS, DUP_DEFAULT,
    TRY_ALONE, THROW_NL, ASYNC_PAREN_NL, AWAIT_IDENT, GEN_IN_STMT, LABEL_CLASS, CONTINUE_NONLOOP, ANON_FN }
pub fn bit_names(m: u64) -> Vec<&'static str> { NAMES.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, n)| *n).collect() }

/// Where a static rule is broken: tokens `lo` to `hi`, line terminators not counted.
#[derive(Clone, Debug, PartialEq)]
pub struct Site { pub bit: u64, pub lo: usize, pub hi: usize }
#[derive(Clone, Debug, PartialEq)]
pub struct Ref {
    /// canonical tree, if the grammar derives the tokens
    pub tree: Option<String>,
    /// early-error bits used by that derivation
    pub bits: u64,
    /// every early-error bit met, also in parses given up
    pub seen: u64,
    /// the places of these
    pub sites: Vec<Site>,
    /// the end of the token list was looked at: some continuation may be derivable
    pub viable: bool,
    /// how much work the derivation took
    pub steps: u64,
}
impl Ref {
    pub fn valid(&self) -> bool { self.tree.is_some() && self.bits == 0 }
}

type R<T = String> = Result<T, ()>;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kd { Ident, Member, Lit, Call, Other }
#[derive(Clone, Debug)]
struct E { s: String, k: Kd, paren: bool, unary: bool }
fn other(s: String) -> E { E { s, k: Kd::Other, paren: false, unary: false } }

pub struct P<'t> {
    t: &'t [Tok<'t>],
    i: usize,
    eof: bool,
    m: u64, seen: u64, sites: Vec<Site>,
    module: bool,
    strict: bool,
    in_fn: bool,
    yld: bool,
    aw: bool,
    allow_in: bool,
    labels: Vec<(String, bool)>,
    iter: bool,
    sw: bool,
    super_prop: bool,
    super_call: bool,
    new_target: bool,
    depth: usize,
    params: bool,
    /// a 'use strict' directive was seen in the prologue just parsed
    use_strict: bool,
    steps: u64,
}
const EOF_TOK: Tok<'static> = Tok { k: K::Eof, s: "", nl: false };

pub const RESERVED: &[&str] = &["break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export",
    "extends", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "return", "super", "switch", "this", "throw", "try", "typeof",
    "var", "void", "while", "with", "null", "true", "false"];
pub const STRICT_WORDS: &[&str] = &["implements", "interface", "let", "package", "private", "protected", "public", "static", "yield"];
pub fn reserved(w: &str) -> bool { RESERVED.contains(&w) }

pub fn parse(t: &[Tok], module: bool) -> Ref {
    let mut p = P { t, i: 0, eof: false, m: 0, seen: 0, sites: vec![], module, strict: module, in_fn: false, yld: false, aw: false, allow_in: true, labels: vec![], iter: false, sw: false,
        super_prop: false, super_call: false, new_target: false, depth: 0, params: false, use_strict: false, steps: 0 };
    let r = p.program();
    Ref { tree: r.ok(), bits: p.m, seen: p.seen, sites: p.sites, viable: p.eof, steps: p.steps }
}

struct Saved { i: usize, m: u64 }
impl<'t> P<'t> {
    fn pk(&mut self) -> Tok<'t> { self.steps += 1; if self.i < self.t.len() { self.t[self.i] } else { self.eof = true; EOF_TOK } }
    fn pk_at(&mut self, n: usize) -> Tok<'t> { if self.i + n < self.t.len() { self.t[self.i + n] } else { self.eof = true; EOF_TOK } }
    fn nx(&mut self) -> Tok<'t> { let t = self.pk(); self.i += 1; t }
    fn is(&mut self, s: &str) -> bool { let t = self.pk(); (t.k == K::Punct || t.k == K::Word) && t.s == s }
    fn is_at(&mut self, n: usize, s: &str) -> bool { let t = self.pk_at(n); (t.k == K::Punct || t.k == K::Word) && t.s == s }
    fn eat(&mut self, s: &str) -> bool { if self.is(s) { self.i += 1; true } else { false } }
    fn ex(&mut self, s: &str) -> R<()> { if self.eat(s) { Ok(()) } else { Err(()) } }
    fn save(&self) -> Saved { Saved { i: self.i, m: self.m } }
    fn back(&mut self, s: Saved) { self.i = s.i; self.m = s.m }
    fn bit(&mut self, b: u64) { let i = self.i; self.bit_from(b, i.saturating_sub(1)) }
    /// broken unless the text goes on in another way
    fn met(&mut self, b: u64) { let m = self.m; self.bit(b); self.m = m }
    /// the rule is broken by the tokens from `lo` to here
    /// the rules broken since token `from` are only known to be at token `hi`
    fn reach(&mut self, from: usize, bits: u64, hi: usize) { for s in self.sites.iter_mut() { if s.bit & bits != 0 && s.lo + 2 >= from && s.lo <= hi { s.hi = s.hi.max(hi) } } }
    fn bit_from(&mut self, b: u64, lo: usize) { self.m |= b; self.seen |= b; let late = AWAIT_IN_PARAMS | YIELD_IN_PARAMS | STRICT_RESERVED | AWAIT_IDENT | ASYNC_OF; let s = Site { bit: b, lo, hi: if b & (REST_TRAIL | REST_PATTERN) != 0 { usize::MAX } else if b & late != 0 { self.i + 1 } else { self.i } }; if !self.sites.contains(&s) { self.sites.push(s) } }
    fn semi(&mut self) -> R<()> {
        let t = self.pk();
        if t.k == K::Punct && t.s == ";" { self.i += 1; return Ok(()) }
        if t.k == K::Eof || (t.k == K::Punct && t.s == "}") || t.nl { return Ok(()) }
        Err(())
    }
    // ---------- identifiers
    /// may this word be an identifier here (reference, binding or label)?
    fn ident_ok(&mut self, w: &str) -> bool {
        if reserved(w) { return false }
        if w == "yield" && self.yld { return false }
        if w == "await" && (self.aw || self.module) { if self.aw { return false } self.bit(AWAIT_IDENT); }
        if self.strict && STRICT_WORDS.contains(&w) { self.bit(STRICT_RESERVED) }
        true
    }
    fn ident(&mut self) -> R { let t = self.pk(); if t.k == K::Word && self.ident_ok(t.s) { self.i += 1; Ok(t.s.to_string()) } else { Err(()) } }
    fn binding_ident(&mut self) -> R { let w = self.ident()?; if self.strict && (w == "eval" || w == "arguments") { self.bit(STRICT_EVAL) } Ok(w) }
    fn would_be_ident(&mut self, t: Tok) -> bool { t.k == K::Word && !reserved(t.s) && !(t.s == "yield" && self.yld) && !(t.s == "await" && self.aw) }
    fn name(&mut self) -> R { let t = self.pk(); if t.k == K::Word { self.i += 1; Ok(t.s.to_string()) } else { Err(()) } }
    // ---------- program and statements
    fn program(&mut self) -> R {
        let v = self.body_items(true)?;
        let h = if self.module { "module" } else { "script" };
        Ok(if v.is_empty() { format!("({})", h) } else { format!("({} {})", h, v.join(" ")) })
    }
    fn body_items(&mut self, top: bool) -> R<Vec<String>> {
        let mut v = vec![]; let mut prologue = true; self.use_strict = false; let mut us = false;
        loop {
            let t = self.pk();
            if t.k == K::Eof { if top { self.use_strict = us; return Ok(v) } else { return Err(()) } }
            if !top && self.is("}") { self.use_strict = us; return Ok(v) }
            if prologue && t.k == K::Str {
                let start = self.i;
                let e = self.expression()?;
                let one = self.i == start + 1;
                self.semi()?;
                if one { if &t.s[1..t.s.len() - 1] == "use strict" { self.strict = true; us = true; } v.push(format!("(dir {} {})", &t.s[1..t.s.len() - 1], t.s)); }
                else { prologue = false; v.push(format!("(es {})", e.s)); }
                continue
            }
            prologue = false;
            let s = self.list_item(top)?; v.push(s);
        }
    }
    fn items_until_close(&mut self) -> R {
        let mut v = vec![];
        loop {
            if self.is("}") { self.i += 1; return Ok(format!("[{}]", v.join(" "))) }
            if self.pk().k == K::Eof { return Err(()) }
            v.push(self.list_item(false)?);
        }
    }
    fn block(&mut self) -> R { self.ex("{")?; self.depth += 1; let r = self.items_until_close(); self.depth -= 1; r }
    fn at_async_fn(&mut self) -> bool { self.is("async") && self.is_at(1, "function") && !self.pk_at(1).nl }
    fn at_let_decl(&mut self) -> bool {
        if !self.is("let") { return false }
        let n = self.pk_at(1);
        match n.k { K::Punct => n.s == "[" || n.s == "{", K::Word => !reserved(n.s) && !(n.s == "yield" && self.yld && false), _ => false }
    }
    fn list_item(&mut self, _top: bool) -> R {
        let t = self.pk();
        if t.k == K::Word {
            match t.s {
                "function" => { let f = self.function(true, false)?; return Ok(format!("(fdecl {})", f)) }
                "class" => { let c = self.class(true)?; return Ok(format!("(cdecl {})", c)) }
                "const" => { let d = self.lexical(false)?; self.semi()?; return Ok(d) }
                "let" if self.at_let_decl() => { let d = self.lexical(false)?; self.semi()?; return Ok(d) }
                "import" if !self.is_at(1, "(") => { self.mod_item(); return self.import() }
                "export" => { self.mod_item(); return self.export() }
                _ => {}
            }
        }
        self.statement(true)
    }
    fn mod_item(&mut self) { if self.depth > 0 || self.in_fn { self.bit(MODITEM_NESTED) } if !self.module { self.bit(MODITEM_SCRIPT) } }
    fn sub_statement(&mut self) -> R {
        self.depth += 1;
        let t = self.pk();
        if t.k == K::Word {
            if t.s == "function" { self.bit(FN_IN_STMT) }
        }
        let r = self.statement(false); self.depth -= 1; r
    }
    fn loop_body(&mut self) -> R { let p = self.iter; self.iter = true; let r = self.sub_statement(); self.iter = p; r }
    fn statement(&mut self, item: bool) -> R {
        let t = self.pk();
        match t.k {
            K::Eof => return Err(()),
            K::Punct => match t.s {
                "{" => { let b = self.block()?; return Ok(format!("(block {})", b)) }
                ";" => { self.i += 1; return Ok("(empty)".into()) }
                _ => {}
            },
            K::Word => {
                match t.s {
                    "var" => { self.i += 1; let d = self.var_list("var", false)?; self.semi()?; return Ok(format!("(var{})", d)) }
                    "if" => {
                        self.i += 1; self.ex("(")?; let c = self.expression()?; self.ex(")")?;
                        let a = self.if_clause()?;
                        if self.eat("else") { let b = self.if_clause()?; return Ok(format!("(if {} {} {})", c.s, a, b)) }
                        return Ok(format!("(if {} {})", c.s, a))
                    }
                    "for" => return self.for_stmt(),
                    "while" => { self.i += 1; self.ex("(")?; let c = self.expression()?; self.ex(")")?; let b = self.loop_body()?; return Ok(format!("(while {} {})", c.s, b)) }
                    "do" => {
                        self.i += 1; let b = self.loop_body()?; self.ex("while")?; self.ex("(")?; let c = self.expression()?; self.ex(")")?; self.eat(";");
                        return Ok(format!("(do {} {})", b, c.s))
                    }
                    "continue" | "break" => {
                        let at = self.i; self.i += 1;
                        let n = self.pk();
                        let mut id = String::new();
                        if !n.nl && self.would_be_ident(n) { self.ident()?; id = n.s.to_string(); }
                        let isb = t.s == "break";
                        if id.is_empty() { if !(self.iter || (isb && self.sw)) { self.bit_from(if isb { BREAK_TARGET } else { CONTINUE_TARGET }, at) } }
                        else { match self.labels.iter().find(|(l, _)| *l == id).map(|(_, lp)| *lp) { None => self.bit_from(if isb { BREAK_TARGET } else { CONTINUE_TARGET }, at), Some(false) if !isb => self.bit_from(if self.iter { CONTINUE_NONLOOP } else { CONTINUE_TARGET }, at), _ => {} } }
                        self.semi()?;
                        return Ok(if id.is_empty() { format!("({})", t.s) } else { format!("({} ${})", t.s, id) })
                    }
                    "return" => {
                        self.i += 1; if !self.in_fn { self.bit(RETURN_TOP) }
                        let n = self.pk();
                        if n.nl || n.k == K::Eof || (n.k == K::Punct && (n.s == ";" || n.s == "}")) { self.semi()?; return Ok("(return)".into()) }
                        let e = self.expression()?; self.semi()?; return Ok(format!("(return {})", e.s))
                    }
                    "with" => { if self.strict { self.bit(STRICT_WITH) } self.i += 1; self.ex("(")?; let c = self.expression()?; self.ex(")")?; let b = self.sub_statement()?; return Ok(format!("(with {} {})", c.s, b)) }
                    "switch" => return self.switch(),
                    "throw" => { self.i += 1; if self.pk().nl { self.bit(THROW_NL) } let e = self.expression()?; self.semi()?; return Ok(format!("(throw {})", e.s)) }
                    "try" => return self.try_stmt(),
                    "debugger" => { self.i += 1; self.semi()?; return Ok("(debugger)".into()) }
                    "function" => { let f = self.function(true, false)?; return Ok(format!("(es {})", f)) }
                    "async" if self.at_async_fn() => { if !item { self.bit(FN_IN_STMT) } let f = self.function(true, false)?; return Ok(format!("(es {})", f)) }
                    "class" => { self.seen |= LABEL_CLASS; return Err(()) },
                    "let" => { if self.is_at(1, "[") { return Err(()) } }
                    _ => {}
                }
                if self.would_be_ident(t) && self.is_at(1, ":") { return self.labelled() }
            }
            _ => {}
        }
        let e = self.expression()?; self.semi()?; Ok(format!("(es {})", e.s))
    }
    fn if_clause(&mut self) -> R {
        self.depth += 1;
        let r = if self.is("function") {
            if self.strict { self.bit(STRICT_FN_IF) }
            if self.is_at(1, "*") { self.bit(GEN_IN_STMT) }
            self.statement(false)
        } else { self.statement(false) };
        self.depth -= 1; r
    }
    fn labelled(&mut self) -> R {
        let at = self.i; let l = self.ident()?; self.ex(":")?;
        if self.labels.iter().any(|(x, _)| *x == l) { self.bit_from(LABEL_DUP, at) }
        // a label set directly around an iteration statement may be the target of continue
        let eof = self.eof;
        let mut j = 0; while self.pk_at(j).k == K::Word && self.is_at(j + 1, ":") { j += 2 }
        let lp = self.is_at(j, "for") || self.is_at(j, "while") || self.is_at(j, "do");
        self.eof = eof;
        self.labels.push((l.clone(), lp));
        self.depth += 1;
        let r = if self.is("function") { if self.strict { self.bit(STRICT_FN_IF) } if self.is_at(1, "*") { self.bit(GEN_IN_STMT) } self.function(true, false).map(|f| format!("(es {})", f)) } else { self.statement(false) };
        self.depth -= 1;
        self.labels.pop();
        Ok(format!("(label ${} {})", l, r?))
    }
    fn switch(&mut self) -> R {
        self.ex("switch")?; self.ex("(")?; let d = self.expression()?; self.ex(")")?; self.ex("{")?;
        let ps = self.sw; self.sw = true; self.depth += 1;
        let mut o = format!("(switch {}", d.s); let mut nd = 0;
        while !self.eat("}") {
            let t = if self.eat("default") { nd += 1; if nd > 1 { self.bit(DUP_DEFAULT) } "default".to_string() } else { self.ex("case")?; self.expression()?.s };
            self.ex(":")?;
            let mut v = vec![];
            while !self.is("}") && !self.is("case") && !self.is("default") { if self.pk().k == K::Eof { return Err(()) } v.push(self.list_item(false)?) }
            o += &format!(" (case {} [{}])", t, v.join(" "));
        }
        self.sw = ps; self.depth -= 1;
        Ok(o + ")")
    }
    fn try_stmt(&mut self) -> R {
        self.ex("try")?; let mut o = format!("(try {}", self.block()?); let mut n = 0;
        if self.eat("catch") {
            n += 1;
            let p = if self.eat("(") { let p = self.binding_target()?; self.ex(")")?; p } else { "_".into() };
            o += &format!(" (catch {} {})", p, self.block()?);
        }
        if self.eat("finally") { n += 1; o += &format!(" (finally {})", self.block()?); }
        if n == 0 { self.bit(TRY_ALONE) }
        Ok(o + ")")
    }
    fn var_list(&mut self, kind: &str, in_for: bool) -> R {
        let mut o = String::new();
        loop { o.push(' '); o += &self.var_decl(kind, in_for)?; if !self.eat(",") { return Ok(o) } }
    }
    fn var_decl(&mut self, kind: &str, in_for: bool) -> R {
        if kind != "var" && self.is("let") { self.bit(LET_LET) }
        let pat = self.is("[") || self.is("{");
        let b = self.binding_target()?;
        if self.eat("=") { let e = self.assignment()?; return Ok(format!("(init {} {})", b, e.s)) }
        if in_for { self.seen |= PATTERN_NOINIT }
            if !in_for { if pat { self.bit(PATTERN_NOINIT) } else if kind == "const" { self.bit(CONST_NOINIT) } } else if pat { self.met(PATTERN_NOINIT) }
        Ok(b)
    }
    fn lexical(&mut self, in_for: bool) -> R { let k = self.nx().s; let d = self.var_list(k, in_for)?; Ok(format!("({}{})", k, d)) }
    fn for_stmt(&mut self) -> R {
        self.ex("for")?;
        let aw = if self.is("await") { self.i += 1; if !self.aw { self.bit(FOR_AWAIT_CTX) } true } else { false };
        self.ex("(")?;
        if self.eat(";") { if aw { self.bit(FOR_AWAIT_NONOF) } return self.for_rest("_".into()) }
        let kind = if self.is("var") { "var" } else if self.is("const") { "const" } else if self.at_let_decl() && !(self.is_at(1, "of") && !self.let_of()) { "let" } else { "" };
        if kind != "" {
            self.i += 1;
            let s = self.save();
            // for (kind binding in|of ...)
            if kind != "var" && self.is("let") { self.bit(LET_LET) }
            let b = self.binding_target()?;
            if self.is("of") { return self.for_of(format!("({} {})", kind, b), aw) }
            if self.is("in") { if aw { self.bit(FOR_AWAIT_NONOF) } return self.for_in(format!("({} {})", kind, b)) }
            self.back(s);
            let pa = self.allow_in; self.allow_in = false;
            let start = self.i;
            let d = self.var_list(kind, true); self.allow_in = pa; let d = d?;
            // `for (var x = 1 in y)`: a legacy form (Annex B); other initialised heads are errors
            let single = !self.t[start..self.i].is_empty();
            if single && (self.is("in") || self.is("of")) && d.starts_with(" (init ") && self.count_decls(start) == 1 {
                self.bit(FORIN_INIT);
                if aw && self.is("in") { self.bit(FOR_AWAIT_NONOF) }
                return if self.is("of") { self.for_of(format!("({}{})", kind, d), aw) } else { self.for_in(format!("({}{})", kind, d)) }
            }
            // in a plain for, bindings without initialisers
            self.check_noinit(kind, &d, start);
            if aw { self.bit(FOR_AWAIT_NONOF) }
            self.ex(";")?; return self.for_rest(format!("({}{})", kind, d))
        }
        // expression heads
        if self.is("[") || self.is("{") {
            let s = self.save();
            if let Ok(p) = self.assign_pattern() {
                let at = self.i; self.reach(s.i, STRICT_EVAL, at);
                if self.is("of") { return self.for_of(p, aw) }
                if self.is("in") { if aw { self.bit(FOR_AWAIT_NONOF) } return self.for_in(p) }
            }
            self.back(s);
        }
        let starts_let = self.is("let"); let starts_async_of = self.is("async") && self.is_at(1, "of");
        let s = self.save();
        let pa = self.allow_in; self.allow_in = false;
        let l = self.lhs(); self.allow_in = pa;
        let arrow = starts_async_of && self.is_at(1, "=>");
        if let Ok(l) = l {
            if (self.is("of") && !starts_let && !arrow) || self.is("in") {
                if !matches!(l.k, Kd::Ident | Kd::Member) { self.bit(TARGET_FOR) }
                if l.k == Kd::Ident && self.strict && (l.s == "$eval" || l.s == "$arguments") { self.bit(STRICT_EVAL) }
                if starts_async_of && self.is("of") && l.s == "$async" { self.bit(ASYNC_OF) }
                if self.is("of") { return self.for_of(l.s, aw) }
                if aw { self.bit(FOR_AWAIT_NONOF) }
                return self.for_in(l.s)
            }
        }
        self.back(s);
        let pa = self.allow_in; self.allow_in = false;
        let e = self.assignment();
        let e = match e { Ok(e) => e, Err(()) => { self.allow_in = pa; return Err(()) } };
        if self.is("in") || (self.is("of") && !starts_let) {
            self.allow_in = pa; self.bit(TARGET_FOR);
            if self.is("of") { return self.for_of(e.s, aw) }
            if aw { self.bit(FOR_AWAIT_NONOF) }
            return self.for_in(e.s)
        }
        let mut v = vec![e.s];
        while self.eat(",") { match self.assignment() { Ok(e) => v.push(e.s), Err(()) => { self.allow_in = pa; return Err(()) } } }
        self.allow_in = pa;
        if aw { self.bit(FOR_AWAIT_NONOF) }
        self.ex(";")?;
        let init = if v.len() == 1 { v.pop().unwrap() } else { format!("(seq {})", v.join(" ")) };
        self.for_rest(init)
    }
    /// `for (let of ...`: a declaration of `of` when `of`, `;`, `,`, `=` or `in` follows
    fn let_of(&mut self) -> bool { self.is_at(2, "of") || self.is_at(2, ";") || self.is_at(2, ",") || self.is_at(2, "=") || self.is_at(2, "in") || self.pk_at(2).k == K::Eof }
    fn count_decls(&self, start: usize) -> usize {
        let mut d = 0i32; let mut n = 1;
        for t in &self.t[start..self.i] { if t.k == K::Punct { match t.s { "(" | "[" | "{" => d += 1, ")" | "]" | "}" => d -= 1, "," if d == 0 => n += 1, _ => {} } } else if t.k == K::Tpl { if t.s.starts_with('`') && t.s.ends_with("${") { d += 1 } else if t.s.starts_with('}') && t.s.ends_with('`') { d -= 1 } } }
        n
    }
    fn check_noinit(&mut self, kind: &str, _d: &str, start: usize) {
        let end = self.i; let (sm, se) = (self.m, self.eof);
        self.i = start; let pa = self.allow_in; self.allow_in = false; let _ = self.var_list(kind, false); self.allow_in = pa;
        let got = self.m & (PATTERN_NOINIT | CONST_NOINIT); self.i = end; self.m = sm | got; self.eof = se;
    }
    fn for_rest(&mut self, init: String) -> R {
        let t = if self.is(";") { "_".into() } else { self.expression()?.s }; self.ex(";")?;
        let u = if self.is(")") { "_".into() } else { self.expression()?.s }; self.ex(")")?;
        let b = self.loop_body()?;
        Ok(format!("(for {} {} {} {})", init, t, u, b))
    }
    fn for_in(&mut self, l: String) -> R { self.ex("in")?; let r = self.expression()?; self.ex(")")?; let b = self.loop_body()?; Ok(format!("(for-in {} {} {})", l, r.s, b)) }
    fn for_of(&mut self, l: String, aw: bool) -> R { self.ex("of")?; let r = self.with_in(|p| p.assignment())?; self.ex(")")?; let b = self.loop_body()?; Ok(format!("({} {} {} {})", if aw { "for-await-of" } else { "for-of" }, l, r.s, b)) }
    fn with_in<T, F: FnOnce(&mut Self) -> R<T>>(&mut self, f: F) -> R<T> { let p = self.allow_in; self.allow_in = true; let r = f(self); self.allow_in = p; r }
    // ---------- modules
    fn string_lit(&mut self) -> R { let t = self.pk(); if t.k == K::Str { self.i += 1; Ok(t.s.to_string()) } else { Err(()) } }
    fn import(&mut self) -> R {
        self.ex("import")?;
        if self.pk().k == K::Str { let s = self.string_lit()?; self.semi()?; return Ok(format!("(import [] {})", s)) }
        let mut v = vec![];
        if self.is("*") { v.push(self.import_ns()?) }
        else if self.is("{") { self.import_named(&mut v)? }
        else {
            v.push(format!("default@{}", self.binding_ident()?));
            if self.eat(",") { if self.is("*") { v.push(self.import_ns()?) } else if self.is("{") { self.import_named(&mut v)? } else { return Err(()) } }
        }
        self.ex("from")?; let s = self.string_lit()?; self.semi()?;
        Ok(format!("(import [{}] {})", v.join(" "), s))
    }
    fn import_ns(&mut self) -> R { self.ex("*")?; self.ex("as")?; Ok(format!("*@{}", self.binding_ident()?)) }
    fn import_named(&mut self, v: &mut Vec<String>) -> R<()> {
        self.ex("{")?;
        while !self.eat("}") {
            let t = self.pk(); let n = self.name()?;
            if self.eat("as") { let l = self.binding_ident()?; v.push(format!("{}@as@{}", n, l)) }
            else { if reserved(t.s) { self.bit(IMPORT_RESERVED) } else { self.ident_ok(t.s); if self.strict && (n == "eval" || n == "arguments") { self.bit(STRICT_EVAL) } } v.push(n) }
            if !self.is("}") { self.ex(",")? }
        }
        Ok(())
    }
    fn export(&mut self) -> R {
        self.ex("export")?;
        if self.eat("default") {
            if self.is("function") || self.at_async_fn() { let f = self.function(false, false)?; return Ok(format!("(export-default (fdecl {}))", f)) }
            if self.is("class") { let c = self.class(false)?; return Ok(format!("(export-default (cdecl {}))", c)) }
            let e = self.with_in(|p| p.assignment())?; self.semi()?; return Ok(format!("(export-default {})", e.s))
        }
        if self.eat("*") { self.ex("from")?; let s = self.string_lit()?; self.semi()?; return Ok(format!("(export-all {})", s)) }
        if self.is("{") {
            self.ex("{")?; let mut v = vec![]; let mut res = false;
            while !self.eat("}") {
                let n = self.name()?; if reserved(&n) || STRICT_WORDS.contains(&n.as_str()) || n == "await" { res = true }
                if self.eat("as") { let x = self.name()?; v.push(format!("{}@as@{}", n, x)) } else { v.push(n) }
                if !self.is("}") { self.ex(",")? }
            }
            if self.eat("from") { let s = self.string_lit()?; self.semi()?; return Ok(format!("(export [{}] {})", v.join(" "), s)) }
            if res { self.bit(EXPORT_RESERVED) }
            self.semi()?; return Ok(format!("(export [{}])", v.join(" ")))
        }
        if self.is("var") { self.i += 1; let d = self.var_list("var", false)?; self.semi()?; return Ok(format!("(export (var{}))", d)) }
        if self.is("const") || self.at_let_decl() { let d = self.lexical(false)?; self.semi()?; return Ok(format!("(export {})", d)) }
        if self.is("function") || self.at_async_fn() { let f = self.function(true, false)?; return Ok(format!("(export (fdecl {}))", f)) }
        if self.is("class") { let c = self.class(true)?; return Ok(format!("(export (cdecl {}))", c)) }
        Err(())
    }
    // ---------- functions and classes
    /// function declaration or expression, starting at `async` or `function`
    fn function(&mut self, need_id: bool, is_expr: bool) -> R {
        let a = self.eat("async"); self.ex("function")?; let g = self.eat("*");
        let (py, pa) = (self.yld, self.aw);
        let id = if self.is("(") { if need_id && !is_expr { self.bit(ANON_FN) } "_".to_string() } else {
            // the name of an expression is bound inside it, the name of a declaration outside
            if is_expr { self.yld = g; self.aw = a }
            let t = self.pk(); let r = self.binding_ident(); self.yld = py; self.aw = pa; let r = r?;
            let _ = t; format!("${}", r)
        };
        let f = self.fn_rest(&id, g, a, false, false)?;
        Ok(f)
    }
    /// parameters and body; `method`: super property allowed; `ctor`: super call allowed
    fn fn_rest(&mut self, id: &str, g: bool, a: bool, method: bool, ctor: bool) -> R {
        let sv = (self.yld, self.aw, self.strict, self.in_fn, self.iter, self.sw, self.super_prop, self.super_call, self.new_target, self.allow_in, self.depth, self.params);
        let labels = std::mem::take(&mut self.labels);
        self.yld = g; self.aw = a; self.super_prop = method; self.super_call = ctor; self.new_target = true; self.allow_in = true;
        let r = (|| {
            self.params = true; let start = self.i;
            let (ps, simple) = self.params_list(method)?;
            self.params = false;
            let b = self.fn_body(simple, start, !method)?;
            Ok(format!("({}{} {} {} {})", if a { "async-" } else { "" }, if g { "fn*" } else { "fn" }, id, ps, b))
        })();
        self.labels = labels;
        self.yld = sv.0; self.aw = sv.1; self.strict = sv.2; self.in_fn = sv.3; self.iter = sv.4; self.sw = sv.5; self.super_prop = sv.6; self.super_call = sv.7; self.new_target = sv.8; self.allow_in = sv.9; self.depth = sv.10; self.params = sv.11;
        r
    }
    fn fn_body(&mut self, simple: bool, params: usize, decl: bool) -> R {
        self.ex("{")?; let open = self.i; let st = self.strict; self.in_fn = true; self.iter = false; self.sw = false; self.depth += 1;
        let v = self.body_items(false)?; self.ex("}")?;
        let us = std::mem::take(&mut self.use_strict);
        if us && !simple { self.bit_from(DIR_NONSIMPLE, open) }
        if us && !st {
            // the parameters (and the name before them) are strict as well
            let (i, e) = (self.i, self.eof); let back = (self.yld, self.aw, self.strict); self.strict = true; self.i = params; self.yld = false; self.aw = false;
            if self.t[params].k == K::Word { let _ = self.binding_ident(); } else {
                if params > 0 && self.t[params - 1].k == K::Word && !reserved(self.t[params - 1].s) && decl { self.i = params - 1; let _ = self.binding_ident(); }
                let (pp, m) = (self.params, self.m & YIELD_IN_PARAMS | self.m & AWAIT_IN_PARAMS); let _ = self.params_list(true); self.params = pp; self.m = self.m & !(YIELD_IN_PARAMS | AWAIT_IN_PARAMS) | m;
            }
            self.i = i; self.eof = e; (self.yld, self.aw, self.strict) = back;
        }
        self.reach(params, STRICT_EVAL | STRICT_RESERVED, open);
        Ok(format!("[{}]", v.join(" ")))
    }
    fn params_list(&mut self, unique: bool) -> R<(String, bool)> {
        self.ex("(")?; let mut v = vec![]; let mut simple = true; let mut names = vec![];
        while !self.is(")") {
            if self.eat("...") { simple = false; let b = self.binding_target()?; v.push(format!("(... {})", b)); if self.is("=") { return Err(()) } if self.eat(",") { self.bit(REST_TRAIL) } break }
            let pat = self.is("[") || self.is("{");
            let t = self.pk(); let b = self.binding_elem()?; if pat || b.starts_with("(=") { simple = false } else { names.push(t.s) }
            v.push(b);
            if !self.is(")") { self.ex(",")? }
        }
        self.ex(")")?;
        let mut u = names.clone(); u.sort(); u.dedup(); if u.len() != names.len() && (self.strict || !simple || unique) { self.bit(DUP_PARAMS) }
        Ok((format!("[{}]", v.join(" ")), simple))
    }
    fn binding_elem(&mut self) -> R { let b = self.binding_target()?; if self.eat("=") { let e = self.with_in(|p| p.assignment())?; return Ok(format!("(= {} {})", b, e.s)) } Ok(b) }
    fn binding_target(&mut self) -> R {
        if self.eat("[") {
            let mut o = String::from("(arr");
            loop {
                if self.eat("]") { break }
                if self.eat(",") { o += " _"; continue }
                if self.eat("...") { let b = self.binding_target()?; o += &format!(" (... {})", b); self.ex("]")?; break }
                o.push(' '); o += &self.binding_elem()?;
                if !self.is("]") { self.ex(",")? }
            }
            return Ok(o + ")")
        }
        if self.eat("{") {
            let mut o = String::from("(obj");
            while !self.eat("}") {
                o.push(' ');
                if self.eat("...") {
                    if self.is("[") || self.is("{") { self.bit(REST_PATTERN) }
                    let b = self.binding_target()?; o += &format!("(... {})", b); if self.is(",") { self.bit(REST_TRAIL); self.i += 1; }
                    if !self.is("}") { if self.m & REST_TRAIL != 0 { continue } return Err(()) }
                    continue
                }
                let t = self.pk();
                if t.k == K::Word && !self.is_at(1, ":") {
                    let n = self.binding_ident()?;
                    if self.eat("=") { let e = self.with_in(|p| p.assignment())?; o += &format!("(init/sh ${} {})", n, e.s) } else { o += &format!("(init/sh ${})", n) }
                } else {
                    let (k, _) = self.prop_key()?; self.ex(":")?; let b = self.binding_elem()?; o += &format!("(init {} {})", k, b)
                }
                if !self.is("}") { self.ex(",")? }
            }
            return Ok(o + ")")
        }
        Ok(format!("${}", self.binding_ident()?))
    }
    /// property name; second: the plain name when it is not computed
    fn prop_key(&mut self) -> R<(String, String)> {
        let t = self.pk();
        match t.k {
            K::Word => { self.i += 1; Ok((format!("${}", t.s), t.s.to_string())) }
            K::Str => { self.i += 1; Ok((t.s.to_string(), t.s[1..t.s.len() - 1].to_string())) }
            K::Num => { self.legacy_octal(t.s); self.i += 1; Ok((format!("#{}", t.s), String::new())) }
            K::Punct if t.s == "[" => { self.i += 1; let e = self.with_in(|p| p.assignment())?; self.ex("]")?; let literal = e.s.starts_with(|c| matches!(c, '#' | '\'' | '"')) || e.s == "true" || e.s == "false"; Ok((format!("[[{}{}]]", if literal { "=" } else { "" }, e.s), String::new())) }
            _ => Err(()),
        }
    }
    fn at_prop_key(&mut self, n: usize) -> bool { let t = self.pk_at(n); match t.k { K::Word | K::Str | K::Num => true, K::Punct => t.s == "[", _ => false } }
    fn class(&mut self, need_id: bool) -> R {
        self.ex("class")?; let ps = self.strict; self.strict = true;
        let r = self.class_in(need_id); self.strict = ps; r
    }
    fn class_in(&mut self, need_id: bool) -> R {
        let id = if !need_id && (self.is("{") || self.is("extends")) { "_".into() } else { format!("${}", self.binding_ident()?) };
        let (sup, has) = if self.eat("extends") { (self.lhs()?.s, true) } else { ("_".into(), false) };
        self.ex("{")?;
        let mut o = format!("(class {} {}", id, sup); let mut ctor = false;
        while !self.eat("}") {
            if self.eat(";") { continue }
            let mut st = false; let at = self.i;
            if self.is("static") && !self.is_at(1, "(") { self.i += 1; st = true }
            let mut a = false; let mut g = false; let mut kind = "";
            if self.is("async") && !self.is_at(1, "(") && !self.pk_at(1).nl { self.i += 1; a = true }
            if self.eat("*") { g = true }
            if !a && !g { if self.is("get") && !self.is_at(1, "(") { self.i += 1; kind = "get" } else if self.is("set") && !self.is_at(1, "(") { self.i += 1; kind = "set" } }
            let (k, n) = self.prop_key()?;
            let mut is_ctor = false;
            if !st && n == "constructor" { if kind != "" || a || g { self.bit_from(CTOR_SPECIAL, at) } else { is_ctor = true; if ctor { self.bit(DUP_CTOR) } ctor = true } }
            if st && n == "prototype" { self.bit_from(STATIC_PROTOTYPE, at) }
            let f = self.method(kind, g, a, is_ctor && has)?;
            o += &match kind { "" => format!(" ({}/m {} {})", if is_ctor { "ctor" } else { "cmethod" }, k, f), kd => format!(" ({} {} {})", kd, k, f) };
        }
        Ok(o + ")")
    }
    fn method(&mut self, kind: &str, g: bool, a: bool, ctor: bool) -> R {
        if !self.is("(") { return Err(()) }
        let start = self.i;
        let f = self.fn_rest("_", g, a, true, ctor)?;
        let np = self.count_params(start);
        if kind == "get" && np != 0 { self.bit_from(GETTER_PARAMS, start) }
        if kind == "set" && (np != 1 || self.t[start + 1].s == "...") { self.bit_from(SETTER_PARAMS, start) }
        Ok(f)
    }
    fn count_params(&self, start: usize) -> usize {
        let mut d = 0i32; let mut n = 0; let mut any = false;
        for t in &self.t[start..] {
            let mut open = 0; if t.k == K::Punct { match t.s { "(" | "[" | "{" => open = 1, ")" | "]" | "}" => open = -1, _ => {} } } else if t.k == K::Tpl { if t.s.starts_with('`') && t.s.ends_with("${") { open = 1 } else if t.s.starts_with('}') && t.s.ends_with('`') && t.s.len() > 0 { open = -1 } }
            if open == -1 && d == 1 { return n + any as usize }
            if d == 1 && t.k == K::Punct && t.s == "," { n += 1; any = false } else if d >= 1 { any = true }
            d += open;
        }
        n
    }
    // ---------- expressions
    pub fn expression(&mut self) -> R<E> { self.with_in(|p| p.expression_cur()) }
    fn expression_cur(&mut self) -> R<E> {
        let e = self.assignment()?; if !self.is(",") { return Ok(e) }
        let mut v = vec![e.s]; while self.eat(",") { v.push(self.assignment()?.s) }
        Ok(other(format!("(seq {})", v.join(" "))))
    }
    fn starts_expr(&mut self) -> bool {
        let t = self.pk();
        match t.k {
            K::Num | K::Str | K::Re => true,
            K::Tpl => t.s.starts_with('`'),
            K::Punct => matches!(t.s, "(" | "[" | "{" | "+" | "-" | "!" | "~" | "++" | "--"),
            K::Word => !reserved(t.s) || matches!(t.s, "function" | "class" | "new" | "this" | "super" | "null" | "true" | "false" | "typeof" | "void" | "delete" | "import"),
            K::Eof => false,
        }
    }
    fn assignment(&mut self) -> R<E> {
        if self.yld && self.is("yield") { return self.yield_expr() }
        if let Some(r) = self.try_arrow() { return r }
        if self.is("[") || self.is("{") {
            let s = self.save();
            if let Ok(p) = self.assign_pattern() { if self.is("=") { let at = self.i; self.reach(s.i, STRICT_EVAL, at); self.i += 1; let r = self.assignment()?; return Ok(other(format!("(= {} {})", p, r.s))) } }
            self.back(s);
        }
        let c = self.conditional()?;
        let t = self.pk();
        if t.k == K::Punct && matches!(t.s, "=" | "+=" | "-=" | "*=" | "/=" | "%=" | "**=" | "<<=" | ">>=" | ">>>=" | "&=" | "|=" | "^=") {
            if !matches!(c.k, Kd::Ident | Kd::Member) { self.bit(if c.paren && c.k == Kd::Lit { TARGET_PAREN_PATTERN } else { TARGET_ASSIGN }); if c.k == Kd::Other && !c.paren { return Err(()) } }
            if c.k == Kd::Ident && self.strict && (c.s == "$eval" || c.s == "$arguments") { self.bit(STRICT_EVAL) }
            self.i += 1;
            let r = self.assignment()?;
            return Ok(other(format!("({} {} {})", t.s, c.s, r.s)))
        }
        Ok(c)
    }
    fn yield_expr(&mut self) -> R<E> {
        if self.params { self.bit(YIELD_IN_PARAMS) }
        self.ex("yield")?;
        let t = self.pk();
        if t.nl { return Ok(other("(yield)".into())) }
        if self.eat("*") { let e = self.assignment()?; return Ok(other(format!("(yield* {})", e.s))) }
        if self.starts_expr() { let e = self.assignment()?; return Ok(other(format!("(yield {})", e.s))) }
        Ok(other("(yield)".into()))
    }
    /// Some(result) when an arrow function starts here
    fn try_arrow(&mut self) -> Option<R<E>> {
        let t = self.pk();
        if !(t.k == K::Word || (t.k == K::Punct && t.s == "(")) { return None }
        let s = self.save();
        // async arrow
        if t.k == K::Word && t.s == "async" {
            let n = self.pk_at(1);
            if !n.nl && n.k == K::Word && !reserved(n.s) && self.is_at(2, "=>") {
                self.i += 1;
                let pa = self.aw; self.aw = true; let id = self.binding_ident(); self.aw = pa;
                if let Ok(id) = id { return Some(self.arrow_body(format!("[${}]", id), true, true, s.i + 1)) }
            }
            if n.k == K::Punct && n.s == "(" {
                let nl = n.nl;
                self.i += 1;
                if let Ok((p, simple)) = self.arrow_params(true) { if self.is("=>") { if nl { self.bit_from(ASYNC_PAREN_NL, s.i) } return Some(self.arrow_body(p, simple, true, s.i + 1)) } }
            }
            self.back(s);
        }
        let s = self.save();
        if t.k == K::Word {
            if self.would_be_ident(t) && self.is_at(1, "=>") { let r = self.binding_ident(); return Some(match r { Ok(id) => self.arrow_body(format!("[${}]", id), true, false, s.i), Err(()) => Err(()) }) }
            return None
        }
        if let Ok((p, simple)) = self.arrow_params(false) { if self.is("=>") { return Some(self.arrow_body(p, simple, false, s.i)) } }
        self.back(s);
        None
    }
    fn arrow_params(&mut self, a: bool) -> R<(String, bool)> {
        let (pp, pa) = (self.params, self.aw); self.params = true; if a { self.aw = true }
        let ps = self.strict; let r = self.params_list(true); self.strict = ps; self.params = pp; self.aw = pa; r
    }
    fn arrow_body(&mut self, params: String, simple: bool, a: bool, start: usize) -> R<E> {
        if self.pk().nl { self.bit(ARROW_NL) }
        self.ex("=>")?; let at = self.i; self.reach(start, STRICT_EVAL, at);
        let sv = (self.yld, self.aw, self.strict, self.in_fn, self.iter, self.sw, self.depth, self.params, self.allow_in);
        self.yld = false; self.aw = a; self.params = false;
        let r = if self.is("{") {
            let labels = std::mem::take(&mut self.labels); self.allow_in = true;
            let b = self.fn_body(simple, start, false); self.labels = labels; b
        } else { self.assignment().map(|e| e.s) };
        self.yld = sv.0; self.aw = sv.1; self.strict = sv.2; self.in_fn = sv.3; self.iter = sv.4; self.sw = sv.5; self.depth = sv.6; self.params = sv.7; self.allow_in = sv.8;
        Ok(other(format!("({} {} {})", if a { "async-arrow" } else { "arrow" }, params, r?)))
    }
    // assignment patterns
    fn assign_target(&mut self) -> R {
        if self.is("[") || self.is("{") {
            let s = self.save();
            if let Ok(p) = self.assign_pattern() { if !self.is(".") && !self.is("[") && !self.is("(") && self.pk().k != K::Tpl { return Ok(p) } }
            self.back(s);
        }
        let e = self.with_in(|p| p.lhs())?;
        if matches!(e.k, Kd::Ident | Kd::Member) { if e.k == Kd::Ident && self.strict && (e.s == "$eval" || e.s == "$arguments") { self.bit(STRICT_EVAL) } Ok(e.s) } else { Err(()) }
    }
    fn assign_elem(&mut self) -> R { let b = self.assign_target()?; if self.eat("=") { let e = self.with_in(|p| p.assignment())?; return Ok(format!("(= {} {})", b, e.s)) } Ok(b) }
    fn assign_pattern(&mut self) -> R {
        if self.eat("[") {
            let mut o = String::from("(arr");
            loop {
                if self.eat("]") { break }
                if self.eat(",") { o += " _"; continue }
                if self.eat("...") { let b = self.assign_target()?; o += &format!(" (... {})", b); if self.is(",") { self.bit(REST_TRAIL); self.i += 1 } self.ex("]")?; break }
                o.push(' '); o += &self.assign_elem()?;
                if !self.is("]") { self.ex(",")? }
            }
            return Ok(o + ")")
        }
        self.ex("{")?;
        let mut o = String::from("(obj");
        while !self.eat("}") {
            o.push(' ');
            if self.eat("...") { let b = self.assign_target()?; if b.starts_with("(arr") || b.starts_with("(obj") { self.bit(REST_PATTERN) } o += &format!("(... {})", b); if self.eat(",") { self.bit(REST_TRAIL) } self.ex("}")?; break }
            let t = self.pk();
            if t.k == K::Word && !self.is_at(1, ":") {
                let n = self.binding_ident()?;
                if self.eat("=") { let e = self.with_in(|p| p.assignment())?; o += &format!("(init/sh ${} {})", n, e.s) } else { o += &format!("(init/sh ${})", n) }
            } else { let (k, _) = self.prop_key()?; self.ex(":")?; let b = self.assign_elem()?; o += &format!("(init {} {})", k, b) }
            if !self.is("}") { self.ex(",")? }
        }
        Ok(o + ")")
    }
    fn conditional(&mut self) -> R<E> {
        let c = self.binary(1)?;
        if !self.eat("?") { return Ok(c) }
        let a = self.with_in(|p| p.assignment())?; self.ex(":")?; let b = self.assignment()?;
        Ok(other(format!("(? {} {} {})", c.s, a.s, b.s)))
    }
    fn prec(&mut self) -> u8 {
        let t = self.pk();
        match t.k {
            K::Punct => match t.s { "||" => 1, "&&" => 2, "|" => 3, "^" => 4, "&" => 5, "==" | "!=" | "===" | "!==" => 6, "<" | ">" | "<=" | ">=" => 7, "<<" | ">>" | ">>>" => 8, "+" | "-" => 9, "*" | "/" | "%" => 10, _ => 0 },
            K::Word => match t.s { "instanceof" => 7, "in" if self.allow_in => 7, _ => 0 },
            _ => 0,
        }
    }
    fn binary(&mut self, min: u8) -> R<E> {
        let mut l = self.exponent()?;
        loop {
            let p = self.prec(); if p == 0 || p < min { return Ok(l) }
            let op = self.nx().s; let r = self.binary(p + 1)?;
            l = other(format!("({}:{} {} {})", if p <= 2 { 'l' } else { 'b' }, op, l.s, r.s));
        }
    }
    fn exponent(&mut self) -> R<E> {
        let l = self.unary()?;
        if !self.is("**") { return Ok(l) }
        if l.unary && !l.paren { self.bit(EXP_UNARY) }
        self.i += 1; let r = self.exponent()?;
        Ok(other(format!("(b:** {} {})", l.s, r.s)))
    }
    fn unary(&mut self) -> R<E> {
        let t = self.pk(); let at = self.i;
        if (t.k == K::Punct && matches!(t.s, "+" | "-" | "!" | "~")) || (t.k == K::Word && matches!(t.s, "delete" | "void" | "typeof")) {
            self.i += 1; let e = self.unary()?;
            if t.s == "delete" && self.strict && e.k == Kd::Ident { self.bit_from(STRICT_DELETE, at) }
            let mut r = other(format!("(u:{} {})", t.s, e.s)); r.unary = true; return Ok(r)
        }
        if self.aw && t.k == K::Word && t.s == "await" {
            if self.params { self.bit(AWAIT_IN_PARAMS) }
            self.i += 1; let e = self.unary()?; let mut r = other(format!("(await {})", e.s)); r.unary = true; return Ok(r)
        }
        if t.k == K::Punct && (t.s == "++" || t.s == "--") { self.i += 1; let e = self.unary()?; self.upd(&e, at); return Ok(other(format!("({}_ {})", t.s, e.s))) }
        let e = self.lhs()?;
        let t = self.pk();
        if t.k == K::Punct && (t.s == "++" || t.s == "--") && !t.nl { self.i += 1; self.upd(&e, at); return Ok(other(format!("(_{} {})", t.s, e.s))) }
        Ok(e)
    }
    fn upd(&mut self, e: &E, at: usize) {
        if !matches!(e.k, Kd::Ident | Kd::Member) { self.bit_from(TARGET_UPDATE, at) }
        if e.k == Kd::Ident && self.strict && (e.s == "$eval" || e.s == "$arguments") { self.bit_from(STRICT_EVAL, at) }
    }
    fn args(&mut self) -> R {
        self.ex("(")?; let mut o = String::new();
        while !self.eat(")") {
            o.push(' ');
            if self.eat("...") { let e = self.with_in(|p| p.assignment())?; o += &format!("(... {})", e.s) } else { o += &self.with_in(|p| p.assignment())?.s }
            if !self.is(")") { self.ex(",")? }
        }
        Ok(o)
    }
    fn lhs(&mut self) -> R<E> {
        let mut e = if self.is("super") {
            self.i += 1;
            if !self.super_prop { self.met(SUPER_CTX) }
            if self.is("(") { if !self.super_call { self.bit(SUPER_CTX) } } else if self.is(".") || self.is("[") { if !self.super_prop { self.bit(SUPER_CTX) } } else { return Err(()) }
            other("super".into())
        } else if self.is("import") {
            self.i += 1; if !self.is("(") { return Err(()) }
            let start = self.i; let a = self.args()?; 
            if self.count_params(start) != 1 || self.t[start + 1].s == "..." || self.t[self.i - 2].s == "," { self.bit(IMPORT_ARGS) }
            E { s: format!("(call $import{})", a), k: Kd::Call, paren: false, unary: false }
        } else { self.member_base()? };
        loop {
            if self.is("(") { let a = self.args()?; e = E { s: format!("(call {}{})", e.s, a), k: Kd::Call, paren: false, unary: false } }
            else if let Some(n) = self.suffix(&e)? { e = n } else { return Ok(e) }
        }
    }
    fn suffix(&mut self, e: &E) -> R<Option<E>> {
        if self.eat(".") { let n = self.name()?; return Ok(Some(E { s: format!("(dot {} ${})", e.s, n), k: Kd::Member, paren: false, unary: false })) }
        if self.eat("[") { let x = self.expression()?; self.ex("]")?; return Ok(Some(E { s: format!("(idx {} {})", e.s, x.s), k: Kd::Member, paren: false, unary: false })) }
        let t = self.pk();
        if t.k == K::Tpl && t.s.starts_with('`') { let q = self.template()?; return Ok(Some(other(format!("(tag {} {})", e.s, q)))) }
        Ok(None)
    }
    fn member_base(&mut self) -> R<E> { if self.is("new") { self.new_expr() } else { self.primary() } }
    fn new_expr(&mut self) -> R<E> {
        self.ex("new")?;
        if self.eat(".") { self.ex("target")?; if !self.new_target { self.bit(NEWTARGET_CTX) } return Ok(other("(meta new target)".into())) }
        let mut c = if self.is("super") { self.i += 1; if !self.super_prop { self.met(SUPER_CTX) } if !(self.is(".") || self.is("[")) { return Err(()) } if !self.super_prop { self.bit(SUPER_CTX) } other("super".into()) }
            else { self.member_base()? };
        while let Some(n) = self.suffix(&c)? { c = n }
        let a = if self.is("(") { self.args()? } else { String::new() };
        Ok(other(format!("(new {}{})", c.s, a)))
    }
    fn quasi(s: &str) -> String {
        let tail = s.ends_with('`') && !(s.len() == 1);
        let inner = &s[1..s.len() - if tail { 1 } else { 2 }];
        format!(" <{}|{}|{}>", s, inner, tail)
    }
    fn template(&mut self) -> R {
        let t = self.nx(); let mut q = Self::quasi(t.s); let mut es = String::new();
        if t.s.ends_with('`') && t.s.len() > 1 { return Ok(format!("(tpl{})", q)) }
        loop {
            let e = self.expression()?; es.push(' '); es += &e.s;
            let t = self.pk(); if t.k != K::Tpl || !t.s.starts_with('}') { return Err(()) }
            self.i += 1; q += &Self::quasi(t.s);
            if t.s.ends_with('`') { return Ok(format!("(tpl{}{})", q, es)) }
        }
    }
    fn legacy_octal(&mut self, s: &str) { if self.strict && s.len() > 1 && s.starts_with('0') && s.as_bytes()[1].is_ascii_digit() { self.bit(STRICT_OCTAL) } }
    fn primary(&mut self) -> R<E> {
        let t = self.pk();
        match t.k {
            K::Eof => Err(()),
            K::Num => { self.legacy_octal(t.s); self.i += 1; Ok(other(format!("#{}", t.s))) }
            K::Str => { self.i += 1; Ok(other(t.s.to_string())) }
            K::Re => { self.i += 1; let e = t.s.rfind('/').unwrap(); Ok(other(format!("(re {} {})", &t.s[1..e], &t.s[e + 1..]))) }
            K::Tpl => { if !t.s.starts_with('`') { return Err(()) } Ok(other(self.template()?)) }
            K::Punct => match t.s {
                "(" => { self.i += 1; let mut e = self.expression()?; self.ex(")")?; e.paren = true; Ok(e) }
                "[" => {
                    self.i += 1; let mut o = String::from("(arr");
                    loop {
                        if self.eat("]") { break }
                        if self.eat(",") { o += " _"; continue }
                        o.push(' ');
                        if self.eat("...") { let e = self.with_in(|p| p.assignment())?; o += &format!("(... {})", e.s) } else { o += &self.with_in(|p| p.assignment())?.s }
                        if !self.is("]") { self.ex(",")? }
                    }
                    Ok(E { s: o + ")", k: Kd::Lit, paren: false, unary: false })
                }
                "{" => self.object(),
                _ => Err(()),
            },
            K::Word => match t.s {
                "this" => { self.i += 1; Ok(other("this".into())) }
                "null" | "true" | "false" => { self.i += 1; Ok(other(t.s.into())) }
                "function" => Ok(other(self.function(false, true)?)),
                "async" if self.at_async_fn() => Ok(other(self.function(false, true)?)),
                "class" => Ok(other(self.class(false)?)),
                _ => { let n = self.ident()?; Ok(E { s: format!("${}", n), k: Kd::Ident, paren: false, unary: false }) }
            },
        }
    }
    fn object(&mut self) -> R<E> {
        self.ex("{")?; let mut o = String::from("(obj"); let mut protos = 0;
        while !self.eat("}") {
            o.push(' ');
            if self.eat("...") { let e = self.with_in(|p| p.assignment())?; o += &format!("(... {})", e.s) }
            else {
                let (mut a, mut g, mut kind) = (false, false, "");
                if self.is("async") && (self.at_prop_key(1) || self.is_at(1, "*")) && !self.pk_at(1).nl { self.i += 1; a = true }
                if self.eat("*") { g = true }
                if !a && !g { if self.is("get") && self.at_prop_key(1) { self.i += 1; kind = "get" } else if self.is("set") && self.at_prop_key(1) { self.i += 1; kind = "set" } }
                let t = self.pk();
                let (k, n) = self.prop_key()?;
                if kind != "" { let f = self.method(kind, false, false, false)?; o += &format!("({} {} {})", kind, k, f) }
                else if a || g || self.is("(") { let f = self.method("", g, a, false)?; o += &format!("(init/m {} {})", k, f) }
                else if self.eat(":") { if n == "__proto__" { protos += 1; if protos > 1 { self.bit(DUP_PROTO) } } let e = self.with_in(|p| p.assignment())?; o += &format!("(init {} {})", k, e.s) }
                else if t.k == K::Word {
                    if !self.ident_ok(t.s) { return Err(()) }
                    if self.eat("=") { self.bit(COVER_INIT); let e = self.with_in(|p| p.assignment())?; o += &format!("(init/sh {} {})", k, e.s) } else { o += &format!("(init/sh {})", k) }
                } else { return Err(()) }
            }
            if !self.is("}") { self.ex(",")? }
        }
        Ok(E { s: o + ")", k: Kd::Lit, paren: false, unary: false })
    }
}
