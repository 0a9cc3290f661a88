//! The checks, one per property.
use crate::compose::{self, Comp, Edits};
use crate::engine::{self, Check, Local, Violation};
use crate::explore::judge;
use crate::gen::{self, Ref, Toks};
use crate::imp::{self, Cfg, Out, MODULE, SCRIPT};
use crate::refp::{self, *};
use crate::scan;
use crate::spaces::{self, *};
use crate::tokseq::{render, split, toks, NL};

pub const STRICT: u64 = STRICT_RESERVED | STRICT_WITH | STRICT_DELETE | STRICT_EVAL | STRICT_FN_IF | STRICT_OCTAL | DIR_NONSIMPLE;
pub const CTX: u64 = RETURN_TOP | BREAK_TARGET | CONTINUE_TARGET | LABEL_DUP | SUPER_CTX | NEWTARGET_CTX | FOR_AWAIT_CTX;
pub const TARGETS: u64 = TARGET_ASSIGN | TARGET_UPDATE | TARGET_FOR | COVER_INIT | CONST_NOINIT | PATTERN_NOINIT | LET_LET | REST_TRAIL | REST_PATTERN | TARGET_PAREN_PATTERN;
pub const STMT: u64 = DECL_IN_STMT | FN_IN_STMT | GEN_IN_STMT | LABEL_CLASS | TRY_ALONE | THROW_NL | FOR_AWAIT_NONOF | ASYNC_OF | LET_LET | CONST_NOINIT;
pub const FUNCS: u64 = GETTER_PARAMS | SETTER_PARAMS | ARROW_NL | ARROW_PARAMS | ASYNC_PAREN_NL | REST_TRAIL;
pub const CLASS: u64 = DUP_CTOR | CTOR_SPECIAL | STATIC_PROTOTYPE | GETTER_PARAMS | SETTER_PARAMS;
pub const MODS: u64 = MODITEM_NESTED | MODITEM_SCRIPT | IMPORT_RESERVED | EXPORT_RESERVED | DUP_DEFAULT | AWAIT_IDENT;
/// static errors left alone: either outside what the parser sets out to check or required by its own tests
pub const LEFT_ALONE: u64 = IMPORT_ARGS | FORIN_INIT | ANON_FN | CONTINUE_NONLOOP | DUP_PROTO | DUP_PARAMS;
pub const EVERY: u64 = !LEFT_ALONE;

type Body = fn(&Check);
pub struct Def { pub id: &'static str, pub rule: &'static str, pub body: Body }
const RULE: &str = "A state is a token sequence (a viable prefix in the token-by-token spaces, a composed program in the others); a transition runs the reference grammar and the real parser on one sequence and compares acceptance and, if accepted, the whole tree. Every sequence of each listed space is visited once.";
pub const CHECKS: &[Def] = &[
    Def { id: "C01", rule: "Every text of the listed spaces is parsed and iterated on the real parser, as script and module, strict and tolerant, under a watchdog; each run must end without panic, the iterator must end and stay ended, and both ways must agree.", body: c01 },
    Def { id: "C02", rule: RULE, body: c02 },
    Def { id: "C03", rule: RULE, body: c03 },
    Def { id: "C04", rule: RULE, body: c04 },
    Def { id: "C05", rule: RULE, body: c05 },
    Def { id: "C06", rule: RULE, body: c06 },
    Def { id: "C07", rule: RULE, body: c07 },
    Def { id: "C08", rule: "Every gap of every program of the space is filled with every comment, blank and line terminator of the list; the real parser must build what the reference builds for the tokens alone (with the line terminator, if the filler holds one), and the comment handler must have been given exactly the comments inserted, once, in order.", body: c08 },
    Def { id: "C09", rule: "Every literal or name of the enumerated character-level space is put in every one of the listed places; the tree must carry the text verbatim.", body: c09 },
    Def { id: "C10", rule: "Every text of the space that cannot be continued to a program is parsed with every filler of the list in front of and inside it; the position of the error must be that of the first token with which the text left the grammar.", body: c10 },
    Def { id: "C11", rule: "Every ordered pair (history, probe) is parsed as one program and compared with the reference grammar; the probes are sensitive to each piece of context the parser keeps.", body: c11 },
    Def { id: "C12", rule: RULE, body: c12 },
    Def { id: "C13", rule: RULE, body: c13 },
    Def { id: "C14", rule: RULE, body: c14 },
    Def { id: "C15", rule: RULE, body: c15 },
    Def { id: "C16", rule: RULE, body: c16 },
    Def { id: "C17", rule: RULE, body: c17 },
    Def { id: "C18", rule: "Every proper prefix (by token and by character) and every bracket edit of every program of the space is parsed; what the grammar does not derive must be rejected.", body: c18 },
    Def { id: "C19", rule: RULE, body: c19 },
    Def { id: "C20", rule: RULE, body: c20 },
    Def { id: "C21", rule: "Every program of the space, and every one-token deletion of it, is parsed through every entry point; results, errors and the parts yielded before an error must agree.", body: c21 },
    Def { id: "C22", rule: "Every program of the space, and every one-edit neighbour, is parsed with tolerance off and on; what is accepted without tolerance must be accepted with it, with the same tree.", body: c22 },
    Def { id: "C23", rule: "Every text of the space that the parser rejects: the token the error names, its printed form and its kind are compared with the text and with the static rules the reference finds broken.", body: c23 },
    Def { id: "C24", rule: "Every interleaving of the steps of the parsers of two texts (and of three short ones) of a list, built by one builder changed in between or by separate ones, beforehand or when first stepped: every parser yields, in every step, the parts, the error, the end and the comments it yields alone; alone, it yields the parts of the derivation one by one, each with the comments in it and none from within the next.", body: c24 },
    Def { id: "C25", rule: "A state is a text with the calls made so far on one parser; a transition is one more call of next, parse or parse_expression. Every sequence of calls up to the length given is made on a fresh real parser and every answer compared with a model whose state is (parts of the text, parts given, running, failed or ended).", body: c25 },
];
pub fn find(id: &str) -> Option<&'static Def> { CHECKS.iter().find(|d| d.id == id) }

// ---------------------------------------------------------------------------------- C01
pub fn answer(c: &Check, l: &mut Local, text: &str, cfg: Cfg) {
    l.transitions += 1; l.execs += 1;
    let p = engine::exec(text, cfg);
    l.outcome(&p);
    let limit = text.len() + 3;
    let it = engine::run(text, cfg, || imp::iterate(text, cfg, limit));
    let bad = match (&p, &it.end) {
        (Out::Panic(m), _) => Some(format!("parse panics: {}", m)),
        (_, imp::End::Panic(m)) => Some(format!("the iterator panics: {}", m)),
        (_, imp::End::Endless) => Some(format!("the iterator yields more than {} items", limit)),
        (_, imp::End::Revived) => Some("the iterator yields something after it ended".into()),
        (Out::Ok(_), imp::End::Err(k, ..)) => Some(format!("parse succeeds but the iterator ends in {}", k)),
        (Out::Err(k, ..), imp::End::Done) => Some(format!("parse fails with {} but the iterator ends without error", k)),
        _ => None,
    };
    match &p { Out::Ok(_) => l.count("accepted"), _ => l.count("rejected") }
    if bad.is_some() && scan::spans(text).is_none() { l.skipped += 1; return }
    if let Some(w) = bad { c.violate(l, Violation { text: text.into(), cfg, expect: "an answer".into(), got: w, why: "no proper answer".into() }) } else if p.is_ok() { l.sample(text) }
}
const CFGS: [Cfg; 4] = [SCRIPT, MODULE, Cfg { module: false, tolerant: true }, Cfg { module: true, tolerant: true }];
pub const TOKENS: &str = "a b this null true 1 's' /r/ `t` `h${ }m${ }t` ; , . ... ( ) [ ] { } => = += **= ? : || && | ^ & == === < > << + - * / % ** ++ -- ! ~ new delete typeof void in instanceof of var let const function class extends super static get set async await yield import export from as default return break continue if else for while do switch case throw try catch finally with debugger constructor target eval arguments implements enum";
fn c01(c: &Check) {
    // token soups
    let al = split(TOKENS);
    let n = c.q(3, 3);
    let mut roots: Vec<Vec<usize>> = vec![];
    for a in 0..al.len() { for b in 0..al.len() { roots.push(vec![a, b]) } }
    let go = |pre: &[&str], post: &[&str], n: usize, name: &str| {
        c.par(&roots, |r, l| {
            if c.over() { return }
            let mut v: Vec<&str> = pre.to_vec(); v.extend(r.iter().map(|&i| al[i])); let at = v.len(); v.extend(post);
            let all = |l: &mut Local, v: &[&str]| { let t = render(v); l.states += 1; for k in CFGS { answer(c, l, &t, k) } };
            all(l, &v);
            if n >= 3 { for x in &al { let mut w = v.clone(); w.insert(at, x); all(l, &w) } }
        });
        c.note(format!("{}: every sequence of 2 to {} of {} tokens", name, n, al.len()));
    };
    go(&[], &[], n, "top level");
    for i in c.q(vec![2, 4, 7], ALL_FRAMES.to_vec()) { let (a, b, _) = gen::frame(i); go(&a, &b, c.q(2, 3), gen::FRAMES[i].0); }
    for (a, b) in [("x = {", "}"), ("class x {", "}"), ("(", ") => a"), ("async (", ")"), ("for (", ") ;"), ("[", "] = a"), ("function f (", ") { }"), ("x = `h${", "}t`"), ("import {", "} from 's'"), ("export", ""), ("switch ( a ) {", "}")] { go(&split(a), &split(b), c.q(2, 3), a); }
    // character soups
    let chars: Vec<&str> = vec!["a", "1", "'", "\"", "`", "/", "*", "\\", "\n", "\r", " ", "{", "}", "(", ")", "$", "=", ">", "<", "!", "-", "+", ".", ";", ",", "[", "]", "u", "\u{e9}", "\u{2028}", "0", "x"];
    let cn = c.q(3, 4);
    let mut croots: Vec<String> = vec![String::new()];
    for a in &chars { croots.push(a.to_string()); for b in &chars { croots.push(format!("{}{}", a, b)) } }
    let unscannable = std::sync::atomic::AtomicU64::new(0);
    c.par(&croots, |r, l| {
        fn rec(c: &Check, l: &mut Local, chars: &[&str], s: &mut String, left: usize, u: &std::sync::atomic::AtomicU64) {
            if c.over() { return }
            l.states += 1;
            if scan::spans(s).is_none() { u.fetch_add(1, std::sync::atomic::Ordering::Relaxed); l.skipped += 1 } else { answer(c, l, s, SCRIPT); answer(c, l, s, Cfg { module: true, tolerant: true }) }
            if left == 0 { return }
            for x in chars { let n = s.len(); s.push_str(x); rec(c, l, chars, s, left - 1, u); s.truncate(n) }
        }
        let mut s = r.clone(); let len = s.chars().count();
        rec(c, l, &chars, &mut s, if len == 2 { cn - 2 } else { 0 }, &unscannable);
    });
    c.note(format!("character soups: every text of up to {} of {} characters", cn, chars.len()));
    // every character prefix, suffix and one-character deletion of composed programs
    compose::programs(c, &Comp { name: "prefixes, suffixes and character deletions of composed programs", firsts: compose::all_firsts(), depth: 1, keep: &|_| true, frames: ALL_FRAMES, pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
        let t = render(v); let idx: Vec<usize> = t.char_indices().map(|x| x.0).collect();
        for &i in &idx { for s in [t[..i].to_string(), t[i..].to_string(), format!("{}{}", &t[..i], t[i..].chars().skip(1).collect::<String>())] {
            if scan::spans(&s).is_none() { l.skipped += 1; continue }
            answer(c, l, &s, cfg(m)); answer(c, l, &s, Cfg { module: m, tolerant: true });
        } }
    });
    // one-token edits of composed programs, tolerant
    compose::programs(c, &Comp { name: "one-edit neighbours of composed programs", firsts: compose::all_firsts(), depth: c.q(1, 2), keep: &|_| true, frames: c.q(&[0, 2, 3, 7, 13], ALL_FRAMES), pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
        compose::edits(v, DS2N, &mut |w| { let t = render(w); if scan::spans(&t).is_none() { l.skipped += 1; return } answer(c, l, &t, cfg(m)); answer(c, l, &t, Cfg { module: m, tolerant: true }) });
    });
    spaces::nest(c, "nested productions", "-", c.q(24, 60), TOP, 0);
    for (tags, fr) in [("wide", c.q(TOP, &[0, 2, 3, 7, 13])), ("widemod", TOPMOD)] { compose::programs(c, &Comp { name: "all combinations of the parts of each construct", firsts: firsts(tags), depth: 1, keep: &|_| true, frames: fr, pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
        let t = render(v); if scan::spans(&t).is_none() { l.skipped += 1; return } answer(c, l, &t, cfg(m)); answer(c, l, &t, Cfg { module: m, tolerant: true });
        if c.thorough() { compose::edits(v, DS2N, &mut |w| { let t = render(w); if scan::spans(&t).is_none() { l.skipped += 1; return } answer(c, l, &t, Cfg { module: m, tolerant: true }) }) }
    }) }
    spaces::lists(c, "long lists", "-", c.q(40, 200), TOP, 0);
    borrowed(c, ANSWERS, &["C05", "C09", "C14", "C15", "C16", "C17", "C19"]);
}
// ---------------------------------------------------------------------------------- C02
fn c02(c: &Check) {
    lists_of(c, GRAMMAR, LISTED);
    comp(c, "one-edit neighbours of productions in every context", "-", 1, ALL_FRAMES, EVERY, Some(DS2N));
    comp(c, "one-edit neighbours of module items", "mod", 1, TOPMOD, EVERY, Some(DS2N));
    comp(c, "one-edit neighbours of pairs of productions", "-", 2, TOP, EVERY, Some(DS2N));
    comp(c, "one-edit neighbours of all combinations of the parts of each construct", "wide", 1, c.q(TOP, &[0, 2, 3, 7, 13]), EVERY, Some(DS2N));
    comp(c, "one-edit neighbours of all combinations of the parts of each module item", "widemod", 1, TOPMOD, EVERY, Some(DS2N));
    odds(c, "productions with texts that may be no pattern, or nothing else, in their holes", "-", c.q(TOP, &[0, 2, 3, 14]), gen::ODD.len(), false);
    odds(c, "combinations of parts with such texts in their holes", "wide", TOP, c.q(4, gen::ODD.len()), false);
    let ins: &'static [&'static str] = Vec::leak(split("a 1 's' ; , . ... ( ) [ ] { } => = += ? : || * ** ++ - ! new in of var let const function class extends super static async await yield import export default return break if else for while do case catch `t`"));
    comp(c, "insertions and replacements in productions", "-", 1, c.q(&[0, 4, 11][..], ALL_FRAMES), EVERY, Some(Edits { insert: ins, replace: ins, ..Default::default() }));
    comp(c, "insertions and replacements in module items", "mod", 1, TOPMOD, EVERY, Some(Edits { insert: ins, replace: ins, ..Default::default() }));
    dfs(c, "expressions", "", "a 1 . ( ) [ ] new , super this import => async", "", c.q(4, 6), false, EVERY);
    dfs(c, "brackets", "", "a b { } [ ] = : , ... 1 ( ) =>", "", c.q(5, 6), false, EVERY);
    dfs(c, "statement heads", "", "if ( a ) else ; { } function while do NL", "", c.q(6, 8), false, EVERY);
    dfs(c, "declarations", "", "function class a ( ) { } * async NL static get set", "", c.q(5, 7), false, EVERY);
    dfs(c, "statements", "", "var let const return throw break continue try switch for while do if a ; ( ) { } : case", "", c.q(4, 5), false, EVERY);
    if c.thorough() {
        comp(c, "one-edit neighbours of pairs of productions in every context", "-", 2, ALL_FRAMES, EVERY, Some(DS2N));
        comp(c, "insertions and replacements in pairs of productions", "-", 2, TOP, EVERY, Some(Edits { insert: ins, replace: ins, ..Default::default() }));
        dfs(c, "every token", "", TOKENS, "", 4, false, EVERY);
        dfs(c, "every token, module", "", TOKENS, "", 4, true, EVERY);
    } else { dfs(c, "every token", "", TOKENS, "", 3, false, EVERY); dfs(c, "every token, module", "", TOKENS, "", 3, true, EVERY) }
}
pub const TOPMOD: &[usize] = &[15];
/// The enumerated lists of other checks, with every rule enforced.
fn lists_of(c: &Check, mode: u8, bodies: &[(&str, Body)]) {
    for (n, b) in bodies { if c.over() { return } let t = std::time::Instant::now(); FOREIGN.store(mode, std::sync::atomic::Ordering::SeqCst); c.note(format!("the lists of {}:", n)); b(c); FOREIGN.store(0, std::sync::atomic::Ordering::SeqCst); if std::env::var_os("MC_TIMES").is_some() { eprintln!("{} {:?}", n, t.elapsed()) } }
}
/// Those lists under the running check's own judgement: the named ones, in the thorough tier all.
fn borrowed(c: &Check, mode: u8, quick: &[&str]) {
    let l: Vec<(&str, Body)> = LISTED.iter().filter(|x| c.thorough() || quick.contains(&x.0)).cloned().collect();
    lists_of(c, mode, &l)
}
const LISTED: &[(&str, Body)] = &[("C04", c04), ("C05", c05), ("C06", c06), ("C07", c07), ("C09", c09), ("C11", c11), ("C12", c12), ("C13", c13), ("C14", c14), ("C15", c15), ("C16", c16), ("C17", c17), ("C19", c19)];
// ---------------------------------------------------------------------------------- C03
fn c03(c: &Check) {
    wide(c, "productions", "-", ALL_FRAMES, EVERY, None, false); wide(c, "module items", "mod", TOPMOD, EVERY, None, false);
    dressed(c, "productions", "-", false); dressed(c, "module items", "mod", true);
    comp(c, "all nestings of three productions", "-", 3, TOP, EVERY, None);
    comp(c, "all nestings of two productions in every context", "-", 2, ALL_FRAMES, EVERY, None);
    comp(c, "all nestings of productions in module items", "mod", c.q(2, 3), TOPMOD, EVERY, None);
    let asi = Edits { asi: true, ..Default::default() };
    comp(c, "all nestings of two productions in every context, semicolons left out", "-", 2, ALL_FRAMES, EVERY, Some(asi));
    if c.thorough() { comp(c, "all nestings of three productions, semicolons left out", "-", 3, &[0, 3, 13], EVERY, Some(asi)); sibs(c, "all pairs of productions in one production", "-", ALL_FRAMES, EVERY); sibs(c, "all pairs of productions in one module item", "mod", TOPMOD, EVERY); comp(c, "all nestings of three productions in other contexts", "-", 3, &[2, 3, 7, 13, 15], EVERY, None) }
    else { sibs(c, "all pairs of productions in one production", "-", TOP, EVERY) }
    lists_of(c, GRAMMAR, LISTED);
}
// ---------------------------------------------------------------------------------- C04
const BINOPS: &str = "|| && | ^ & == != === !== < > <= >= instanceof in << >> >>> + - * / % **";
const ASGOPS: &str = "= += -= *= /= %= **= <<= >>= >>>= &= ^= |=";
fn c04(c: &Check) {
    dressed(c, "operators", "bin un upd cond asg seq exp paren", false);
    let b = split(BINOPS); let u = split("! ~ + - typeof void delete ++ --"); let asg = split(ASGOPS);
    let mut v: Vec<Toks> = vec![];
    // every pair and triple of operators, bare, with each operand parenthesized, with prefix and postfix operators on each operand
    let mut ops = b.clone(); ops.extend(&asg); ops.push("?"); ops.push(",");
    let mk = |o: &[&'static str], deco: &dyn Fn(usize, &'static str, &mut Toks)| -> Toks {
        let names = ["p", "q", "r", "s", "t", "z"]; let mut w = vec![]; let mut n = 0;
        deco(n, names[n], &mut w); n += 1;
        for x in o { w.push(*x); deco(n, names[n], &mut w); n += 1; if *x == "?" { w.push(":"); w.push("k") } }
        w.push(";"); w
    };
    let plain = |_: usize, s: &'static str, w: &mut Toks| w.push(s);
    for x in &ops { for y in &ops {
        v.push(mk(&[x, y], &plain));
        for at in 0..3 {
            for d in &u { v.push(mk(&[x, y], &|i, s, w| { if i == at { w.push(d) } w.push(s) })) }
            for d in ["++", "--"] { v.push(mk(&[x, y], &|i, s, w| { w.push(s); if i == at { w.push(d) } })) }
            for d in ["yield", "await", "new", "async"] { v.push(mk(&[x, y], &|i, s, w| { if i == at { w.push(d) } w.push(s) })) }
            v.push(mk(&[x, y], &|i, s, w| { if i == at { w.extend(["(", s, ")"]) } else { w.push(s) } }));
        }
        // ( p x q ) y r   and   p x ( q y r )
        v.push(vec!["(", "p", x, "q", ")", y, "r", ";"]); v.push(vec!["p", x, "(", "q", y, "r", ")", ";"]);
        for z in &ops { v.push(mk(&[x, y, z], &plain)) }
    } }
    for z in &u { for y in &u { for x in &ops { v.push(vec![z, y, "p", x, "q", ";"]); v.push(vec!["p", x, z, y, "q", ";"]); v.push(vec![z, "(", "p", x, "q", ")", ";"]); v.push(vec![z, "p", x, y, "q", ";"]) } } }
    list(c, "every two and three operators in a row, with every unary operator and parenthesis", &v, &[0, 4], false, EXP_UNARY | TARGET_ASSIGN | TARGET_UPDATE);
    // every chain of operators that bind tighter and tighter (all that can be pending at once), then every two operators
    let level = split("|| && | ^ & === < << + * **"); let next = split("|| && | ^ & === < in << + * ** ? ,");
    let names = ["p", "q", "r", "s", "t", "u", "v", "w", "y", "z", "a", "b", "c", "d", "e", "f"];
    let mut deep: Vec<Toks> = vec![];
    for set in 0..1u32 << level.len() {
        let up: Vec<&'static str> = (0..level.len()).filter(|i| set >> i & 1 == 1).map(|i| level[i]).collect();
        let chain = |more: &[&'static str]| { let mut w = vec![]; for (i, o) in up.iter().chain(more).enumerate() { w.push(names[i]); w.push(*o); if *o == "?" { w.push("k"); w.push(":") } } w.push(names[up.len() + more.len()]); w.push(";"); w };
        deep.push(chain(&[]));
        for x in &next { deep.push(chain(&[x])); for y in &next { deep.push(chain(&[x, y])) } }
        // the same chain from the tightest to the loosest, and through both
        let down: Vec<&'static str> = up.iter().rev().cloned().collect();
        if up.len() <= 7 { deep.push(chain(&down)); }
        if up.len() < 7 { for x in &next { let mut d = down.clone(); d.push(x); deep.push(chain(&d)) } }
    }
    list(c, "every chain of operators that bind tighter and tighter, then every two operators", &deep, TOP, false, EXP_UNARY);
    let reps = split("|| && | ^ & === < in << + * ** = ? ,");
    let mut w4: Vec<Toks> = vec![];
    let r: &[&'static str] = if c.thorough() { &b } else { &reps };
    for x in r { for y in r { for z in r { for k in r { w4.push(mk(&[x, y, z, k], &plain)) } } } }
    list(c, "every four operators in a row", &w4, TOP, false, EXP_UNARY | TARGET_ASSIGN);
    if c.thorough() { let mut w5 = vec![]; for x in &reps { for y in &reps { for z in &reps { for k in &reps { for q in &reps { w5.push(mk(&[x, y, z, k, q], &plain)) } } } } } list(c, "every five operators of one per precedence level", &w5, TOP, false, EXP_UNARY | TARGET_ASSIGN) }
    // the operator in for heads: `in` is an operator only where it cannot end the head
    let mut fh: Vec<Toks> = vec![];
    for x in &b { for y in &b { for h in ["for ( p # q @ r ; ; ) ;", "for ( var p = q # r @ s ; ; ) ;", "for ( ; p # q @ r ; ) ;", "for ( p in q # r @ s ) ;", "for ( ; ; p # q @ r ) ;", "for ( ( p # q ) @ r ; ; ) ;", "for ( p [ q # r ] @ s ; ; ) ;", "for ( x = ( ) => { p # q @ r } ; ; ) ;", "x = p ? q # r : s @ t ;", "x = [ p # q , r @ s ] ;", "x = `h${ p # q }m${ r @ s }t` ;", "x = { [ p # q ] : r @ s } ;", "p ( q # r , s @ t ) ;", "for ( let p = ( q # r @ s ) ; ; ) ;", "for ( x = function ( ) { p # q @ r } ; ; ) ;", "for ( x = { y : p # q @ r } ; ; ) ;", "for ( var x = p ? q # r : s @ t ; ; ) ;"] {
        fh.push(split(h).into_iter().map(|t| match t { "#" => *x, "@" => *y, t => t }).collect())
    } } }
    list(c, "every two operators in every place an expression stands", &fh, TOP, false, EXP_UNARY | TARGET_FOR);
    dfs(c, "exponent and unary operators", "", "a ** - ( ) typeof delete ++ NL", "", c.q(6, 8), false, EXP_UNARY | TARGET_UPDATE);
    dfs(c, "mixed operators", "x = ", "a + * ** < in ? : ( ) ! , =", "", c.q(6, 7), false, EXP_UNARY | TARGET_ASSIGN);
    dfs(c, "slash and regular expressions", "a", "/ /r/ + ( ) = a ++ ;", "", c.q(5, 7), false, TARGET_ASSIGN | TARGET_UPDATE);
    comp_any(c, "operators in and around every production", "bin un upd cond asg seq paren", 2, c.q(&[0, 2, 3][..], ALL_FRAMES), EXP_UNARY | TARGET_ASSIGN | TARGET_UPDATE, None);
    lists(c, "long operator chains", "bin un cond asg seq exp", c.q(40, 200), TOP, 0);
    nest(c, "nested operators", "bin un upd cond asg seq paren", c.q(12, 30), TOP, 0);
}
// ---------------------------------------------------------------------------------- C05
const EXPRTAGS: &str = "prim tpl arr obj paren fn class mem call new tag ctx upd un await bin cond asg arrow yield seq";
fn c05(c: &Check) {
    wide(c, "expressions", "mem new call arr obj tpl un mix asg", c.q(&[0, 2, 3, 7, 13], ALL_FRAMES), EVERY, Some(DS2N), true);
    dressed(c, "expressions", "mem call new tpl tag arr ctx arrow yield paren prim lit spread", false);
    comp(c, "expressions, two deep, in every context", "mem call new tpl tag arr ctx arrow yield paren prim lit spread", 2, ALL_FRAMES, EVERY, None);
    comp(c, "calls, members, literals and templates, three deep", "mem call new tpl tag arr ctx paren spread", 3, c.q(TOP, &[0, 4, 7]), EVERY, None);
    dfs(c, "members and calls", "", "a 1 . ( ) [ ] new , super this import", "", c.q(5, 7), false, EVERY);
    dfs(c, "member chains", "a", ". b ( ) [ ] `t` ++ new NL", "", c.q(6, 8), false, EVERY);
    dfs(c, "new", "new", "a new . target ( ) [ ] `t` function { } class", "", c.q(5, 7), false, EVERY);
    dfs(c, "templates", "", "`${ }` `b` a ( ) + }c${ { }", "", c.q(6, 8), false, EVERY);
    dfs(c, "arrays", "x = [", "a , ... [ ] = 1 ( )", "] ;", c.q(5, 7), false, EVERY);
    dfs(c, "conditionals", "x =", "a ? : = , ( ) =>", "", c.q(6, 8), false, EVERY);
    dfs(c, "keyword properties", "a .", "if new class this null true of let . ( ) async await yield", "", c.q(4, 5), false, EVERY);
    let mut v: Vec<Toks> = vec![];
    let after = split(". ( [ `t` ++ -- = += ** + ? , => / instanceof in ;");
    let prims = ["a", "this", "1", "'s'", "null", "true", "/r/g", "`t`", "[ ]", "{ }", "( a )", "function ( ) { }", "class { }", "new a", "new a ( )", "a ( )", "a . b", "a [ b ]", "a `t`", "`h${ a }t`", "super . a", "new . target", "import ( a )", "async ( a )", "async a => b", "a => b", "async function ( ) { }", "( a , b )", "- a", "typeof a", "a ++", "++ a", "a ? b : c", "a = b", "await a", "yield a", "yield", "delete a . b", "! a", "a + b", "( ) => { }", "( a ) => b", "async ( ) => { }", "{ a }", "[ a ]", "[ a = b ]", "{ a : b }", "{ a = b }", "( { a } )", "( [ a ] )"];
    let tail = ["a ;", "b ) ;", "b ] ;", "a : b ;", ";", ") ;", "] ;", "( a ) ;", "{ } ;"];
    for p in prims { for q in &after { for t in tail { for pre in ["x = ", "", "( x , ", "x = [ ", "x ( ", "x = { y : "] { let mut w = split(pre); w.extend(split(p)); w.push(q); w.extend(split(t)); v.push(w) } } } }
    list(c, "every expression followed by every operator and tail", &v, c.q(&[0, 4, 7][..], ALL_FRAMES), false, EVERY);
    sibs(c, "pairs of expressions in one", "mem call new tpl tag arr cond paren seq spread", c.q(TOP, ALL_FRAMES), EVERY);
    lists(c, "long lists", "arr call mem new tpl seq paren spread cond", c.q(40, 200), TOP, 0);
    nest(c, "nested expressions", "mem call new tpl tag arr ctx paren spread cond", c.q(12, 30), TOP, 0);
    if c.thorough() { comp(c, "every expression three deep", EXPRTAGS, 3, &[0, 4], EVERY, None) }
}
// ---------------------------------------------------------------------------------- C06
const STMTTAGS: &str = "empty block exprstmt decl if loop jump with switch try label dbg";
fn c06(c: &Check) {
    wide(c, "statements", "loop decl body switch try", c.q(&[0, 2, 3, 10, 13], ALL_FRAMES), EVERY, Some(DS2N), true);
    dressed(c, "statements", STMTTAGS, false);
    comp(c, "statements, two deep, in every context", STMTTAGS, 2, ALL_FRAMES, STMT | TARGETS | CTX, None);
    comp(c, "statements, one-edit neighbours", STMTTAGS, 1, c.q(&[0, 1, 3, 10, 11, 12, 14][..], ALL_FRAMES), STMT | TARGETS | CTX, Some(DS2N));
    comp(c, "statements, two deep, in every context, semicolons left out", STMTTAGS, 2, ALL_FRAMES, STMT, Some(Edits { asi: true, ..Default::default() }));
    comp(c, "statements, three deep", STMTTAGS, 3, TOP, STMT | TARGETS | CTX, None);
    sibs(c, "pairs of productions in one statement", STMTTAGS, c.q(TOP, ALL_FRAMES), STMT | TARGETS | CTX);
    dfs(c, "if and blocks", "", "if ( a ) else ; { } function while do NL", "", c.q(7, 9), false, STMT);
    dfs(c, "switch", "switch ( a ) {", "case default : ; a break { }", "}", c.q(6, 8), false, STMT);
    dfs(c, "cases", "switch ( a ) {", "case default : a ;", "}", c.q(13, 16), false, STMT);
    dfs(c, "handlers", "try { } catch ( a ) { }", "catch finally { } ( a ) ;", "", c.q(8, 10), false, STMT | TARGETS);
    dfs(c, "switch heads", "", "switch ( a ) { case default : ; } break", "", c.q(8, 9), false, STMT);
    dfs(c, "try", "", "try catch finally { } ( a ) throw NL ;", "", c.q(7, 9), false, STMT);
    dfs(c, "try clauses", "try { }", "catch finally { } ( a ) [ ] ; =", "", c.q(7, 9), false, STMT | TARGETS);
    dfs(c, "for heads", "", "for ( ) let of in a ; var = { }", "; a ) a", c.q(5, 6), false, STMT | TARGETS);
    dfs(c, "for heads 2", "for (", "let of in a ; var const = { } [ ] ,", ") ;", c.q(5, 6), false, STMT | TARGETS);
    dfs(c, "for heads in async functions", "async function x ( ) { for", "await ( ) let of in a ; const async", "; }", c.q(7, 8), false, STMT | TARGETS);
    dfs(c, "while and do", "", "while do ( a ) ; { } NL b", "", c.q(7, 9), false, STMT);
    dfs(c, "labels", "", "a : b { } ; function while ( ) break continue", "", c.q(6, 7), false, STMT | CTX);
    dfs(c, "declarations", "", "var let const a = , [ ] { } ; NL", "", c.q(5, 7), false, STMT | TARGETS);
    dfs(c, "with and debugger", "", "with ( a ) debugger ; { } NL else", "", c.q(6, 8), false, STMT);
    lists(c, "long lists", "stmt decl loop", c.q(40, 200), c.q(&[0, 2], ALL_FRAMES), 0);
    nest(c, "nested statements", STMTTAGS, c.q(12, 30), TOP, 0);
    after(c, "every statement, then every probe", STMTTAGS, 1, c.q(&[0, 1, 3, 10, 11, 12, 14][..], ALL_FRAMES), STMT | TARGETS | CTX);
    after(c, "every statement with every production in it, then every probe", STMTTAGS, 2, c.q(TOP, &[0, 2, 4, 11]), STMT | TARGETS | CTX);
}
// ---------------------------------------------------------------------------------- C07
fn c07(c: &Check) {
    let nl = Edits { nl: true, ..Default::default() };
    comp(c, "a line terminator in every gap of productions in every context", "-", 1, ALL_FRAMES, THROW_NL | ARROW_NL | ASYNC_PAREN_NL | CTX, Some(nl));
    comp(c, "a line terminator in every gap of pairs of productions", "-", 2, c.q(TOP, &[0, 2, 3, 4, 7, 13]), THROW_NL | ARROW_NL | ASYNC_PAREN_NL | CTX, Some(nl));
    comp(c, "a line terminator in every gap of module items", "mod", 2, TOPMOD, THROW_NL | ARROW_NL | ASYNC_PAREN_NL, Some(nl));
    comp(c, "a line terminator in every gap of all combinations of the parts of each construct", "wide", 1, c.q(TOP, &[0, 2, 3, 7, 13]), EVERY, Some(nl));
    comp(c, "a line terminator in every gap of all combinations of the parts of each module item", "widemod", 1, TOPMOD, EVERY, Some(nl));
    let asi = Edits { asi: true, ..Default::default() };
    comp(c, "semicolons left out of all combinations of the parts of each construct", "wide", 1, c.q(TOP, &[0, 2, 3, 7, 13]), EVERY, Some(asi));
    comp(c, "semicolons left out of pairs of productions in every context", "-", 2, ALL_FRAMES, CTX, Some(asi));
    compose::compose(c, &Comp { name: "semicolons left out of statements three deep with a jump in them", firsts: firsts(STMTTAGS), depth: 3, keep: &|d: &gen::Der| compose::names(d).iter().any(|p| p.has(&["jump"])), frames: c.q(&[0, 3], ALL_FRAMES), pol: pol(0), edits: Some(asi), siblings: false });
    // semicolons left out: every statement pair, with and without terminators between
    let stm = ["a", "a ++", "++ a", "a ( b )", "a = b", "a + b", "- a", "+ a", "( a )", "[ a ]", "/r/g", "`t`", "'s'", "1", "{ }", "{ a }", "function f ( ) { }", "class f { }", "var a", "var a = b", "let a", "let a = b", "const a = b", "let", "let [ a ] = b", "var [ a ] = b", "if ( a ) b", "if ( a ) b ; else c", "while ( a ) b", "do a ; while ( b )", "do a \n while ( b )", "for ( ; ; ) a", "for ( a in b ) c", "return", "return a", "break", "continue", "break a", "continue a", "throw a", "throw", "debugger", "a : b", "yield", "yield a", "await a", "async", "async function f ( ) { }", "async ( ) => a", "a => b", "a => { }", "get", "of", "static", "a in b", "in", "instanceof a", "* a", ". a", "? a : b", "++", "--", "=> a", ", a", ";", "else a", "typeof a", "new a", "delete a", "this", "super . a", "import ( a )", "case a :", "default :", "of a", "a b", "x = function ( ) { }", "x = class { }", "x = { }", "x = [ ]", "x = ( ) => { }", "x = `t`", "async a", "async a => b", "try { } finally { }", "with ( a ) b", "switch ( a ) { }", "!a"];
    let mut v: Vec<Toks> = vec![];
    for a in stm { for b in stm { for s in [&[][..], &[NL], &[";"], &[NL, ";"], &[";", NL]] {
        let mut w = split(&a.replace("\n", "NL").leak()[..]); w.extend(s); w.extend(split(&b.replace("\n", "NL").leak()[..]).iter().map(|t| match *t { "f" => "g", t => t })); v.push(w)
    } } }
    list(c, "every statement after every statement, with and without separator", &v, ALL_FRAMES, false, THROW_NL | ARROW_NL | ASYNC_PAREN_NL | CTX);
    let three: Vec<Toks> = { let s = ["a", "a ++", "++", "( a )", "[ a ]", "return", "return a", "break", "throw a", "var a", "let a", "do a ; while ( b )", "{ }", "yield", "async", "x = function ( ) { }", "/r/g", "`t`", "- a", "let", "function f ( ) { }"]; let mut o = vec![]; for a in s { for b in s { for d in s { for m in 0..c.q(4, 9) { let sep = |k: usize| -> &'static [&'static str] { match k { 0 => &[NL], 1 => &[";"], _ => &[] } }; let mut w = split(a); w.extend(sep(m % 3)); w.extend(split(b)); w.extend(sep(m / 3)); w.extend(split(d)); o.push(w) } } } } o };
    list(c, "every three statements", &three, c.q(&[0, 1, 2, 10], ALL_FRAMES), false, THROW_NL | ARROW_NL | CTX);
    dfs(c, "restricted productions", "function * x ( ) { a : while ( b ) {", "return yield break continue throw a ++ NL ; } =>", "} }", c.q(5, 6), false, THROW_NL | ARROW_NL | CTX);
    dfs(c, "postfix operators", "", "a ++ -- NL ; ( ) b", "", c.q(7, 9), false, TARGET_UPDATE);
    dfs(c, "async and line terminators", "", "async NL function ( ) { } a => ;", "", c.q(7, 9), false, ARROW_NL | ASYNC_PAREN_NL | ARROW_PARAMS);
    dfs(c, "let and line terminators", "", "let NL a [ ] = ; if ( ) while do yield", "", c.q(5, 7), false, STMT);
    dfs(c, "do while", "do a ; while ( b )", "c ; NL } while ( ) do", "", c.q(5, 7), false, 0);
    dfs(c, "for heads", "for (", "a NL ; = var b )", "", c.q(7, 9), false, 0);
    dfs(c, "one line", "", "a ; NL } { ( ) + ++ [ ] if", "", c.q(5, 7), false, TARGET_UPDATE);
    dfs(c, "class members", "class x {", "static get set async * ( ) { } a ; NL", "}", c.q(5, 7), false, 0);
    dfs(c, "module items", "", "import export * as from 's' a { } default ; NL", "", c.q(6, 7), true, 0);
    dfs(c, "export declarations", "export", "default class function async a ( ) { } ; NL const = var let", "", c.q(5, 6), true, 0);
}
// ---------------------------------------------------------------------------------- C08
pub const FILL: &[(&str, bool, bool)] = &[ // text, holds a line terminator, is a comment
    ("", false, false), ("\t", false, false), ("\u{b}", false, false), ("\u{c}", false, false), ("\u{a0}", false, false), ("\u{feff}", false, false), ("\u{3000}", false, false), ("   ", false, false),
    ("\n", true, false), ("\r", true, false), ("\r\n", true, false), ("\u{2028}", true, false), ("\u{2029}", true, false), ("\n\n\n", true, false), (" \r\n \r\n ", true, false),
    ("/**/", false, true), ("/* c */", false, true), ("/* \u{e9} */", false, true), ("/*\n*/", true, true), ("/* a\r\n b */", true, true), ("/* a\u{2028} b */", true, true), ("/***/", false, true), ("/* // */", false, true), ("/* } ) ; */", false, true), ("/* 'x */", false, true), ("/*/ */", false, true),
    ("// c\n", true, true), ("//\n", true, true), ("// /* \n", true, true), ("// c\r\n", true, true), ("// \u{1F600}\r", true, true), ("// c\u{2029}", true, true),
    ("<!-- c\n", true, true), ("<!-- \u{e9} --> d\r\n", true, true), ("<!--\u{2029}", true, true),
];
/// `parts`: text pieces, with the comments among them marked
fn with_comments(c: &Check, l: &mut Local, v: &[&str], at: &[(usize, usize)], m: bool) {
    // reference: tokens with NL where a filler holds a line terminator
    let mut w: Vec<&str> = vec![]; let mut text = String::new(); let mut want: Vec<(usize, usize, String)> = vec![];
    let mut put = |text: &mut String, f: &(&str, bool, bool), last: bool| {
        let s = text.len(); let mut body = f.0;
        if f.2 { let end = body.trim_end_matches(|x| matches!(x, '\n' | '\r' | '\u{2028}' | '\u{2029}')).len(); let end = if body.starts_with("/*") { body.len() } else { end }; if last && !body.starts_with("/*") { body = &body[..end] } want.push((s, s + end, body[..end].to_string())) }
        text.push_str(body);
    };
    for i in 0..=v.len() {
        let here: Vec<&(usize, usize)> = at.iter().filter(|x| x.0 == i).collect();
        if i > 0 || !here.is_empty() { if i > 0 { text.push(' ') } }
        for (k, x) in here.iter().enumerate() { let last = i == v.len() && k + 1 == here.len(); put(&mut text, &FILL[x.1], last); if !last { text.push(' ') } }
        if here.iter().any(|x| FILL[x.1].1) { w.push(NL) }
        if i < v.len() { w.push(v[i]); text.push_str(v[i]) }
    }
    let r = refp::parse(&toks(&w), m);
    l.transitions += 1;
    let before = l.nviol;
    let out = judge(c, l, &w, &text, cfg(m), &r, pol(0));
    if l.nviol > before { return }
    let got = engine::run(&text, cfg(m), || imp::comments(&text, cfg(m)));
    let bad = match (&out, &got) {
        (_, Err(e)) => Some(format!("panic: {}", e)),
        (Out::Ok(_), Ok(g)) => if *g == want { None } else { Some(format!("the handler was given {:?}", g)) },
        (_, Ok(g)) => if g.len() <= want.len() && g[..] == want[..g.len()] { None } else { Some(format!("the handler was given {:?}", g)) },
    };
    if let Some(b) = bad {
        if !scan::splits_as(&text, &w) || scan::comments(&text).map(|x| x != want.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>()).unwrap_or(true) { l.skipped += 1; return }
        c.violate(l, Violation { text, cfg: cfg(m), expect: format!("the comments {:?}, each once and in order", want), got: b, why: "comments reported wrongly".into() })
    }
}
fn c08(c: &Check) {
    let every = |name: &str, tags: &str, depth: usize, frames: &[usize], fills: &[usize]| {
        compose::programs(c, &Comp { name, firsts: firsts(tags), depth, keep: &|_| true, frames, pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
            for i in 0..=v.len() { for &f in fills { if m && FILL[f].0.starts_with("<!--") { continue } with_comments(c, l, v, &[(i, f)], m) } }
        });
    };
    let all: Vec<usize> = (0..FILL.len()).collect();
    every("every filler in every gap of productions", "-", 1, c.q(&[0, 1, 4, 7, 13], ALL_FRAMES), &all);
    every("every filler in every gap of module items", "mod", 1, TOPMOD, &all);
    let few: Vec<usize> = FILL.iter().enumerate().filter(|x| matches!(x.1 .0, "" | "/* c */" | "/*\n*/" | "// c\n" | "\r\n")).map(|x| x.0).collect();
    let one = &few[..]; let two: Vec<usize> = one.iter().copied().filter(|&i| matches!(FILL[i].0, "/* c */" | "// c\n")).collect();
    every("fillers in every gap of all combinations of the parts of each construct", "wide", 1, TOP, c.q(&two[..], one)); every("fillers in every gap of all combinations of the parts of each module item", "widemod", 1, TOPMOD, c.q(&two[..], one));
    every("five fillers in every gap of pairs of productions", "-", 2, TOP, c.q(&few[1..4], &all[..]));
    // two fillers: in the same gap and in neighbouring gaps
    let cm: Vec<usize> = FILL.iter().enumerate().filter(|x| matches!(x.1 .0, "\n" | "/* c */" | "/*\n*/" | "// c\n" | "/* \u{e9} */")).map(|x| x.0).collect();
    compose::programs(c, &Comp { name: "every two fillers in one and in neighbouring gaps", firsts: compose::all_firsts(), depth: 1, keep: &|_| true, frames: c.q(&[0, 11], ALL_FRAMES), pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
        for i in 0..=v.len() { for &f in &cm { for &g in &cm { with_comments(c, l, v, &[(i, f), (i, g)], m); if i < v.len() { with_comments(c, l, v, &[(i, f), (i + 1, g)], m) } } } }
    });
    // a comment in every gap at once, with every filler
    compose::programs(c, &Comp { name: "the same filler in all gaps at once", firsts: compose::all_firsts(), depth: 2, keep: &|_| true, frames: TOP, pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
        for f in 0..FILL.len() { if !c.thorough() && !matches!(FILL[f].0, "" | "/* c */" | "// c\n") { continue } let at: Vec<(usize, usize)> = (0..=v.len()).map(|i| (i, f)).collect(); with_comments(c, l, v, &at, m) }
    });
    // pairs of lines: every statement pair separated by each filler
    let st = ["a", "a ++", "++ a", "return a", "return", "b : c", "( a )", "[ a ]", "`t`", "/r/g", "- a", "throw a", "async", "async function f ( ) { }", "let", "yield", "break", "continue", "x = a => { }", "{ }", "var a", "'s'", "'use~strict'"];
    let mut pairs: Vec<(Toks, Toks)> = vec![]; for a in st { for b in st { pairs.push((split(a), split(b))) } }
    for fr in c.q(vec![0, 1, 2, 10], ALL_FRAMES.to_vec()) { let (p, q, m) = gen::frame(fr); if m { continue }
        c.par(&pairs, |(a, b), l| { for f in 0..FILL.len() { let mut v = p.clone(); v.extend(a); let i = v.len(); v.extend(b); v.extend(&q); l.states += 1; with_comments(c, l, &v, &[(i, f)], m); with_comments(c, l, &v, &[(i, f), (i, 3)], m); with_comments(c, l, &v, &[(i, 20), (i, f)], m) } });
    }
    // comment bodies, character by character
    let ch = ["a", "*", "/", "\n", "'", "\u{e9}", " ", "-", "\r", "\u{2028}", "!", "`", "\\"]; let mut bodies: Vec<String> = vec![String::new()]; let mut i = 0;
    while i < bodies.len() { if bodies[i].chars().count() < c.q(4, 5) { for x in ch { let s = format!("{}{}", bodies[i], x); bodies.push(s) } } i += 1 }
    c.par(&bodies, |b, l| {
        if c.over() { return }
        let nls = |s: &str| s.contains(|x| matches!(x, '\n' | '\r' | '\u{2028}' | '\u{2029}'));
        let mut one = |com: String, tail: &str| {
            let nl = nls(&com) || nls(tail);
            for (pre, post) in [("a ", " b"), ("", ""), ("return ", " ;")] {
                let text = format!("{}{}{}{}", pre, com, tail, post);
                let mut w: Vec<&str> = split(if pre.starts_with('r') { "function f ( ) { return" } else { pre }); let mut full = text.clone(); if pre.starts_with('r') { full = format!("function f ( ) {{ {} }}", text); }
                if nl { w.push(NL) } w.extend(split(post)); if pre.starts_with('r') { w.push("}") }
                let w: Vec<&str> = w; let r = refp::parse(&toks(&w), false);
                l.states += 1; l.transitions += 1;
                let nv = l.nviol; let out = judge(c, l, &w, &full, SCRIPT, &r, pol(0)); if l.nviol > nv { continue }
                let s = full.find(&com).unwrap(); let want = vec![(s, s + com.len(), com.clone())];
                match (&out, engine::run(&full, SCRIPT, || imp::comments(&full, SCRIPT))) { (Out::Ok(_), Ok(g)) if g == want => {} (Out::Err(..), Ok(g)) if g.is_empty() || g == want => {} (_, g) => { if !scan::splits_as(&full, &w) || scan::comments(&full) != Some(vec![(s, s + com.len())]) { l.skipped += 1 } else { c.violate(l, Violation { text: full.clone(), cfg: SCRIPT, expect: format!("{:?}", want), got: format!("{:?}", g), why: "comments reported wrongly".into() }) } } }
            }
        };
        if !b.contains("*/") && !(b.ends_with('*')) { one(format!("/*{}*/", b), "") }
        if !nls(b) { for t in ["\n", "\r", "\r\n", "\u{2028}", "\u{2029}"] { one(format!("//{}", b), t) } }
    });
    c.note(format!("comment bodies: every body of up to {} of {} characters ({})", c.q(4, 5), ch.len(), bodies.len()));
}
// ---------------------------------------------------------------------------------- C09
/// All texts of at most `n` characters of `ch`.
fn words_of(ch: &[&str], n: usize) -> Vec<String> {
    let mut o = vec![String::new()]; let mut i = 0;
    while i < o.len() { if o[i].chars().count() < n { for x in ch { let s = format!("{}{}", o[i], x); o.push(s) } } i += 1 }
    o
}
fn c09(c: &Check) {
    let expr_places = ["x = # ;", "# ;", "x ( # ) ;", "x ( y , # ) ;", "[ # , # ] ;", "function f ( a = # ) { }", "( a = # ) => b ;", "x = { [ # ] : # } ;", "x [ # ] ;", "if ( # ) x ;", "for ( x of # ) ;", "switch ( # ) { case # : }", "`h${ # }t` ;", "class a extends x { b ( ) { return # } }", "x = y ? # : # ;", "throw # ;", "y ; var a = # , b = # ;", "x + # + y ;", "new x ( # ) ;", "function * g ( ) { yield # }", "async function h ( ) { await # }", "while ( # ) ;", "a => # ;", "( # ) ;", "typeof # ;", "y ; # . a ;", "let [ a = # ] = b ;"];
    let key_places = ["x = { # : 1 } ;", "x = { # ( ) { } } ;", "x = { get # ( ) { } } ;", "x = { async # ( ) { } , * # ( ) { } } ;", "class a { # ( ) { } }", "class a { static # ( ) { } }", "class a { get # ( ) { } set # ( b ) { } }", "var { # : a } = b ;", "function f ( { # : a } ) { }", "( { # : a } ) => b ;", "( { # : a } = b ) ;"];
    let name_places = ["# ;", "x = # ;", "x . # ;", "var # ;", "let # = 1 , b ;", "const # = 1 ;", "function # ( ) { }", "function f ( # , # b ) { }", "function f ( # ) { }", "class # { }", "# : x ;", "# : while ( 1 ) { break # ; continue # ; }", "( # ) => b ;", "# => b ;", "async # => b ;", "x = { # } ;", "var { # } = b ;", "var [ # , ... # ] = b ;", "try { } catch ( # ) { }", "for ( # in b ) ;", "for ( var # of b ) ;", "x = { # : # } ;", "x = { # ( ) { } } ;", "class a { # ( ) { } }", "class a extends # { }", "new # ;", "# ( # ) ;", "# [ # ] . # ;", "`h${ # }t` ;", "# `t` ;", "# = # ;", "# ++ ;", "typeof # ;", "function f ( ... # ) { }", "var { a : # = 1 } = b ;", "( { # = 1 } = b ) ;", "x = function # ( ) { } ;", "x = class # { } ;", "function * # ( ) { yield # }"];
    let mod_str = ["import # ;", "import a from # ;", "import { a } from # ;", "import * as a from # ;", "export * from # ;", "export { a } from # ;", "x = # ;", "# ;"];
    let mod_name = ["import # from 's' ;", "import { # } from 's' ;", "import { # as # } from 's' ;", "import * as # from 's' ;", "export { # } ;", "export { # as # } ;", "export { # as default } ;", "export default # ;", "export var # ;", "export function # ( ) { }", "export class # { }", "export default function # ( ) { }", "export { # as # } from 's' ;"];
    let one = |name: &str, lits: &[String], places: &[&str], m: bool| {
        let pl: Vec<Vec<&str>> = places.iter().map(|p| split(p)).collect();
        c.par(lits, |s, l| {
            if c.over() { return }
            if !scan::splits_as(s, &[s]) && !s.starts_with('/') && !s.starts_with('}') { l.count("not one token"); return }
            for p in &pl {
                let w: Vec<&str> = p.iter().map(|t| if *t == "#" { &s[..] } else { *t }).collect();
                l.states += 1;
                compose::examine(c, l, &w, cfg(m), pol(0));
            }
        });
        c.note(format!("{}: {} texts in {} places", name, lits.len(), places.len()));
    };
    let n = |q: usize, t: usize| c.q(q, t);
    let mut strs = vec![];
    for b in words_of(&["a", "'", "\"", "\\", "n", "u", "x", "0", "{", "}", "\u{e9}", " ", "`", "$", "/", "*", "\u{1F600}"], n(3, 4)) { strs.push(format!("'{}'", b)); strs.push(format!("\"{}\"", b)) }
    for e in ["\\n", "\\\n", "\\\r\n", "\\u0041", "\\u{41}", "\\x41", "\\'", "\\\"", "\\\\", "\\0", "\\\u{2028}", "\\b", "\\v", "\\q", "\u{2028}", "\u{2029}"] { for f in ["", "a", " ", "\\n", "'", "\u{e9}", "\\\n"] { for q in ["'", "\""] { if f == q { continue } strs.push(format!("{}{}{}{}", q, e, f, q)); strs.push(format!("{}{}{}{}", q, f, e, q)) } } }
    for k in 0..300 { strs.push(format!("'{}'", "a".repeat(k))) }
    one("strings", &strs, &expr_places, false);
    one("strings as keys", &strs, &key_places, false);
    one("strings in modules", &strs, &mod_str, true);
    let mut nums: Vec<String> = words_of(&["0", "1", "7", "9", ".", "e", "E", "+", "-", "x", "X", "b", "O", "a", "F"], n(4, 5)).into_iter().filter(|s| !s.is_empty() && crate::tokseq::kind(s) == K::Num).collect();
    for s in ["1234567890", "0.5e-10", "0xDEADbeef", "0B1010", "0o777", "0777", "089", "9007199254740993", "1e400", ".5E+3", "00", "0.0", "5.", "0b0", "0XaB", "1e1", "1.e1"] { nums.push(s.into()) }
    for k in 1..300 { nums.push("1".repeat(k)); nums.push(format!("0.{}", "1".repeat(k))) }
    one("numbers", &nums, &expr_places, false);
    one("numbers as keys", &nums, &key_places, false);
    let mut names: Vec<String> = words_of(&["a", "$", "_", "1", "\u{e9}", "\u{5909}", "Z", "\u{3c0}"], n(3, 4)).into_iter().filter(|s| !s.is_empty() && crate::tokseq::kind(s) == K::Word).collect();
    for s in ["iff", "If", "i", "newer", "classy", "nulls", "truee", "thiss", "inn", "instanceofs", "typeo", "returns", "vars", "lets", "Null", "TRUE", "awaits", "yields", "asyncs", "gets", "sets", "statics", "undefined", "NaN", "Infinity", "constructor", "prototype", "__proto__", "toString", "hasOwnProperty", "eval_", "arguments_", "use", "strict", "from_", "as_", "of_", "targets"] { names.push(s.into()) }
    for k in 1..300 { names.push("a".repeat(k)) }
    one("names", &names, &name_places, false);
    one("names in modules", &names, &mod_name, true);
    let mut res = vec![];
    for b in words_of(&["a", "[", "]", "\\", "/", "(", ")", "*", "{", "$", "|", "\u{e9}", " ", "^", "'", "`", "="], n(3, 4)) { if b.is_empty() || b.starts_with('*') || b.starts_with('/') { continue } for f in ["", "g", "gimsuy"] { res.push(format!("/{}/{}", b, f)) } }
    for k in 1..200 { res.push(format!("/{}/g", "a".repeat(k))) }
    one("regular expressions", &res, &expr_places, false);
    let mut tp = vec![]; let bodies = words_of(&["a", "\\", "$", "{", "}", "'", "\"", "\n", " ", "\u{e9}", "/", "\r", "\\`", "\\u0041"], n(3, 4));
    for b in &bodies { tp.push(format!("`{}`", b)) }
    for k in 0..300 { tp.push(format!("`{}`", "a".repeat(k))) }
    one("templates", &tp, &expr_places, false);
    one("templates as tags' arguments", &tp, &["x # ;", "x . y # . z ;", "x # # ;", "new x # ;"], false);
    // templates with substitutions: bodies at head, middle and tail
    let tb: Vec<&String> = bodies.iter().filter(|b| b.chars().count() <= 3 && !b.contains("${") && !b.ends_with('$') && !b.contains('`') || b.contains("\\`")).collect();
    let tb: Vec<&String> = tb.into_iter().filter(|b| !b.contains("${") && !b.ends_with('$') && !b.ends_with('\\')).collect();
    c.par(&tb, |b, l| {
        if c.over() { return }
        for e in ["x", "x + y", "{ }", "( x )", "f ( x )", "a => a", "`q`", "`h${ z }t`", "x , y", "{ a : { } }", "function ( ) { }"] {
            for w in [["H", "E", "t`"], ["h", "E", "T"]] {
                let mut v: Vec<String> = vec!["x".into(), "=".into()];
                for p in w { match p { "H" => v.push(format!("`{}${{", b)), "h" => v.push("`h${".into()), "T" => v.push(format!("}}{}`", b)), "t`" => v.push("}t`".into()), _ => v.extend(split(e).iter().map(|x| x.to_string())) } }
                v.push(";".into());
                let r: Vec<&str> = v.iter().map(|s| &s[..]).collect(); l.states += 1;
                compose::examine(c, l, &r, SCRIPT, pol(0));
            }
            let v: Vec<String> = ["y", "`h${", "E", &format!("}}{}${{", b), "z", "}t`", ";"].iter().flat_map(|p| if *p == "E" { split(e).iter().map(|x| x.to_string()).collect::<Vec<_>>() } else { vec![p.to_string()] }).collect();
            let r: Vec<&str> = v.iter().map(|s| &s[..]).collect(); l.states += 1;
            compose::examine(c, l, &r, SCRIPT, pol(0));
        }
    });
    c.note(format!("template parts: {} texts as head, middle and tail around 11 expressions", tb.len()));
    // directives
    let dirs: Vec<String> = strs.iter().filter(|s| s.len() < 12).cloned().collect();
    one("directives", &dirs, &["# ;", "# ; # ;", "function f ( ) { # ; a }", "( ) => { # }", "x = { a ( ) { # ; } } ;", "class a { constructor ( ) { # } }", "# NL a", "a ; # ;", "function f ( ) { a ; # }", "{ # ; }", "# , # ;", "# . a ;", "# + a ;", "( # ) ;"], false);
}
// ---------------------------------------------------------------------------------- C10
/// (line, column) of byte offset `at`: lines from 1, columns from 0 in bytes.
fn line_col(text: &str, at: usize) -> (usize, usize) {
    let b = &text[..at]; let mut line = 1; let mut start = 0; let mut it = b.char_indices().peekable();
    while let Some((i, ch)) = it.next() {
        match ch { '\r' if b[i + 1..].starts_with('\n') || (i + 1 == at && text[at..].starts_with('\n')) => {} '\n' | '\r' | '\u{2028}' | '\u{2029}' => { line += 1; start = i + ch.len_utf8() } _ => {} }
    }
    (line, at - start)
}
const CUT: usize = usize::MAX;
/// Which token (index) an error position denotes; `toks.len()` for the end of the text, CUT for none of them.
fn token_at(text: &str, starts: &[usize], p: (usize, usize)) -> usize {
    for (i, s) in starts.iter().enumerate() { if line_col(text, *s) == p { return i } }
    let last = text.trim_end().len();
    if (last..=text.len()).any(|e| text.is_char_boundary(e) && line_col(text, e) == p) { return starts.len() }
    CUT
}
/// Renders with `fill` in gap `at`, gives the starts of the tokens.
fn render_with(v: &[&str], at: usize, fill: &str) -> (String, Vec<usize>) {
    let mut t = String::new(); let mut st = vec![];
    for i in 0..=v.len() { if i == at { t.push_str(fill) } if i < v.len() { if i > 0 && i != at { t.push(' ') } else if i == at && i > 0 { t.push(' ') } st.push(t.len()); t.push_str(v[i]) } }
    (t, st)
}
/// The index of the first token with which no continuation is derivable any more (`v.len()`: none).
fn first_unviable(v: &[&str], m: bool) -> usize {
    for i in 1..=v.len() { if v[i - 1] == NL { continue } if !refp::parse(&toks(&v[..i]), m).viable { return i - 1 } }
    v.len()
}
/// Sequences for which the parser can tell only later than the first impossible token, or for which the first
/// impossible token is a matter of a static rule: parenthesized lists, arrows, object literals with initialized names,
/// patterns without initializer, declarations in the place of statements, labels.
fn decided_late(v: &[&str]) -> bool {
    v.iter().any(|x| matches!(*x, "..." | "async" | "=>" | "get" | "set"))
}
/// A derivable text that is rejected breaks a static rule: the error points at a place where it does.
pub fn placed(c: &Check, l: &mut Local, v: &[&str], text: &str, k: Cfg) {
    let r = refp::parse(&toks(v), k.module);
    if r.tree.is_none() || r.bits == 0 { return }
    let out = engine::exec(text, k); l.execs += 1; l.transitions += 1; l.outcome(&out);
    let Out::Err(_, p, _) = &out else { return };
    let Some(tx) = scan::tokens(text) else { return };
    if !v.iter().filter(|x| **x != NL).map(|x| *x).chain([""]).eq(tx.iter().map(|t| &text[t.start..t.end])) { l.skipped += 1; return }
    let at = match p { None => Some(tx.len() - 1), Some(p) => tx.iter().position(|t| line_col(text, t.start) == *p) };
    l.count("compared with the places of broken rules");
    l.sample(text);
    if at.map_or(false, |i| r.sites.iter().any(|s| s.bit & r.bits != 0 && s.lo <= i && i <= s.hi)) { return }
    let want: Vec<String> = r.sites.iter().filter(|s| s.bit & r.bits != 0).map(|s| format!("{} at tokens {} to {}", refp::bit_names(s.bit)[0], s.lo, s.hi)).collect();
    c.violate(l, Violation { text: text.into(), cfg: k, expect: format!("an error at a broken rule: {}", want.join(", ")), got: format!("{} (token {:?})", out.show(), at), why: "the error is not where a static rule is broken".into() })
}
fn c10(c: &Check) {
    let place = |l: &mut Local, v: &[&str], m: bool| placed(c, l, v, &render(v), cfg(m));
    let sweep = |name: &str, tags: &str, depth: usize, frames: &[usize], e: Edits| compose::programs(c, &Comp { name, firsts: firsts(tags), depth, keep: &|_| true, frames, pol: pol(0), edits: None, siblings: false }, &|l, v, m| { place(l, v, m); compose::edits(v, e, &mut |w| place(l, w, m)) });
    sweep("pairs of productions that break a static rule, in every context", "-", 2, ALL_FRAMES, Edits::default());
    sweep("one-edit neighbours of productions that break a static rule, in every context", "-", 1, ALL_FRAMES, DS2N);
    sweep("one-edit neighbours of pairs of productions that break a static rule", "-", 2, c.q(TOP, &[0, 3, 7, 13, 15]), DS2N);
    sweep("one-edit neighbours of module items that break a static rule", "mod", 2, TOPMOD, DS2N);
    sweep("all combinations of the parts of each construct that break a static rule", "wide", 1, c.q(&[0, 13], ALL_FRAMES), if c.thorough() { DS2N } else { Edits::default() });
    sweep("all combinations of the parts of each module item that break a static rule", "widemod", 1, TOPMOD, DS2N);
    borrowed(c, PLACES, &["C04", "C05", "C07", "C09", "C12", "C13", "C14", "C15", "C16", "C17", "C19"]);
    let fills: Vec<usize> = (0..FILL.len()).filter(|&i| !FILL[i].0.starts_with("<!--")).collect();
    let probe = |l: &mut Local, w: &[&'static str], m: bool, fills: &[usize], exact: bool| {
        let r = refp::parse(&toks(w), m);
        let text = render(w);
        let out = engine::exec(&text, cfg(m)); l.execs += 1; l.transitions += 1; l.outcome(&out);
        let Out::Err(k0, p0, _) = &out else { return };
        if !scan::splits_as(&text, w) { l.skipped += 1; return }
        let (_, st) = render_with(w, usize::MAX, "");
        let i0 = match p0 { None => w.len(), Some(p) => token_at(&text, &st, *p) };
        if i0 == CUT { c.violate(l, Violation { text, cfg: cfg(m), expect: "a position at the start of a token or at the end of the text".into(), got: out.show(), why: "the position of the error is not that of a token".into() }); return }
        if exact && r.tree.is_none() && !decided_late(w) {
            let fu = first_unviable(w, m);
            l.count("compared with the first impossible token");
            // a static error may be reported earlier; an empty list in parentheses is one when no arrow follows
            let empty_list = fu > 0 && fu + 1 == i0 && w[fu] == ")" && matches!(w[fu - 1], "(" | ",");
            // `import` is a keyword for a statement unless a parenthesis follows
            let import = fu > 0 && i0 + 1 == fu && w[i0] == "import";
            let empty_list = empty_list || import;
            // before it stands what breaks a static rule
            let real = w[..i0.min(w.len())].iter().filter(|x| **x != NL).count();
            let broken = i0 < fu && r.sites.iter().any(|s| s.lo <= real && real <= s.hi);
            if i0 != fu && !empty_list && !broken { c.violate(l, Violation { text: text.clone(), cfg: cfg(m), expect: format!("the error at token {} ({:?})", fu, line_col(&text, st.get(fu).copied().unwrap_or(text.len()))), got: out.show(), why: "the error is not where the text stops being a program".into() }); return }
        }
        // the same tokens, other blanks: the same token must be pointed at
        for at in 0..=w.len() { 
            let mut w2: Vec<&str> = w.to_vec(); w2.insert(at, NL);
            let mut base_nl: Option<(usize, &'static str)> = None;
            for &f in fills {
                let (t2, st2) = render_with(w, at, FILL[f].0);
                let o2 = engine::exec(&t2, cfg(m)); l.execs += 1; l.transitions += 1;
                let (k, p) = match &o2 { Out::Err(k, p, _) => (*k, *p), _ => ("", None) };
                let i2 = match p { None => w.len(), Some(p) => token_at(&t2, &st2, p) };
                if !scan::splits_as(&t2, w) { l.skipped += 1; continue }
                let want: (usize, &'static str) = if !FILL[f].1 || at == 0 || at == w.len() { (i0, *k0) } else { match base_nl { None => { base_nl = Some((i2, k)); if k.is_empty() || i2 != CUT { continue } (i0, *k0) } Some(b) => b } };
                l.count("compared under another layout");
                if want.1.is_empty() && k.is_empty() { continue }
                if (i2, k) != want { c.violate(l, Violation { text: t2, cfg: cfg(m), expect: format!("{} at token {}", want.1, want.0), got: o2.show(), why: "the position of the error depends on the blanks".into() }) }
            }
        }
    };
    let some: Vec<usize> = fills.iter().copied().filter(|&i| matches!(FILL[i].0, "\n" | "\r" | "\r\n" | "\u{2028}" | "/* \u{e9} */" | "/* a\r\n b */" | "\n\n\n")).collect();
    let e = Edits { delete: true, swap: true, double: true, cut: true, ..Default::default() };
    for (tags, fr) in [("wide", TOP), ("widemod", TOPMOD)] { compose::programs(c, &Comp { name: "combinations of the parts of each construct that are no program", firsts: firsts(tags), depth: 1, keep: &|_| true, frames: fr, pol: pol(0), edits: None, siblings: false }, &|l, v, m| { if v.contains(&NL) { return } probe(l, v, m, &[], true); if c.thorough() { compose::edits(v, e, &mut |w| probe(l, w, m, &[], true)) } }) }
    compose::programs(c, &Comp { name: "one-edit neighbours of productions, laid out in every way", firsts: compose::all_firsts(), depth: 1, keep: &|_| true, frames: c.q(&[0, 3], ALL_FRAMES), pol: pol(0), edits: None, siblings: false }, &|l, v, m| compose::edits(v, e, &mut |w| probe(l, w, m, c.q(&some, &fills), true)));
    compose::programs(c, &Comp { name: "one-edit neighbours of module items, laid out in every way", firsts: firsts("mod"), depth: 1, keep: &|_| true, frames: TOPMOD, pol: pol(0), edits: None, siblings: false }, &|l, v, m| compose::edits(v, e, &mut |w| probe(l, w, m, c.q(&some, &fills), true)));
    compose::programs(c, &Comp { name: "one-edit neighbours of pairs of productions", firsts: compose::all_firsts(), depth: 2, keep: &|_| true, frames: TOP, pol: pol(0), edits: None, siblings: false }, &|l, v, m| compose::edits(v, e, &mut |w| probe(l, w, m, c.q(&[], &[8, 9]), true)));
    // the position among many lines
    let mut items = vec![]; let maxl = c.q(40, 150);
    for lines in 1..=maxl { for at in 0..lines { items.push((lines, at)) } }
    let powers: Vec<usize> = [64usize, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536].iter().filter(|x| **x <= c.q(8192, 65536)).flat_map(|x| [x - 1, *x, x + 1, x + 2]).collect();
    for &p in &powers { for (lines, at) in [(p, p - 1), (p + 3, p - 1), (p + 3, 0), (p + 3, p / 2)] { items.push((lines, at)) } }
    c.par(&items, |&(lines, at), l| {
        for term in ["\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "mix"] { for (bad, off) in [("b c", 2), ("  )", 2), ("/* \u{e9} */ var 1", 13), ("'\u{e9}\u{e9}' c", 7), ("if (b c", 6)] {
            let mut t = String::new(); let mut want = 0;
            for i in 0..lines { if i == at { want = t.len() + off; t.push_str(bad) } else { t.push_str(["a;", "", " f(1);", "// \u{e9}"][i % 4]) } t.push_str(if term == "mix" { ["\n", "\r\n", "\r", "\u{2028}", "\u{2029}"][i % 5] } else { term }); }
            l.states += 1; l.transitions += 1; l.execs += 1;
            let o = engine::exec(&t, SCRIPT);
            let w = line_col(&t, want);
            match &o { Out::Err(_, Some(p), _) if *p == w => { l.count("compared among many lines"); l.sample(&t) } _ => c.violate(l, Violation { text: t.clone(), cfg: SCRIPT, expect: format!("an error at {:?}", w), got: o.show(), why: "the error is not where the text stops being a program".into() }) }
        } }
    });
    c.note(format!("errors on every line of texts of 1 to {} lines, and on the lines {:?}; five line terminators and their mix", maxl, powers));
    // the position behind and inside of literals and comments that span lines
    let terms = ["\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "\n\r", "\r\r\n", "\n\n"];
    let span = ["`#`", "`\u{e9}#\u{e9}#`", "`a${b}#c`", "`#${b}#${c}`", "'a\\#b'", "\"\\#\\#\u{e9}\"", "/*#*/a", "/* \u{e9}#\u{1F600}#*/a", "//#a", "a<!--#b", "(/*#*/a)", "[`#`]", "f`#`", "{a:`#`}", "a#+b", "a#,#b", "(a#)"];
    let lead = ["", "#", "x;#", "/*#*/", "`#`;", "'s';#", "\u{e9};", "x=>x;##", "function f(){#}"];
    let bads: &[(&str, usize)] = &[(" b", 1), (" )", 1), (";#b c", usize::MAX), (";#}", usize::MAX), (" 1", 1), (" 's'", 1), ("#;) ", usize::MAX - 1), (" }#", usize::MAX - 2)];
    let mut items = vec![]; for t1 in terms { for t2 in terms { for s in span { items.push((t1, t2, s)) } } }
    c.par(&items, |&(t1, t2, sp), l| for ld in lead { for &(bad, off) in bads {
        let head = format!("{}{}", ld.replace('#', t1), sp.replace('#', t2));
        let tail = bad.replace('#', t1); let text = format!("{}{}", head, tail);
        // where the offending token starts
        let at = head.len() + match off { 1 => 1, _ if bad.ends_with("c") => tail.len() - 1, _ if bad == ";#}" => tail.len() - 1, _ if bad.starts_with('#') => tail.len() - 2, _ => 1 };
        let Some(tx) = scan::spans(&text) else { l.skipped += 1; continue };
        let Some(k) = tx.iter().filter(|x| !x.comment).position(|x| x.start == at) else { l.skipped += 1; continue };
        // the reference must agree that the text is fine up to there
        let mut w: Vec<&str> = vec![]; let mut e = 0; let mut ix = 0;
        for x in tx.iter().filter(|x| !x.comment) { if text[e..x.start].contains(|c| matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')) && ix > 0 { w.push(NL) } w.push(&text[x.start..x.end]); e = x.end; ix += 1; }
        let fu = first_unviable(&w, false); let fu = if fu >= w.len() { ix } else { w[..fu].iter().filter(|x| **x != NL).count() };
        if fu != k { l.count("the text goes wrong elsewhere"); continue }
        l.states += 1; l.transitions += 1; l.execs += 1;
        let want = line_col(&text, at);
        match &engine::exec(&text, SCRIPT) { Out::Err(_, Some(p), _) if *p == want => { l.count("compared behind line-spanning tokens"); l.sample(&text) } o => c.violate(l, Violation { text: text.clone(), cfg: SCRIPT, expect: format!("an error at {:?}", want), got: o.show(), why: "the error is not where the text stops being a program".into() }) }
    } });
    c.note(format!("errors behind {} literals, comments and line breaks spanning lines, {} heads, {} tails, {} by {} line terminators", span.len(), lead.len(), bads.len(), terms.len(), terms.len()));
    // the position in lines of every width
    let mut widths: Vec<usize> = (1..c.q(300, 1100)).collect(); widths.extend([511, 512, 513, 1023, 1024, 1025, 4095, 4097, 65535, 65536, 65537]);
    c.par(&widths, |&n, l| for pad in [" ", "\t", "\u{a0}", "\u{3000}", "+", ";", "(", "a\u{e9}+"] { for (pre, bad) in [("", "a b"), ("", "a )"), ("x\n", "a ]"), ("\u{2028}", "a 1"), ("/*\r\n*/", "a }")] {
        let deep = matches!(pad, "(" | "+" | "a\u{e9}+"); if deep && n > 200 || pad == "(" && bad == "a )" { continue }
        // a blank between signs, lest they pair up
        let t = format!("{}{}{}", pre, if pad == "+" { "+ ".repeat(n) } else { pad.repeat(n) }, bad);
        let want = line_col(&t, t.len() - 1);
        l.states += 1; l.transitions += 1; l.execs += 1;
        match &engine::exec(&t, SCRIPT) { Out::Err(_, Some(p), _) if *p == want => { l.count("compared in wide lines"); l.sample(&t) } o => c.violate(l, Violation { text: t.clone(), cfg: SCRIPT, expect: format!("an error at {:?}", want), got: o.show(), why: "the error is not where the text stops being a program".into() }) }
    } });
    c.note(format!("errors behind 1 to {} and some powers of two of blanks, signs, parentheses and statements on one line", c.q(299, 1099)));
}
// ---------------------------------------------------------------------------------- C11
const PROBES: &[&str] = &["return ;", "return a ;", "break ;", "continue ;", "break l ;", "continue l ;", "l : a ;", "l : while ( a ) { break l ; continue l ; }", "yield ;", "yield a ;", "yield = a ;", "var yield ;", "await a ;", "await = a ;", "var await ;", "let = a ;", "var let ;", "static = a ;", "implements = a ;", "super . a ;", "super ( ) ;", "new . target ;", "with ( a ) b ;", "delete a ;", "arguments = a ;", "eval ++ ;", "01 ;", "var eval ;", "function f ( eval ) { }", "if ( a ) function f ( ) { }", "a in b ;", "for ( a in b ) ;", "for ( var a = b in c ) ;", "for ( a of b ) ;", "for ( ; a in b ; ) ;", "for ( a = ( b in c ) ; ; ) ;", "for await ( a of b ) ;", "'use~strict' ;", "'use~strict' ; with ( a ) b ;", "a => b ;", "( a , b ) => c ;", "( a , b ) ;", "( a = b ) ;", "( { a } ) ;", "( { a = b } ) ;", "( { a = b } = c ) ;", "[ a ] = b ;", "[ a ] ;", "( a ) = b ;", "( [ a ] ) = b ;", "async ( a ) => b ;", "async ( a ) ;", "async a => await b ;", "async function f ( ) { await a }", "function * f ( ) { yield a }", "function f ( ) { return a }", "function f ( ) { yield = a }", "function f ( ) { break }", "function f ( ) { super . a }", "class a { b ( ) { super . c } }", "class a extends b { constructor ( ) { super ( ) } }", "class a { constructor ( ) { super ( ) } }", "class a { static b ( ) { } }", "x = { a ( ) { super . b } } ;", "x = { a , b : c } ;", "x = { get a ( ) { return } } ;", "import 's' ;", "export default a ;", "import ( a ) ;", "a ++ ;", "- a ** b ;", "`h${ a }t` ;", "/r/g ;", "( function ( ) { } ) ;", "try { } catch { }", "const a = b ;", "const a ;", "let [ a ] = b ;", "let [ a ] ;", "{ } ;", "; ;", "a \n b ;", "a : function f ( ) { }", "if ( a ) ; else b ;", "switch ( a ) { case b : break ; default : }", "do a ; while ( b ) c ;", "a", "", ")", "}", "a b", "'a' ;", "this ;", "null ;"];
const KINDS: &[&str] = &["function x ( # ) { @ }", "function * x ( # ) { @ }", "async function x ( # ) { @ }", "async function * x ( # ) { @ }", "y = function ( # ) { @ } ;", "y = function * ( # ) { @ } ;", "y = async function ( # ) { @ } ;", "y = async function * ( # ) { @ } ;", "y = function x ( # ) { @ } ;", "y = ( # ) => { @ } ;", "y = async ( # ) => { @ } ;", "( # ) => { @ } ;", "async ( # ) => { @ } ;", "y = { x ( # ) { @ } } ;", "y = { * x ( # ) { @ } } ;", "y = { async x ( # ) { @ } } ;", "y = { async * x ( # ) { @ } } ;", "y = { get x ( # ) { @ } } ;", "y = { set x ( # ) { @ } } ;", "class y { x ( # ) { @ } }", "class y { static x ( # ) { @ } }", "class y { * x ( # ) { @ } }", "class y { async x ( # ) { @ } }", "class y { async * x ( # ) { @ } }", "class y { static async * x ( # ) { @ } }", "class y { get x ( # ) { @ } }", "class y { set x ( # ) { @ } }", "class y { static get x ( # ) { @ } }", "class y { static set x ( # ) { @ } }", "class y { constructor ( # ) { @ } }", "y = { get [ x ] ( # ) { @ } } ;", "y = { set 1 ( # ) { @ } } ;", "y = { 's' ( # ) { @ } } ;", "y = { get ( # ) { @ } } ;", "y = { set ( # ) { @ } } ;", "y = { async ( # ) { @ } } ;", "( ( # ) => { @ } ) ( ) ;", "y ( ( # ) => { @ } , ( # ) => { @ } ) ;", "y ? ( # ) => { @ } : ( # ) => { @ } ;", "y ( async ( # ) => { @ } ) ;", "export_ = function ( # ) { @ } ;"];
const LEFTOVERS: &[(&str, &str)] = &[("", "'use~strict'"), ("", "'use~strict' ; a"), ("", "'s' ; 'use~strict' ; a"), ("a", "'use~strict'"), ("a , b", "'use~strict'"), ("... a", "b"), ("a = 1", "b"), ("{ a }", "b"), ("[ a = 1 ]", "b"), ("", ""), ("a", ""), ("", "return"), ("", "l : while ( a ) break l"), ("", "switch ( a ) { case b : break }"), ("", "for ( ; ; ) break"), ("", "yield ;"), ("", "await ;"), ("", "x = function ( ) { 'use~strict' }"), ("", "x = ( ) => { 'use~strict' }"), ("", "x = { get a ( ) { 'use~strict' } }"), ("", "function b ( ) { 'use~strict' }"), ("", "class b { }"), ("", "a => b"), ("", "async a => b"), ("", "( a , b ) => c"), ("", "( a , b )"), ("", "for ( a in b ) ;"), ("", "( { a = b } = c )"), ("a = function ( ) { 'use~strict' }", ""), ("a = class { }", ""), ("a = b => c", ""), ("a = { get b ( ) { 'use~strict' } }", "b"), ("", "function * b ( ) { }"), ("", "async function b ( ) { }"), ("", "x = { async b ( ) { } }"), ("", "x = { * b ( ) { } }"), ("", "super . a"), ("", "new . target")];
/// Every kind of function with what it might leave behind in its parameters or body, then every probe - behind it, and behind it inside another.
fn leftovers(c: &Check, frames: &[usize], enf: u64) {
    if foreign() { return }
    let probes: Vec<Toks> = PROBES.iter().map(|p| split(p.replace('\n', "NL").leak())).collect();
    let fr: Vec<_> = frames.iter().map(|&i| gen::frame(i)).collect();
    let mut items = vec![]; for k in KINDS { for lo in LEFTOVERS { items.push((split(k), split(lo.0), split(lo.1))) } }
    c.par(&items, |(k, p, b), l| {
        let mut v: Toks = vec![]; for t in k { match *t { "#" => v.extend(p), "@" => v.extend(b), t => v.push(t) } }
        l.states += 1;
        for (a, z, m) in &fr { for q in &probes { if c.over() { return } let mut w = a.clone(); w.extend(&v); w.extend(q); w.extend(z); compose::examine(c, l, &w, cfg(*m), pol(enf)); } }
    });
    c.note(format!("{} kinds of function with {} parameter lists and bodies each, then each of {} probes, in {} frames", KINDS.len(), LEFTOVERS.len(), probes.len(), frames.len()));
}
/// Every composition of the productions with one of `tags`, then every probe.
fn after(c: &Check, name: &str, tags: &str, depth: usize, frames: &[usize], enf: u64) {
    if foreign() { return }
    let probes: Vec<Toks> = PROBES.iter().map(|p| split(p.replace('\n', "NL").leak())).collect();
    let fr: Vec<_> = frames.iter().map(|&i| gen::frame(i)).collect();
    compose::programs(c, &Comp { name, firsts: firsts(tags), depth, keep: &|_| true, frames: if tags == "mod" { TOPMOD } else { TOP }, pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
        for (a, b, fm) in &fr { if m && !fm { continue } for p in &probes {
            let mut w: Toks = a.clone(); w.extend(v); w.extend(p); w.extend(b);
            compose::examine(c, l, &w, cfg(*fm), pol(enf));
        } }
    });
}
fn c11(c: &Check) {
    let probes: Vec<Toks> = PROBES.iter().map(|p| split(p.replace('\n', "NL").leak())).collect();
    let run = |name: &str, tags: &str, depth: usize, frames: &[usize], glue: &[&[&'static str]], probes: &[Toks]| {
        let fr: Vec<_> = frames.iter().map(|&i| gen::frame(i)).collect();
        compose::programs(c, &Comp { name, firsts: firsts(tags), depth, keep: &|_| true, frames: if tags == "mod" { TOPMOD } else { TOP }, pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
            for (a, b, fm) in &fr { if m && !fm { continue } for g in glue { for p in probes {
                let mut w: Toks = a.clone(); w.extend(v); w.extend(*g); w.extend(p); w.extend(b);
                compose::examine(c, l, &w, cfg(*fm), pol(EVERY));
            } } }
        });
    };
    run("every production, then every probe, in every context", "-", 1, ALL_FRAMES, &[&[]], &probes);
    run("every production, a semicolon or line terminator, then every probe", "-", 1, TOP, &[&[";"], &[NL]], &probes);
    run("every module item, then every probe", "mod", 2, TOPMOD, &[&[]], &probes);
    run("every pair of productions, then every probe", "-", 2, TOP, &[&[]], &probes);
    // the probe inside what the history left open: deeper places
    let wraps = ["{ # @ }", "if ( x ) { # @ }", "x = function ( ) { # @ } ;", "x = ( ) => { # @ } ;", "# { @ }", "# x = ( ) => { @ } ;", "# function z ( ) { @ }", "# function * z ( ) { @ }", "# async function z ( ) { @ }", "# class z { y ( ) { @ } }", "# x = { y ( ) { @ } } ;", "function z ( ) { # } @", "function * z ( ) { # } @", "async function z ( ) { # } @", "async function * z ( ) { # } @", "class z extends y { constructor ( ) { # } } @", "class z { static y ( ) { # } } @", "x = { get z ( ) { # } } ; @", "x = ( ) => { # } ; @", "x = async ( ) => { # } ; @", "l : while ( x ) { # } @", "switch ( x ) { case y : # } @", "switch ( x ) { case y : # case z : @ }", "l : { # } @", "function z ( ) { 'use~strict' ; # } @", "for ( ; ; ) { # } @", "try { # } catch ( z ) { @ }", "try { @ } finally { # }", "do { # } while ( x ) ; @", "if ( x ) { # } else { @ }", "x = { z ( ) { # } , y ( ) { @ } } ;", "class z { y ( ) { # } w ( ) { @ } }", "class z { * y ( ) { # } async w ( ) { @ } }", "class z { async y ( ) { # } * w ( ) { @ } }", "x ( function ( ) { # } , function ( ) { @ } ) ;", "x ( ( ) => { # } , async ( ) => { @ } ) ;", "function z ( a = function ( ) { # } ) { @ }", "with ( x ) { # } @", "`h${ function ( ) { # } }t` ; @"];
    let wr: Vec<Vec<&'static str>> = wraps.iter().map(|w| split(w)).collect();
    compose::programs(c, &Comp { name: "every production and every probe in two places of one program", firsts: compose::all_firsts(), depth: 1, keep: &|_| true, frames: c.q(TOP, &[0, 2, 3, 13]), pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
        for w0 in &wr { for p in &probes {
            let mut w: Toks = vec![]; for t in w0 { match *t { "#" => w.extend(v), "@" => w.extend(p), t => w.push(t) } }
            compose::examine(c, l, &w, cfg(m), pol(EVERY));
        } }
    });
    // every three probes in a row
    let items: Vec<usize> = (0..probes.len()).collect();
    c.par(&items, |&i, l| for p in &probes { for q in &probes { if c.over() { return } let mut w: Toks = probes[i].clone(); w.extend(p); w.extend(q); l.states += 1; compose::examine(c, l, &w, SCRIPT, pol(EVERY)); if c.thorough() { compose::examine(c, l, &w, MODULE, pol(EVERY)); for f in ALL_FRAMES { let (a, b, m) = gen::frame(*f); let mut x = a; x.extend(&w); x.extend(b); compose::examine(c, l, &x, cfg(m), pol(EVERY)); } } } });
    c.note(format!("every three of {} probes in a row", probes.len()));
    leftovers(c, c.q(&[0, 2, 3, 7, 11, 14][..], ALL_FRAMES), EVERY);
}
// ---------------------------------------------------------------------------------- C12
pub const WORDS: &str = "as async from get set of let static yield implements interface package private protected public eval arguments constructor prototype target meta undefined each abstract native new this null true false if in typeof super enum var default await";
fn c12(c: &Check) {
    let ws = split(WORDS);
    words(c, "every word in every identifier place of productions in every context", "-", 1, ALL_FRAMES, &ws, EVERY & !AWAIT_IDENT | STRICT);
    words(c, "every word in every identifier place of module items", "mod", 1, TOPMOD, &ws, EVERY);
    words(c, "every word in every identifier place of pairs of productions", "-", 2, TOP, &ws, EVERY);
    let near = split("LET Let lets let1 $let ASYNC Async asyncs Yield yields AWAIT awaits Static statics OF Of off oF Get SET gets Eval evals Arguments IF If iff New newt NULL True nulls This super1 superb Function Class Var vars inn instance IN AS As FROM From Target Constructor Enum Import Export Case Default For Do");
    words(c, "words that look like reserved or contextual ones in every identifier place of productions in every context", "-", 1, ALL_FRAMES, &near, EVERY);
    words(c, "words that look like reserved or contextual ones in every identifier place of module items", "mod", 1, TOPMOD, &near, EVERY);
    if c.thorough() { words(c, "words that look like reserved or contextual ones in every identifier place of pairs of productions", "-", 2, TOP, &near, EVERY) }
    if c.thorough() { words(c, "every word in every identifier place of pairs of productions in other contexts", "-", 2, &[2, 3, 7, 13], &ws, EVERY); words(c, "every word in every identifier place of module items, two deep", "mod", 2, TOPMOD, &ws, EVERY) }
    for (i, w) in ["async", "get", "set", "of", "static", "as", "from", "let", "yield", "await"].iter().enumerate() {
        let n = c.q(if i < 2 { 4 } else { 3 }, 5);
        let al = format!("{} a ( ) {{ }} = . , : => * function [ ] NL ;", w);
        dfs(c, &format!("{} among brackets and operators", w), "", &al, "", n + 1, false, EVERY);
        dfs(c, &format!("{} in an object literal", w), "x = {", &format!("{} a ( ) {{ }} = : , * 's' [ ]", w), "}", n + 1, false, EVERY);
        dfs(c, &format!("{} in a class", w), "class x {", &format!("{} a ( ) {{ }} ; * 's' static get async", w), "}", n + 1, false, EVERY);
        dfs(c, &format!("{} in a for head", w), "for (", &format!("{} a of in ; = let var const ( ) [ ] .", w), ") ;", n, false, EVERY);
        if c.thorough() { dfs(c, &format!("{} in module items", w), "", &format!("{} import export {{ }} , * from as 's' a default ;", w), "", 6, true, EVERY) }
    }
}
// ---------------------------------------------------------------------------------- C13
const C13: u64 = CTX | THROW_NL;
fn c13(c: &Check) {
    let enf = C13 | AWAIT_IDENT;
    let stm = ["return ;", "return a ;", "break ;", "continue ;", "break l ;", "continue l ;", "break m ;", "continue m ;", "yield ;", "yield a ;", "yield * a ;", "x = yield ;", "await a ;", "x = await a ;", "super . a ;", "super [ a ] ;", "super ( ) ;", "super ( a ) ;", "x = super ;", "new . target ;", "new . target . a ;", "for await ( a of b ) ;", "l : a ;", "m : a ;", "l : while ( a ) break l ;", "m : while ( a ) continue m ;", "l : { break l ; }", "l : { continue l ; }", "l : m : while ( a ) continue l ;", "l : if ( a ) break l ;", "l : switch ( a ) { case b : break l ; continue l ; }", "yield ? a : b ;", "await", "( a = yield ) => b ;", "( a = await b ) => c ;", "async ( a = await b ) => c ;"];
    let wraps = ["#", "{ # }", "if ( x ) #", "if ( x ) y ; else #", "while ( x ) #", "do # while ( x ) ;", "for ( ; ; ) #", "for ( x in y ) #", "for ( x of y ) #", "switch ( x ) { case y : # }", "switch ( x ) { default : # }", "l : #", "l : { # }", "m : #", "l : while ( x ) #", "l : while ( x ) { # }", "l : for ( ; ; ) { # }", "try { # } finally { }", "try { } catch ( x ) { # }", "try { } catch { # }", "try { } finally { # }", "with ( x ) #", "function x ( ) { # }", "function * x ( ) { # }", "async function x ( ) { # }", "async function * x ( ) { # }", "x = function ( ) { # } ;", "x = function * ( ) { # } ;", "x = async function ( ) { # } ;", "x = async function * ( ) { # } ;", "x = ( ) => { # } ;", "x = y => { # } ;", "x = async ( ) => { # } ;", "x = async y => { # } ;", "class x { y ( ) { # } }", "class x { static y ( ) { # } }", "class x { * y ( ) { # } }", "class x { async y ( ) { # } }", "class x { async * y ( ) { # } }", "class x { get y ( ) { # } }", "class x { set y ( z ) { # } }", "class x { constructor ( ) { # } }", "class x extends y { constructor ( ) { # } }", "class x extends y { static constructor ( ) { # } }", "class x extends y { z ( ) { # } }", "class x extends y { get constructor_ ( ) { # } }", "class x extends y { 'constructor' ( ) { # } }", "class x extends y { [ constructor ] ( ) { # } }", "x = class extends y { constructor ( ) { # } } ;", "x = { y ( ) { # } } ;", "x = { y : function ( ) { # } } ;", "x = { y : ( ) => { # } } ;", "x = { get y ( ) { # } } ;", "x = { set y ( z ) { # } } ;", "x = { * y ( ) { # } } ;", "x = { async y ( ) { # } } ;", "x = { async * y ( ) { # } } ;", "x = { constructor ( ) { # } } ;"];
    let wr: Vec<Vec<&'static str>> = wraps.iter().map(|w| split(w)).collect(); let st: Vec<Vec<&'static str>> = stm.iter().map(|w| split(w)).collect();
    fn sub<'a>(w: &[&'a str], x: &[&'a str]) -> Vec<&'a str> { let mut o = vec![]; for t in w { if *t == "#" { o.extend(x) } else { o.push(*t) } } o }
    let mut pairs = vec![]; for a in 0..wr.len() { for b in 0..wr.len() { pairs.push((a, b)) } }
    c.par(&pairs, |&(a, b), l| {
        if c.over() { return }
        let ab = sub(&wr[a], &wr[b]);
        for s in &st { let v = sub(&ab, s); l.states += 1; compose::examine(c, l, &v, SCRIPT, pol(enf)); compose::examine(c, l, &v, MODULE, pol(enf)); }
        for d in &wr { let abd = sub(&ab, d); for (i, s) in st.iter().enumerate() { if !c.thorough() && i % 3 != a % 3 && !(8..22).contains(&i) && i > 6 { continue } let v = sub(&abd, s); l.states += 1; compose::examine(c, l, &v, SCRIPT, pol(enf)); } }
        if c.thorough() { for d in &wr { for e in &wr { let abde = sub(&sub(&ab, d), e); for s in st.iter().take(22) { let v = sub(&abde, s); l.states += 1; compose::examine(c, l, &v, SCRIPT, pol(enf)); } } } }
    });
    c.note(format!("every context-bound statement ({}) in every nesting of up to {} of {} contexts", stm.len(), c.q(3, 4), wraps.len()));
    // contexts followed by the statement: the context must end
    c.par(&pairs, |&(a, b), l| {
        if c.over() { return }
        let x = split("y ;"); let mut ab = sub(&wr[a], &x); ab.extend(wr[b].iter());
        for s in &st { let v = sub(&ab, s); l.states += 1; compose::examine(c, l, &v, SCRIPT, pol(enf)); let mut w = sub(&wr[a], &sub(&wr[b], &x)); w.extend(s); compose::examine(c, l, &w, SCRIPT, pol(enf)); }
    });
    // a complete construct inside the context, then the statement: the context must still hold, and nothing more
    let mut hist: Vec<Vec<&'static str>> = wr.iter().map(|w| sub(w, &split("y ;"))).collect();
    for h in ["x ( function ( ) { } ) ;", "x = [ ( ) => { } ] ;", "`h${ function ( ) { } }t` ;", "x = { y ( ) { } , z ( ) { } } ;", "n : while ( y ) { break n ; }", "n : while ( y ) { continue n ; }", "n : { break n ; }", "switch ( y ) { case z : break ; }", "while ( y ) break ;", "do { continue ; } while ( y ) ;", "x = ( y = function ( ) { } ) => z ;", "function z ( a = ( ) => { } ) { return a }", "x = async ( y ) => { await y } ;", "x = function * ( ) { yield } ;", "class x extends y { constructor ( ) { super ( ) } }", "for ( x of function ( ) { } ) ;", "for ( var x = ( ) => { } ; ; ) ;", "x = new function ( ) { new . target } ;", "if ( function ( ) { } ) ; else ;", "( function ( ) { return } ) ( ) ;", "x = async y => z ;", "x = async ( y , z ) ;", "x = ( y ) ;", "n : m : ;", "l2 : l3 : while ( y ) break l2 ;", "{ }", ";", "y", "x = class { static async * z ( ) { yield await z } } ;", "switch ( function ( ) { } ) { case ( ) => { } : }", "throw function ( ) { } ;", "with ( y ) { }", "try { break_ } catch ( { z } ) { }", "let y = ( ) => { } ;"] { hist.push(split(h)) }
    let tails: Vec<Vec<&'static str>> = st.iter().take(30).cloned().collect();
    let mut pairs2 = vec![]; for a in 0..wr.len() { for b in 0..hist.len() { pairs2.push((a, b)) } }
    c.par(&pairs2, |&(a, b), l| {
        if c.over() { return }
        for s in &tails {
            let mut x = hist[b].clone(); x.extend(s.iter());
            let v = sub(&wr[a], &x); l.states += 1; compose::examine(c, l, &v, SCRIPT, pol(enf));
            let v = sub(&wr[a], &sub(&split("{ # }"), &x)); compose::examine(c, l, &v, MODULE, pol(enf));
            // the other way round: the statement, the construct, the statement again
            if foreign() { continue }
            let mut y: Vec<&str> = s.clone(); y.extend(&x); let v = sub(&wr[a], &y); compose::examine(c, l, &v, SCRIPT, pol(enf));
            for d in &wr { if !c.thorough() && !d.contains(&"function") && !d.contains(&"l") && !d.contains(&"while") && !d.contains(&"constructor") && !d.contains(&"=>") { continue } let v = sub(d, &sub(&wr[a], &x)); compose::examine(c, l, &v, SCRIPT, pol(enf)); }
        }
    });
    c.note(format!("every context-bound statement after {} complete constructs inside every context and every two contexts", hist.len()));
    // expressions bound to a context in the places where functions keep expressions
    let ex = ["yield", "yield a", "await a", "super . a", "super ( )", "new . target", "this", "arguments", "function ( ) { return }", "( ) => super . a", "( ) => new . target", "async ( ) => await a", "function * ( ) { yield }", "await", "yield = a", "await = a", "{ a ( ) { super . b } }", "class { a ( ) { super . b } }"];
    let pl = ["function x ( a = # ) { }", "function * x ( a = # ) { }", "async function x ( a = # ) { }", "async function * x ( a = # ) { }", "x = ( a = # ) => b ;", "x = async ( a = # ) => b ;", "x = { y ( a = # ) { } } ;", "class x { y ( a = # ) { } }", "class x { * y ( a = # ) { } }", "class x { async y ( a = # ) { } }", "class x extends z { constructor ( a = # ) { } }", "class x { [ # ] ( ) { } }", "class x extends ( # ) { }", "class x { static [ # ] ( ) { } }", "x = { [ # ] : a } ;", "x = { [ # ] ( ) { } } ;", "x = { get [ # ] ( ) { } } ;", "x = { set y ( a = # ) { } } ;", "function x ( { a = # } ) { }", "function x ( [ a = # ] ) { }", "function x ( { [ # ] : a } ) { }", "x = ( { a = # } ) => b ;", "var { a = # } = b ;", "for ( a = # ; ; ) ;", "for ( a of [ # ] ) ;", "x = a => # ;", "x = async a => # ;", "`h${ # }t` ;", "( # ) ;", "[ # ] ;", "x ( # ) ;", "# ;", "throw # ;", "if ( # ) ;", "x = # ? # : # ;", "return # ;", "class x extends z { constructor ( ) { y = ( ) => # ; } }", "class x extends z { constructor ( ) { function y ( ) { # } } }", "class x { y ( ) { z = ( ) => { # } } }"];
    let mut v: Vec<Toks> = vec![]; for p in pl { for e in ex { let (p, e) = (split(p), split(e)); v.push(sub(&p, &e)); for q in pl { let q: Toks = split(q).into_iter().collect(); let inner: Toks = if c.thorough() { vec!["(", "function", "(", ")", "{"].into_iter().chain(sub(&p, &e)).chain(["}", ")"]).collect() } else { continue }; v.push(sub(&q, &inner)) } } }
    list(c, "every context-bound expression in every place of every context", &v, ALL_FRAMES, false, enf);
    // what yield and await are followed by
    let heads = ["x = { * y ( ) { # } } ;", "class x extends z { static * y ( ) { # } }", "function * y ( ) { # }", "x = { async * y ( ) { # } } ;", "async function y ( ) { # }", "class x extends z { async constructor1 ( ) { # } }", "x = async ( ) => { # } ;", "#"];
    let forms = ["yield % ;", "yield * % ;", "yield NL % ;", "x = yield % ;", "( yield % ) ;", "[ yield % , yield ] ;", "yield yield % ;", "a ? yield % : yield ;", "`h${ yield % }t` ;", "await % ;", "x = await % ;", "- await % ;", "await await % ;", "await NL % ;", "yield await % ;", "a + await % ;", "await % in b ;"];
    let mut ops: Vec<Toks> = vec![];
    for &r in compose::all_firsts().iter().chain(&wides("-")) { if r.get().cat == gen::Cat::E { let mut o = vec![]; gen::emit(&gen::Der { p: r, kids: vec![] }, &mut 0, &mut o); ops.push(o) } }
    for t in split(TOKENS) { ops.push(vec![t]); ops.push(vec![t, "a"]); }
    let hf: Vec<(Toks, bool)> = heads.iter().flat_map(|h| forms.iter().map(move |f| (sub(&split(h), &split(f)), f.contains('[') || f.contains('?') || f.contains('`') || f.contains("NL") || f.contains("yield await") || f.contains('+')))).collect();
    c.par(&ops, |o, l| for (f, rare) in &hf {
        if c.over() { return }
        if *rare && !c.thorough() && o.len() > 6 { continue }
        let mut w: Toks = vec![]; for t in f { if *t == "%" { w.extend(o) } else { w.push(t) } }
        l.states += 1; compose::examine(c, l, &w, SCRIPT, pol(enf));
    });
    c.note(format!("yield and await followed by each of {} expressions and tokens in {} ways and places", ops.len(), hf.len()));
    // labels of every name, and jumps to that and to every other name
    let names = split("a A b L l LL Ll lL $ $a a$ _ _a a1 a11 ab ba aa \u{e9} \u{c9} \u{3a9} \u{3c9} constructor __proto__ prototype toString undefined NaN Infinity this1 async of get set static from as target eval arguments yield await let implements label break1");
    let forms = ["% : while ( x ) break & ;", "% : { break & ; }", "% : for ( ; ; ) { continue & ; }", "% : & : x ;", "% : { & : x ; }", "% : x ; & : y ;", "% : while ( x ) & : while ( y ) { continue % ; break & ; }", "% : while ( x ) { ( function ( ) { & : while ( y ) break % ; } ) ; break % ; }", "% : { ( ) => { & : { break & ; } } ; break % ; }", "% : { & : { break % ; } break & ; }", "% : switch ( x ) { case & : break % ; default : break & ; }", "% : do { try { continue % ; } finally { break & ; } } while ( x ) ;", "& : x ; % : while ( y ) { break % ; continue & ; }"];
    let mut v: Vec<Toks> = vec![]; for f in forms { for a in &names { for b in &names { v.push(split(f).into_iter().map(|t| match t { "%" => *a, "&" => *b, t => t }).collect()) } } }
    list(c, "labels of every name, and jumps to every name", &v, c.q(TOP, &[0, 1, 2, 3, 7, 13]), false, enf);
    dfs(c, "labels and jumps", "a : while ( b ) {", "break continue a b ; NL } if ( ) : return", "}", c.q(6, 7), false, enf);
    dfs(c, "nested labels", "", "a : b while ( 1 ) { } break continue ;", "", c.q(6, 8), false, enf);
    dfs(c, "super", "class a extends b { constructor ( ) {", "super ( ) . a ; new target => } [ ] function {", "} }", c.q(5, 6), false, enf);
    dfs(c, "yield", "function * g (", "yield a , ) { } = * NL ;", "}", c.q(6, 7), false, enf);
    dfs(c, "await", "async function g (", "await a , ) { } = ( => ;", "}", c.q(6, 7), false, enf);
    dfs(c, "yield expressions", "function * g ( ) {", "yield a , ( ) { } = * NL ; [ ] ? : + in", "}", c.q(5, 6), false, enf);
    dfs(c, "await expressions", "async function g ( ) {", "await a , ( ) { } = * NL ; [ ] ! ** =>", "}", c.q(5, 6), false, enf);
    comp_any(c, "jumps and context-bound expressions in and around every production", "jump ctx await yield label", 2, c.q(&[0, 1, 2, 3, 7, 10, 11, 12], ALL_FRAMES), enf, None);
}
// ---------------------------------------------------------------------------------- C14
fn c14(c: &Check) {
    wide(c, "functions", "fn arrow", ALL_FRAMES, EVERY, Some(DS2N), true);
    dressed(c, "functions", "fn arrow gen async method acc", false);
    let enf = FUNCS | CTX | REST_PATTERN | DIR_NONSIMPLE | COVER_INIT;
    comp(c, "functions of every kind, two deep, in every context", "fn arrow gen async method acc", 2, ALL_FRAMES, enf, None);
    comp(c, "functions of every kind, three deep", "fn arrow", 3, TOP, enf, None);
    comp(c, "functions of every kind, one-edit neighbours", "fn arrow gen async method acc", 1, ALL_FRAMES, enf, Some(DS2N));
    comp(c, "functions of every kind, two deep, one-edit neighbours", "fn arrow", 2, TOP, enf, Some(DS2N));
    sibs(c, "pairs of productions in one function", "fn arrow gen async method acc", c.q(TOP, ALL_FRAMES), enf);
    dfs(c, "function heads", "", "function class a ( ) { } * async NL static", "", c.q(6, 7), false, enf);
    dfs(c, "function expressions", "x =", "function async * a ( ) { } , = ...", "", c.q(7, 8), false, enf);
    dfs(c, "parameters", "function x (", "a , = [ ] { } ... : 1 )", "{ }", c.q(5, 6), false, enf);
    dfs(c, "arrow heads", "", "a ( ) => , { } = ... [ ] async NL await", "", c.q(5, 7), false, enf | ARROW_PARAMS);
    dfs(c, "arrow parameters", "x = (", "a , = [ ] { } ... : ( )", ") => y ;", c.q(5, 6), false, enf);
    dfs(c, "async arrow parameters", "x = async (", "a , = [ ] { } ... : ( ) await", ") => y ;", c.q(5, 6), false, enf);
    dfs(c, "arrow bodies", "x = a =>", "{ } ( ) , a : ; => ? + NL", "", c.q(6, 7), false, enf);
    dfs(c, "accessors", "x = {", "get set a ( ) { } , = : ... 's'", "}", c.q(6, 7), false, enf);
    dfs(c, "async", "", "async a ( ) => { } , . NL function * =", "", c.q(6, 7), false, enf);
    dfs(c, "generators", "x = {", "* async get a ( ) { } yield ,", "}", c.q(6, 7), false, enf);
    lists(c, "long parameter lists and bodies", "fn arrow", c.q(40, 200), c.q(&[0, 2, 3], ALL_FRAMES), enf);
    nest(c, "nested functions", "fn arrow method acc", c.q(12, 30), TOP, 0);
    // every kind of function with every kind of parameter list and body
    let ps = ["", "a", "a , b", "a , b , c", "a ,", "a = 1", "a = b , c", "a , b = c", "... a", "a , ... b", "... a , b", "... a = b", "... [ a ]", "... { a }", "... a ,", "{ a }", "[ a ]", "{ a } = b", "[ a ] = b", "{ a : b }", "{ a = 1 }", "[ a = 1 ]", "{ a : { b } }", "[ [ a ] ]", "{ }", "[ ]", "[ , ]", "[ , a ]", "[ ... a ]", "{ ... a }", "{ [ a ] : b }", "{ 's' : a }", "{ 1 : a }", ",", "a , , b", "a b", "1", "a . b", "( a )", "( a ) , b", "a + b", "a => b", "{ a : b . c }", "[ a . b ]", "{ a : 1 }", "[ ( a ) ]", "( { a } )", "a = ( b , c )", "a = b => c", "a = function ( ) { }", "a = { }", "a = class { }", "this", "{ a , b }", "a = 1 , { b } , [ c ] , ... d", "a = b = c", "a += b", "{ get a ( ) { } }", "{ a ( ) { } }", "yield", "await", "let", "async", "get", "of", "eval", "arguments", "static", "a = { b : c }", "a = [ b ]", "new . target", "a = this", "{ a = b , c }", "{ a : b = c }", "[ { a } , [ b ] ]", "[ a ] , { b }"];
    let bodies = ["", "return", "return a ;", "a", "'use~strict'", "'s' ; a", "yield ;", "await ;", "yield a ;", "await a ;", "function z ( ) { }", "let b", "{ }", "b : a", "return ( a )", "super . a", "arguments", "this . a = a ;", "return a => b", "throw a", "'use~strict' ; with ( a ) b"];
    let mut v: Vec<Toks> = vec![];
    for k in KINDS { for p in ps { for b in bodies { let (k, p, b) = (split(k), split(p), split(b)); let mut w = vec![]; for t in k { match t { "#" => w.extend(&p), "@" => w.extend(&b), t => w.push(t) } } v.push(w) } } }
    list(c, "every kind of function with every parameter list and body", &v, c.q(&[0, 2, 3], ALL_FRAMES), false, enf);
    after(c, "every function, then every probe", "fn arrow gen async method acc", 1, ALL_FRAMES, enf | STRICT);
    after(c, "every function with every production in it, then every probe", "fn arrow gen async method acc", 2, c.q(TOP, &[0, 2, 4, 14]), enf | STRICT);
    leftovers(c, c.q(&[0, 2, 14], ALL_FRAMES), enf | STRICT);
}
// ---------------------------------------------------------------------------------- C15
fn c15(c: &Check) {
    wide(c, "patterns", "pat asg", c.q(&[0, 2, 3, 7, 13], ALL_FRAMES), EVERY, Some(DS2N), true);
    dressed(c, "patterns and assignments", "pat asg upd forin forof for decl", false);
    let enf = TARGETS;
    comp(c, "patterns, two deep, in every context", "pat", 2, ALL_FRAMES, enf, None);
    comp(c, "patterns, three deep", "pat asg", 3, TOP, enf, None);
    comp(c, "assignments and updates, two deep", "asg upd forin forof for", 2, c.q(&[0, 2, 3, 14], ALL_FRAMES), enf | STRICT_EVAL, None);
    comp(c, "patterns, one-edit neighbours", "pat asg upd decl", 2, TOP, enf, Some(DS2N));
    sibs(c, "pairs of productions in one pattern or assignment", "pat asg forin forof for decl", c.q(TOP, ALL_FRAMES), enf);
    dfs(c, "brackets as patterns", "", "a b { } [ ] = : , ... 1 ( ) =>", "", c.q(5, 6), false, enf);
    dfs(c, "array patterns", "[", "a , ... = [ ] ( ) . { }", "] = x ;", c.q(5, 7), false, enf);
    dfs(c, "object patterns", "( {", "a , ... = : [ ] ( ) 's' . { }", "} = x ) ;", c.q(5, 6), false, enf);
    dfs(c, "binding array patterns", "let [", "a , ... = [ ] { } : .", "] = x ;", c.q(5, 7), false, enf);
    dfs(c, "binding object patterns", "const {", "a , ... = : [ ] 's' 1 { } .", "} = x ;", c.q(5, 6), false, enf);
    dfs(c, "catch parameters", "try { } catch (", "a , ... = : [ ] { }", ") { }", c.q(5, 7), false, enf);
    dfs(c, "for targets", "for (", "a b [ ] { } . ( ) , = : let var", "of x ) ;", c.q(5, 6), false, enf);
    dfs(c, "for in targets", "for (", "a b [ ] { } . ( ) , = : const var", "in x ) ;", c.q(5, 6), false, enf);
    dfs(c, "assignment targets", "", "a ( ) = ++ += . 1 [ ] this , new", "", c.q(5, 6), false, enf);
    dfs(c, "declarations", "", "var let const a = , [ ] { } ; NL", "", c.q(6, 7), false, enf);
    lists(c, "long patterns", "pat asg decl", c.q(40, 200), c.q(TOP, ALL_FRAMES), enf);
    nest(c, "nested patterns", "pat asg", c.q(14, 30), TOP, enf);
    let all = gen::ODD.len();
    odds(c, "productions with texts that may be no pattern, or nothing else, in their holes", "-", ALL_FRAMES, all, false);
    odds(c, "productions with such texts in two of their holes", "-", c.q(TOP, &[0, 2, 3, 14]), all, true);
    odds(c, "combinations of parts with such texts in their holes", "wide", c.q(TOP, &[0, 2, 3, 14]), all, false);
    odds(c, "module items with such texts in their holes", "mod", TOPMOD, all, true);
    odds(c, "combinations of parts of module items with such texts in their holes", "widemod", TOPMOD, all, false);
    // every target in every place that takes one
    let ts = ["a", "( a )", "( ( a ) )", "a . b", "( a . b )", "a [ b ]", "( a [ b ] )", "a ( )", "a ( ) . b", "a ( ) [ b ]", "new a", "new a . b", "this", "this . a", "1", "'s'", "null", "true", "/r/g", "`t`", "[ ]", "[ a ]", "[ a , b ]", "[ , a ]", "[ ... a ]", "[ ... [ a ] ]", "[ ... a , b ]", "[ a . b ]", "[ a ( ) ]", "[ ( a ) ]", "[ ( a . b ) ]", "[ ( [ a ] ) ]", "[ a = b ]", "[ ( a = b ) ]", "[ ( a ) = b ]", "[ a . b = c ]", "[ [ a ] = b ]", "[ 1 ]", "[ a + b ]", "[ this ]", "[ ... a = b ]", "[ ... ( a ) ]", "[ ... a . b ]", "{ }", "{ a }", "{ a , b }", "{ a = b }", "{ a : b }", "{ a : b = c }", "{ a : b . c }", "{ a : ( b ) }", "{ a : ( b . c ) }", "{ a : ( { b } ) }", "{ a : ( b = c ) }", "{ a : { b } }", "{ a : [ b ] }", "{ a : 1 }", "{ a : b ( ) }", "{ a : b + c }", "{ 's' : a }", "{ 1 : a }", "{ [ a ] : b }", "{ a ( ) { } }", "{ get a ( ) { } }", "{ * a ( ) { } }", "{ async a ( ) { } }", "{ ... a }", "{ ... a , b }", "{ ... a . b }", "{ ... { a } }", "{ ... ( a ) }", "{ if : a }", "{ if }", "{ this }", "{ 's' }", "{ a : this }", "( { a } )", "( [ a ] )", "( { a = b } )", "( a , b )", "( a = b )", "a = b", "a += b", "a + b", "- a", "! a", "typeof a", "a ++", "++ a", "a ? b : c", "a , b", "a => b", "( ) => { }", "( a ) => b", "async a => b", "function ( ) { }", "class { }", "super . a", "super [ a ]", "new . target", "yield", "yield a", "await a", "import ( a )", "async", "async ( )", "async . a", "let", "let . a", "let [ a ]", "get", "of", "eval", "arguments", "static", "`h${ a }t`", "a `t`", "a `t` . b", "delete a", "{ a : a } . b", "[ a ] . b", "[ a ] [ 0 ]", "{ a , } ", "[ a , ]", "{ eval }", "{ a : eval }", "[ arguments ]", "{ eval = a }", "{ yield }", "{ await }", "{ let }", "{ async }", "{ get }", "{ a : [ b , { c = d } ] = e , ... f }"];
    let pl = ["# = x ;", "( # = x ) ;", "y = # = x ;", "# += x ;", "( # += x ) ;", "# **= x ;", "( # ) = x ;", "# ++ ;", "( # ++ ) ;", "++ # ;", "-- # ;", "( -- # ) ;", "for ( # in x ) ;", "for ( # of x ) ;", "for ( # ; ; ) ;", "for ( # = x ; ; ) ;", "for ( var # in x ) ;", "for ( let # of x ) ;", "for ( const # of x ) ;", "for ( var # = x ; ; ) ;", "for ( let # ; ; ) ;", "for ( const # in x ) ;", "for ( var # = x of y ) ;", "for ( let # , y of x ) ;", "async function z ( ) { for await ( # of x ) ; }", "async function z ( ) { for await ( const # of x ) ; }", "var # ;", "var # = x ;", "let # = x ;", "let # ;", "const # = x ;", "const # ;", "var y , # = x ;", "let y = # ;", "try { } catch ( # ) { }", "( # ) => x ;", "( y , # ) => x ;", "( # , y ) => x ;", "( # = x ) => y ;", "( ... # ) => x ;", "async ( # ) => x ;", "async ( # = x ) => y ;", "function z ( # ) { }", "function z ( # = x ) { }", "function z ( ... # ) { }", "[ # ] = x ;", "[ y , # ] = x ;", "[ # = y ] = x ;", "[ ... # ] = x ;", "( { y : # } = x ) ;", "( { y : # = z } = x ) ;", "( { ... # } = x ) ;", "( { [ y ] : # } = x ) ;", "for ( [ # ] of x ) ;", "for ( { y : # } of x ) ;", "x = ( # ) ;", "x = # ;", "# ;", "( # ) ;", "y ( # = x ) ;", "y ( { z : # = x } ) ;", "class z { y ( # ) { } }", "x = { set y ( # ) { } } ;", "x = { y : # } ;", "[ # ] ;", "y ? # = x : z ;", "y , # = x ;", "x = # = y = z ;", "( [ # ] ) => y ;", "( { y : # } ) => z ;", "async ( [ # ] ) => y ;", "async ( { y : # } ) => z ;", "( [ # = y ] = z ) => x ;", "a => # = x ;", "typeof # = x ;", "`h${ # = x }t` ;", "[ [ [ # ] ] ] = x ;", "( { y : { z : [ # ] } } = x ) ;", "# = # = x ;", "[ # , # ] = x ;", "if ( # = x ) ;", "return_ ( # = x ) ;"];
    let mut v: Vec<Toks> = vec![];
    for p in pl { for t in ts { let (p, t) = (split(p), split(t)); let mut w = vec![]; for k in p { if k == "#" { w.extend(&t) } else { w.push(k) } } v.push(w) } }
    list(c, "every target in every place", &v, ALL_FRAMES, false, enf | STRICT_EVAL | EXP_UNARY);
    after(c, "every pattern and assignment, then every probe", "pat asg upd forin forof for", 1, ALL_FRAMES, enf);
    after(c, "every pattern and assignment with every production in it, then every probe", "pat asg upd forin forof for", 2, c.q(TOP, &[0, 2, 4, 14]), enf);
}
// ---------------------------------------------------------------------------------- C16
fn c16(c: &Check) {
    wide(c, "classes and objects", "class obj", ALL_FRAMES, EVERY, Some(DS2N), true);
    dressed(c, "classes and object literals", "class obj", false);
    let enf = CLASS | COVER_INIT;
    comp(c, "classes and object literals, two deep, in every context", "class obj", 2, ALL_FRAMES, enf | CTX, None);
    comp(c, "classes and object literals, three deep", "class obj", 3, TOP, enf | CTX, None);
    comp(c, "classes and object literals, one-edit neighbours", "class obj", 1, ALL_FRAMES, enf | CTX, Some(DS2N));
    comp(c, "classes and object literals, two deep, one-edit neighbours", "class obj", 2, TOP, enf, Some(DS2N));
    sibs(c, "pairs of productions in one class or object", "class obj", c.q(TOP, ALL_FRAMES), enf);
    dfs(c, "class members", "class a {", "static get set async * ( ) { } a constructor = ; 'b' [", "}", c.q(5, 6), false, enf);
    dfs(c, "class members 2", "x = class {", "static get async * ( ) { } a ; NL 1", "}", c.q(6, 7), false, enf);
    dfs(c, "object members", "x = {", "static get set async * ( ) { } a : , yield await 1 = ", "}", c.q(5, 6), false, enf);
    dfs(c, "object members 2", "x = {", "get * ( ) { } a : , 's' [ ] ... =", "}", c.q(6, 7), false, enf);
    dfs(c, "class heads", "", "class extends a { } ( ) . b new function", "", c.q(6, 7), false, enf);
    dfs(c, "class expressions", "x =", "class extends a { } ( ) . => [ ] ,", "", c.q(6, 7), false, enf);
    // every combination of modifiers and key
    let mods = ["", "static", "get", "set", "async", "*", "async *", "static get", "static set", "static async", "static *", "static async *", "get set", "get async", "set get", "async get", "static static", "get *", "* async", "* get", "async static", "get static", "async async", "static get static", "async NL", "async NL *", "get NL", "static NL", "set NL"];
    let keys = ["a", "'s'", "1", "0x1", "[ a ]", "[ a , b ]", "[ ]", "if", "class", "null", "true", "this", "static", "get", "set", "async", "await", "yield", "let", "of", "new", "constructor", "'constructor'", "prototype", "'prototype'", "[ 'constructor' ]", "eval", "arguments", "default", "import", "function", "`t`", "/r/g", "a . b", "- 1", "in", "typeof", "\u{e9}", "__proto__", "enum", "implements"];
    let tails = ["( ) { }", "( a ) { }", "( a , b ) { }", "( ... a ) { }", "( { a } ) { }", "( a = 1 ) { }", ": a", "= a", "", "( )", "{ }", "( ) { return }", ": a = b", ", b", "; b ( ) { }", "( ) { } ;", "( ) { } ,", "( ) { } , b", "( ) { } b ( ) { }", "( ) => { }", ": function ( ) { }", ": ( ) => { }", ": { b : c }", ": [ ]", ": a , b : c", "( ) { super . a }", "( ) { super ( ) }", ": a b", ": , a", "( ) { } = a"];
    let fr = ["x = { # } ;", "class x { # }", "class x extends y { # }", "x = class { # } ;", "( { # } ) ;", "x = { y , # , z } ;", "class x { y ( ) { } # z ( ) { } }", "( { # } = y ) ;", "x = { # , # } ;", "class x { # # }", "x = { ... y , # } ;", "class x { constructor ( ) { } # }", "class x { static y ( ) { } # }", "class x { ; # ; }", "( { # } ) => y ;", "var { # } = y ;", "x = class extends y { # constructor ( ) { super ( ) } } ;"];
    let mut v: Vec<Toks> = vec![];
    for m in mods { for k in keys { for t in tails { for f in fr { let mut w = vec![]; for x in split(f) { if x == "#" { w.extend(split(m)); w.extend(split(k)); w.extend(split(t)) } else { w.push(x) } } v.push(w) } } } }
    list(c, "every modifier, key and tail in every class and object", &v, c.q(TOP, &[0, 2, 3, 7, 13, 15]), false, enf);
    // every ordered pair of members
    let mem = ["a ( ) { }", "static a ( ) { }", "get a ( ) { }", "set a ( b ) { }", "* a ( ) { }", "async a ( ) { }", "async * a ( ) { }", "static get a ( ) { }", "static set a ( b ) { }", "static * a ( ) { }", "static async a ( ) { }", "constructor ( ) { }", "static constructor ( ) { }", "get constructor ( ) { }", "'constructor' ( ) { }", "[ 'constructor' ] ( ) { }", "async constructor ( ) { }", "* constructor ( ) { }", "static prototype ( ) { }", "prototype ( ) { }", ";", "get ( ) { }", "set ( ) { }", "static ( ) { }", "async ( ) { }", "static static ( ) { }", "get get ( ) { }", "async async ( ) { }", "'s' ( ) { }", "1 ( ) { }", "[ a ] ( ) { }", "if ( ) { }", "yield ( ) { }", "await ( ) { }", "eval ( ) { }", "a ( b , c ) { }", "get a ( b ) { }", "set a ( ) { }", "set a ( b , c ) { }", "set a ( ... b ) { }"];
    let obj = ["a", "a : b", "a ( ) { }", "get a ( ) { }", "set a ( b ) { }", "* a ( ) { }", "async a ( ) { }", "async * a ( ) { }", "... a", "[ a ] : b", "[ a ] ( ) { }", "'s' : a", "'s' ( ) { }", "1 : a", "get", "set", "async", "static", "get : a", "async : a", "get ( ) { }", "async ( ) { }", "if : a", "if ( ) { }", "a = b", "await", "yield", "let", "of", "get get ( ) { }", "set set ( a ) { }", "async async ( ) { }", "get [ a ] ( ) { }", "set 's' ( a ) { }", "__proto__ ( ) { }", "eval", "arguments : a", "get a ( b ) { }", "set a ( ) { }", "null : a", "true : a", "this : a", "enum : a"];
    let mut v: Vec<Toks> = vec![];
    for a in mem { for b in mem { for f in ["class x { # @ }", "class x extends y { # @ }", "x = class { # @ } ;", "class x { # @ # }"] { let mut w = vec![]; for x in split(f) { match x { "#" => w.extend(split(a)), "@" => w.extend(split(b)), x => w.push(x) } } v.push(w) } } }
    for a in obj { for b in obj { for f in ["x = { # , @ } ;", "( { # , @ } ) ;", "( { # , @ , } ) ;", "( { # , @ } = y ) ;", "( { # , @ } ) => y ;", "x ( { # , @ } ) ;", "[ { # , @ } ] = y ;", "for ( { # , @ } of y ) ;", "x = { # , # , @ } ;", "x = { y : { # , @ } } ;", "async ( { # , @ } ) => y ;", "x = { # @ } ;"] { let mut w = vec![]; for x in split(f) { match x { "#" => w.extend(split(a)), "@" => w.extend(split(b)), x => w.push(x) } } v.push(w) } } }
    list(c, "every ordered pair of members", &v, c.q(&[0, 4], ALL_FRAMES), false, enf | TARGETS);
    lists(c, "long classes and objects", "class obj", c.q(40, 200), c.q(TOP, ALL_FRAMES), enf);
    nest(c, "nested classes and objects", "class obj", c.q(12, 30), TOP, 0);
    after(c, "every class and object, then every probe", "class obj", 1, ALL_FRAMES, enf | CTX | STRICT);
    after(c, "every class and object with every production in it, then every probe", "class obj", 2, c.q(TOP, &[0, 2, 4, 14]), enf | CTX | STRICT);
}
// ---------------------------------------------------------------------------------- C17
fn c17(c: &Check) {
    wide(c, "module items", "mod", TOPMOD, EVERY, Some(DS2N), true);
    dressed(c, "module items", "mod", true);
    let enf = MODS | STRICT | CTX;
    comp(c, "module items, three deep", "mod", c.q(2, 3), TOPMOD, enf, None);
    comp(c, "module items, one-edit neighbours", "mod", 1, TOPMOD, enf, Some(DS2N));
    comp(c, "module items, two deep, one-edit neighbours", "mod", 2, TOPMOD, enf, Some(DS2N));
    sibs(c, "pairs of productions in one module item", "mod", TOPMOD, enf);
    let ins: &'static [&'static str] = Vec::leak(split("a , * { } ( ) as from default 's' ; import export function class async let const var = if NL default get await yield let"));
    comp(c, "insertions and replacements in module items", "mod", 1, TOPMOD, enf, Some(Edits { insert: ins, replace: ins, ..Default::default() }));
    comp(c, "scripts' productions in modules", "-", 2, TOPMOD, enf, None);
    dfs(c, "imports and exports", "", "import export * as from 'a' a , { } default ;", "", c.q(6, 7), true, enf);
    dfs(c, "import clauses", "import", "* as from 'a' a b , { } default", "", c.q(7, 8), true, enf);
    dfs(c, "import specifiers", "import {", "a as , default if from 's' yield }", "from 's' ;", c.q(6, 7), true, enf);
    dfs(c, "export specifiers", "export {", "a as , default if 's' } from ; yield", "", c.q(6, 7), true, enf);
    dfs(c, "exports", "export", "default class function async a ( ) { } ; NL const = var let", "", c.q(5, 6), true, enf);
    dfs(c, "default exports", "export default", "class function async a ( ) { } => * , extends =", "", c.q(5, 7), true, enf);
    dfs(c, "words in import and export", "", "import export { } as from let yield static eval default 's' ;", "", c.q(6, 7), true, enf);
    dfs(c, "imports in scripts", "", "import export * as from 'a' a { } default ( )", "", c.q(5, 7), false, enf);
    lists(c, "long lists of module items", "mod", c.q(40, 200), TOP, enf);
    // items in the places where they are not allowed, after every kind of item, and every pair
    let items = ["import 's' ;", "import a from 's' ;", "import { a } from 's' ;", "import * as a from 's' ;", "import a , { b } from 's' ;", "import a , * as b from 's' ;", "import { } from 's' ;", "import { default as a } from 's' ;", "import { a as b , } from 's' ;", "export * from 's' ;", "export { } ;", "export { a } ;", "export { a as b } ;", "export { a as default } ;", "export { a } from 's' ;", "export { default } from 's' ;", "export { default as a } from 's' ;", "export { if as else } from 's' ;", "export { if } ;", "export { default } ;", "export var a ;", "export let a = b ;", "export const a = b ;", "export const a ;", "export let [ a ] = b ;", "export function a ( ) { }", "export function * a ( ) { }", "export async function a ( ) { }", "export async function * a ( ) { }", "export class a { }", "export function ( ) { }", "export class { }", "export default a ;", "export default a + b ;", "export default ( a , b ) ;", "export default a , b ;", "export default function ( ) { }", "export default function a ( ) { }", "export default function * ( ) { }", "export default async function ( ) { }", "export default async function a ( ) { }", "export default async function * ( ) { }", "export default class { }", "export default class a { }", "export default class extends a { }", "export default async ( ) => a ;", "export default async a => b ;", "export default ( ) => { }", "export default { } ;", "export default [ ] ;", "export default var a ;", "export default let ;", "export default const a = b ;", "export a ;", "export a from 's' ;", "export * as a from 's' ;", "export * ;", "import a ;", "import { a } ;", "import * from 's' ;", "import { if } from 's' ;", "import { if as a } from 's' ;", "import { a as if } from 's' ;", "import { eval } from 's' ;", "import let from 's' ;", "import { yield } from 's' ;", "import { a as yield } from 's' ;", "import { yield as a } from 's' ;", "import await from 's' ;", "import { a b } from 's' ;", "import a b from 's' ;", "import a from b ;", "import from from 's' ;", "import as from 's' ;", "import { as as as } from 's' ;", "import { from } from 's' ;", "import * as as from 's' ;", "import * as from from 's' ;", "export { as as from } ;", "export { as } from 's' ;", "export { from } ;", "export { a as if } ;", "export { a } as b ;", "import ( a ) ;", "import ( a ) . b ( ) ;", "import . meta ;", "import a , b from 's' ;", "import { a } , b from 's' ;", "import * as a , { b } from 's' ;", "export { a , } ;", "export { , } ;", "import { , } from 's' ;", "export default ;", "export default async function", "export async a => b ;", "export { 's' } ;", "import { 's' as a } from 's' ;", "a ;", "function f ( ) { }", "'s' ;", "with ( a ) b ;", "01 ;", "delete a ;", "let = a ;", "yield = a ;", "await = a ;", "await a ;", "var public ;", "return ;", "arguments = a ;", "this ;", "new . target ;", "async function f ( ) { await a }", "export async \n function f ( ) { }", "export default async \n function f ( ) { }", "import 's'", "export { a }", "export * from 's'", "export default a", "export var a", "import a from 's'", "export default class { } \n a"];
    let it: Vec<Toks> = items.iter().map(|p| split(p.replace('\n', "NL").leak())).collect();
    let wraps = ["#", "{ # }", "if ( x ) #", "while ( x ) { # }", "function x ( ) { # }", "x = ( ) => { # } ;", "class x { y ( ) { # } }", "switch ( x ) { case y : # }", "try { # } finally { }", "l : #", "x ; #", "# x", "'use~strict' ; #", "function x ( ) { } #", "do # while ( x )", "for ( ; ; ) #", "x = async function ( ) { # }", "with ( x ) #", "# NL x", "x NL #", "{ } #", "class x { } #", "import 'q' ; #", "export { z } ; #", "export default z ; #", "export default function ( ) { } #", "# export default z ;"];
    let mut v: Vec<Toks> = vec![];
    for w in wraps { for i in &it { let mut o = vec![]; for t in split(w) { if t == "#" { o.extend(i) } else { o.push(t) } } v.push(o) } }
    list(c, "every item in every place of a module", &v, TOPMOD, true, enf); list(c, "every item in every place of a script", &v, ALL_FRAMES, false, enf);
    let mut v: Vec<Toks> = vec![]; for a in &it { for b in &it { let mut w = a.clone(); w.extend(b); v.push(w); let mut w = a.clone(); w.push(NL); w.extend(b); v.push(w) } }
    list(c, "every two items of a module", &v, TOPMOD, true, enf & !DUP_DEFAULT);
    after(c, "every module item with every production in it, then every probe", "mod", 2, TOPMOD, enf);
}
// ---------------------------------------------------------------------------------- C18
fn c18(c: &Check) {
    let cut = Edits { cut: true, delete: true, ..Default::default() };
    comp(c, "every proper prefix and one-token deletion of productions in every context", "-", 1, ALL_FRAMES, EVERY, Some(cut));
    comp(c, "every proper prefix and one-token deletion of pairs of productions", "-", 2, c.q(TOP, &[0, 3, 7, 12]), EVERY, Some(cut));
    comp(c, "every proper prefix and one-token deletion of module items", "mod", 2, TOPMOD, EVERY, Some(cut));
    let br: &'static [&'static str] = &["(", ")", "[", "]", "{", "}"];
    comp(c, "every bracket inserted or put in the place of a token", "-", 1, c.q(&[0, 4, 7, 12], ALL_FRAMES), EVERY, Some(Edits { insert: br, replace: br, ..Default::default() }));
    comp(c, "every bracket inserted or put in the place of a token of a module item", "mod", 1, TOPMOD, EVERY, Some(Edits { insert: br, replace: br, ..Default::default() }));
    if c.thorough() { comp(c, "every bracket inserted or put in the place of a token of pairs of productions", "-", 2, TOP, EVERY, Some(Edits { insert: br, replace: br, ..Default::default() })) }
    dfs(c, "brackets", "", "( ) [ ] { } a , ;", "", c.q(7, 8), false, EVERY);
    dfs(c, "brackets in a function", "function x ( ) {", "( ) [ ] { } a => ;", "", c.q(7, 8), false, EVERY);
    dfs(c, "templates", "", "`h${ }m${ }t` a { } ( )", "", c.q(7, 9), false, EVERY);
    // texts cut inside a token: the reference sees what the tokenizer makes of the rest
    let chop = |l: &mut Local, v: &[&str], m: bool| {
        let t = render(v);
        for (i, _) in t.char_indices() {
            let s = &t[..i];
            let Some(tx) = scan::spans(s) else { l.skipped += 1; continue };
            // what was tokenized must cover the text, and be made of whole tokens
            let w: Vec<&str> = tx.iter().map(|p| &s[p.start..p.end]).collect();
            if w.iter().any(|x| x.is_empty()) { l.skipped += 1; continue }
            let r = refp::parse(&toks(&w), m);
            l.transitions += 1;
            let whole = w.last().map(|x| x.is_empty() || whole_token(x)).unwrap_or(true);
            let covered = tx.last().map(|p| s[p.end..].trim().is_empty()).unwrap_or(s.trim().is_empty());
            let out = engine::exec(s, cfg(m)); l.execs += 1; l.outcome(&out);
            let tree_ok = whole && covered;
            match &out {
                Out::Panic(_) => c.violate(l, Violation { text: s.into(), cfg: cfg(m), expect: "rejected".into(), got: out.show(), why: "the parser panics".into() }),
                Out::Ok(_) if !tree_ok || r.tree.is_none() => c.violate(l, Violation { text: s.into(), cfg: cfg(m), expect: "rejected".into(), got: out.show(), why: "an incomplete text is accepted".into() }),
                Out::Ok(a) if r.tree.as_ref() != Some(a) => c.violate(l, Violation { text: s.into(), cfg: cfg(m), expect: r.tree.clone().unwrap(), got: out.show(), why: "the tree is not the derivation of the text".into() }),
                Out::Err(..) if tree_ok && r.valid() => c.violate(l, Violation { text: s.into(), cfg: cfg(m), expect: r.tree.clone().unwrap(), got: out.show(), why: "a derivable program is rejected".into() }),
                Out::Ok(_) => { l.count("prefix is a program"); l.sample(s) } Out::Err(..) => l.count("prefix is rejected"),
            }
        }
    };
    compose::programs(c, &Comp { name: "every character prefix of productions in every context", firsts: compose::all_firsts(), depth: 1, keep: &|_| true, frames: ALL_FRAMES, pol: pol(0), edits: None, siblings: false }, &|l, v, m| chop(l, v, m));
    compose::programs(c, &Comp { name: "every character prefix of module items", firsts: firsts("mod"), depth: 1, keep: &|_| true, frames: TOPMOD, pol: pol(0), edits: None, siblings: false }, &|l, v, m| chop(l, v, m));
    for (tags, fr) in [("wide", TOP), ("widemod", TOPMOD)] { compose::programs(c, &Comp { name: "every character prefix of all combinations of the parts of each construct", firsts: firsts(tags), depth: 1, keep: &|_| true, frames: fr, pol: pol(0), edits: None, siblings: false }, &|l, v, m| { let t = render(v); if !v.contains(&NL) && refp::parse(&toks(v), m).valid() || c.thorough() && t.len() < 60 && !v.contains(&NL) { chop(l, v, m) } }) }
    compose::programs(c, &Comp { name: "every character prefix of pairs of productions", firsts: compose::all_firsts(), depth: 2, keep: &|_| true, frames: TOP, pol: pol(0), edits: None, siblings: false }, &|l, v, m| chop(l, v, m));
}
/// Is this token text complete (a string, template or regular expression that is closed)?
fn whole_token(t: &str) -> bool {
    let n = t.len(); let b = t.as_bytes();
    match b[0] {
        b'\'' | b'"' => n > 1 && b[n - 1] == b[0] && !t[1..n - 1].contains(b[0] as char),
        b'`' => n > 1 && (b[n - 1] == b'`' || t.ends_with("${")),
        b'}' => n == 1 || b[n - 1] == b'`' || t.ends_with("${"),
        b'/' if n > 1 && b[1] == b'*' => t.ends_with("*/") && n > 3,
        _ => true,
    }
}
// ---------------------------------------------------------------------------------- C19
fn c19(c: &Check) {
    let enf = STRICT;
    let strict: &[usize] = &[13, 14, 15, 7, 8];
    comp(c, "productions, two deep, in strict code", "-", 2, c.q(&[13, 14], strict), enf, None);
    comp(c, "one-edit neighbours of productions in strict code", "-", 1, strict, enf, Some(DS2N));
    let ws = split("let static yield implements interface package private protected public eval arguments await async get of as");
    words(c, "restricted words in every identifier place in strict code", "-", 1, ALL_FRAMES, &ws, enf);
    words(c, "restricted words in every identifier place of pairs in strict code", "-", 2, c.q(&[14], strict), &split("eval let static"), enf);
    dfs(c, "strict code", "'use~strict' ;", "let static yield implements a = ( ) => with delete arguments 01 eval", "", c.q(5, 6), false, enf);
    dfs(c, "strict functions", "function a ( ) {", "'use~strict' ; NL let static with a ( ) 01 +", "}", c.q(6, 7), false, enf);
    dfs(c, "prologues", "", "'use~strict' 's' ; NL a 01 + . ( ) ,", "", c.q(6, 7), false, enf);
    dfs(c, "prologues and functions", "", "'use~strict' function f ( ) { } eval ; yield", "", c.q(8, 9), false, enf);
    dfs(c, "strict targets", "'use~strict' ; (", "eval arguments a = ++ , { } [ ] : ) => 1", "", c.q(5, 6), false, enf | TARGETS);
    // sensitive statements in every place relative to a directive
    let st = ["with ( a ) b ;", "delete a ;", "delete ( a ) ;", "delete a . b ;", "delete this ;", "eval = a ;", "arguments = a ;", "eval ++ ;", "-- arguments ;", "eval += a ;", "[ eval ] = a ;", "( { eval } = a ) ;", "( { a : arguments } = b ) ;", "( { eval = a } = b ) ;", "[ ... eval ] = a ;", "var eval ;", "let arguments = a ;", "var { eval } = a ;", "var [ arguments ] = a ;", "function eval ( ) { }", "function f ( eval ) { }", "function f ( { eval } ) { }", "function f ( ... arguments ) { }", "function f ( a = eval ) { }", "eval => a ;", "( eval ) => a ;", "( { arguments } ) => a ;", "async eval => a ;", "async ( arguments ) => a ;", "x = function eval ( ) { } ;", "class eval { }", "x = class arguments { } ;", "try { } catch ( eval ) { }", "for ( eval in a ) ;", "for ( var eval of a ) ;", "x = { set a ( eval ) { } } ;", "x = { eval : a } ;", "x = { eval } ;", "x . eval ;", "eval ( a ) ;", "arguments [ 0 ] ;", "eval : a ;", "01 ;", "07 + a ;", "08 ;", "0 ;", "'\\01' ;", "x = '\\1' ;", "yield ;", "yield = a ;", "var yield ;", "yield : a ;", "x . yield ;", "x = { yield : a } ;", "x = { yield } ;", "let = a ;", "var let ;", "let : a ;", "static = a ;", "var static ;", "implements : a ;", "var interface ;", "package ++ ;", "function private ( ) { }", "function f ( protected ) { }", "class public { }", "x . static ;", "x = { let : a } ;", "if ( a ) function f ( ) { }", "if ( a ) ; else function f ( ) { }", "a : function f ( ) { }", "import_ ( a ) ;", "await = a ;", "var await ;", "async = a ;", "get = a ;", "of = a ;", "function f ( a , a ) { }", "x = function yield ( ) { } ;", "x = class let { } ;", "class a extends eval { }", "class a { eval ( ) { } }", "class a { static static ( ) { } }", "enum = a ;", "undefined = a ;", "( eval ) = a ;", "typeof eval ;", "new eval ;", "for ( let in a ) ;", "for ( let = 0 ; ; ) ;", "for ( let of a ) ;"];
    let pl = ["#", "'~use~strict' ; #", "'use~strict~' ; #", "'use~~strict' ; #", "'usestrict' ; #", "'use~stricts' ; #", "'\"use~strict\"' ; #", "`use~strict` ; #", "'s' . a ; 'use~strict' ; #", "'s' + a ; 'use~strict' ; #", "'s' , a ; 'use~strict' ; #", "( 's' ) ; 'use~strict' ; #", "'s' ( a ) ; 'use~strict' ; #", "'s' NL . a NL 'use~strict' NL #", "'s' NL 'use~strict' NL #", "'s' ; 't' ; 'use~strict' ; #", "'use~strict' ( a ) ; #", "'use~strict' in a ; #", "'use~strict' NL ( a ) ; #", "'use~strict' NL / a / b ; #", "'use~strict' ? a : b ; #", "'use~strict' NL + a ; #", "'use~strict' NL [ 0 ] ; #", "'use~strict' NL . a ; #", "'use~strict' `t` ; #", "'use~strict' ; 'use~strict' ; #", "'use~strict' ; 's' ; #", "'use~strict' ; ; #", "! 'use~strict' ; #", "x = 'use~strict' ; #", "x ( 'use~strict' ) ; #", "l : 'use~strict' ; #", "if ( x ) 'use~strict' ; #", "{ } 'use~strict' ; #", "; 's' ; 'use~strict' ; #", "class z { } 'use~strict' ; #", "function z ( ) { } 'use~strict' ; #", "var x = 'use~strict' ; #", "'use~strict' ; } { #", "function z ( ) { 's' . a ; 'use~strict' ; # }", "function z ( ) { 's' + a ; 'use~strict' ; # }", "function z ( ) { 's' , a ; 'use~strict' ; # }", "function z ( ) { ( 'use~strict' ) ; # }", "function z ( ) { 'use~strict' + a ; # }", "function z ( ) { 'use~strict' . a ; # }", "function z ( ) { 'use~strict' , a ; # }", "function z ( ) { 'use~strict' NL + a ; # }", "function z ( ) { 'use~strict' NL ( a ) ; # }", "function z ( ) { 'use\\u0020strict' ; # }", "function z ( ) { '~use~strict' ; # }", "function z ( ) { ; 'use~strict' ; # }", "function z ( ) { { 'use~strict' ; } # }", "function z ( ) { 's' NL 'use~strict' NL # }", "x = ( ) => { 's' ; 'use~strict' ; # } ;", "x = ( ) => { a ; 'use~strict' ; # } ;", "x = ( ) => { ( 'use~strict' ) ; # } ;", "x = ( ) => { 'use~strict' . a ; # } ;", "x = { get z ( ) { a ; 'use~strict' ; # } } ;", "x = { set z ( y ) { 'use~strict' ; # } } ;", "x = { set z ( y ) { 'use~strict' ; } , w ( ) { # } } ;", "x = { * z ( ) { 'use~strict' ; # } } ;", "x = { async z ( ) { 'use~strict' ; # } } ;", "x = { async z ( ) { 'use~strict' } , w ( ) { # } } ;", "x = { [ function ( ) { 'use~strict' ; } ] : function ( ) { # } } ;", "class z extends class { w ( ) { # } } { }", "class z { static get w ( ) { # } }", "class z { set w ( y ) { # } }", "class z { static set w ( y ) { # } }", "class z { * w ( ) { # } }", "class z { async w ( ) { # } }", "class z { constructor ( ) { # } }", "class z { w ( ) { x = ( ) => { # } } }", "class z { w ( ) { function v ( ) { # } } }", "class z { w ( ) { } } function v ( ) { # }", "x = class { w ( ) { } } ; y = ( ) => { # } ;", "function z ( ) { class y { } # }", "function z ( ) { x = class { } ; # }", "function z ( ) { class y extends x { constructor ( ) { super ( ) } } # }", "x = [ class { } , function ( ) { # } ] ;", "x = ( y = class { } ) => { # } ;", "function z ( y = class { } ) { # }", "function z ( y = function ( ) { 'use~strict' } ) { # }", "x = ( y = function ( ) { 'use~strict' } ) => { # } ;", "for ( ; class { } ; ) { # }", "for ( x of class { } ) { # }", "switch ( class { } ) { case y : # }", "try { 'use~strict' ; } finally { # }", "'use~strict' ; function z ( ) { } #", "'use~strict' ; class z { } #", "'use~strict' ; x = ( ) => { } ; #", "'use~strict' ; x = class { } ; function z ( ) { # }", "'use~strict' ; x = ( ) => y ; z : { # }", "function z ( ) { 'use~strict' } function w ( ) { # }", "function z ( ) { 'use~strict' } x = ( ) => { # } ;", "function z ( ) { function w ( ) { 'use~strict' } function v ( ) { # } }", "function z ( ) { 'use~strict' ; function w ( ) { } # }", "function z ( ) { 'use~strict' ; class w { } # }", "function z ( ) { 'use~strict' ; x = { w ( ) { } } ; # }", "x = y => { 'use~strict' } ; #", "x = async y => { 'use~strict' } ; #", "x = async y => { 'use~strict' ; # } ;", "x = function * ( ) { 'use~strict' ; # } ;", "x = async function ( ) { 'use~strict' } ; #", "'use~strict' ; #", "'use~strict' NL #", "\"use~strict\" ; #", "'a' ; 'use~strict' ; #", "a ; 'use~strict' ; #", "( 'use~strict' ) ; #", "'use~strict' , a ; #", "'use~strict' + a ; #", "'use~strict' . a ; #", "'use  strict' ; #", "'USE~STRICT' ; #", "'use\\u0020strict' ; #", "; 'use~strict' ; #", "{ 'use~strict' ; # }", "{ 'use~strict' ; } #", "function z ( ) { 'use~strict' ; # }", "function z ( ) { 'use~strict' ; } #", "# function z ( ) { 'use~strict' ; }", "function z ( ) { # 'use~strict' ; }", "function z ( ) { # function w ( ) { 'use~strict' ; } }", "function z ( ) { function w ( ) { 'use~strict' ; } # }", "'use~strict' ; function z ( ) { # }", "'use~strict' ; { # }", "'use~strict' ; if ( x ) { # }", "x = function ( ) { 'use~strict' ; # } ;", "x = function ( ) { 'use~strict' ; } ; #", "x = ( ) => { 'use~strict' ; # } ;", "x = ( ) => { 'use~strict' ; } ; #", "x = y => { 'use~strict' ; # } ;", "x = async ( ) => { 'use~strict' ; # } ;", "x = async ( ) => { 'use~strict' } ; #", "x = { z ( ) { 'use~strict' ; # } } ;", "x = { z ( ) { 'use~strict' ; } , w ( ) { # } } ;", "x = { get z ( ) { 'use~strict' ; # } } ;", "x = { get z ( ) { 'use~strict' ; } } ; #", "class z { w ( ) { # } }", "class z { w ( ) { } } #", "class z { static w ( ) { # } }", "class z { [ function ( ) { # } ] ( ) { } }", "class z extends ( function ( ) { # } ) { }", "x = class { w ( ) { # } } ;", "x = class { } ; #", "x = class extends y { constructor ( ) { # } } ; a ;", "# class z { }", "function * z ( ) { 'use~strict' ; # }", "function * z ( ) { 'use~strict' } #", "async function z ( ) { 'use~strict' ; # }", "async function z ( ) { 'use~strict' } #", "'use~strict' ; x = ( ) => { # } ;", "'use~strict' ; x = { w ( ) { # } } ;", "'use~strict' ; x = ( y = function ( ) { # } ) => z ;", "function z ( a = function ( ) { # } ) { }", "try { } catch ( z ) { 'use~strict' ; # }", "switch ( x ) { case y : 'use~strict' ; # }", "if ( x ) { 'use~strict' ; } #", "function z ( ) { 'a' ; 'use~strict' ; # }", "function z ( ) { 'use~strict' ; 'a' ; # }", "function z ( ) { a ; 'use~strict' ; # }", "function z ( ) { 'use~strict' NL # }", "x ( function ( ) { 'use~strict' ; } , function ( ) { # } ) ;", "x ( function ( ) { # } , function ( ) { 'use~strict' ; } ) ;", "`h${ function ( ) { 'use~strict' ; } }t` ; #"];
    let mut v: Vec<Toks> = vec![]; for p in pl { for s in st { let s = split(s); let mut w = vec![]; for t in split(p) { if t == "#" { w.extend(&s) } else { w.push(t) } } v.push(w) } }
    list(c, "every sensitive statement in every place relative to a directive", &v, c.q(&[0, 1, 5, 14], ALL_FRAMES), false, enf);
    // a directive in the body and names outside of it
    let heads = ["function # ( ) { 'use~strict' }", "function z ( # ) { 'use~strict' }", "function z ( a , # ) { 'use~strict' ; }", "x = function # ( ) { 'use~strict' } ;", "x = function ( # ) { 'use~strict' } ;", "x = ( # ) => { 'use~strict' } ;", "x = # => { 'use~strict' } ;", "x = async ( # ) => { 'use~strict' } ;", "x = async # => { 'use~strict' } ;", "x = { # ( ) { 'use~strict' } } ;", "x = { z ( # ) { 'use~strict' } } ;", "x = { set z ( # ) { 'use~strict' } } ;", "function * z ( # ) { 'use~strict' }", "async function z ( # ) { 'use~strict' }", "async function # ( ) { 'use~strict' }", "function * # ( ) { 'use~strict' }", "class # { }", "class z { # ( ) { 'use~strict' } }", "class z { a ( # ) { 'use~strict' } }", "class z extends # { }", "function z ( a = # ) { 'use~strict' }", "function z ( { # } ) { 'use~strict' }", "function z ( ... # ) { 'use~strict' }", "( # ) => { 'use~strict' }", "function # ( a ) { 'a' ; 'use~strict' }", "function # ( a ) { a ; 'use~strict' }", "function # ( ) { function z ( ) { 'use~strict' } }", "function z ( # ) { function y ( ) { 'use~strict' } }", "x = class # { } ;", "class z { static # ( ) { } }"];
    let nm = split("a eval arguments let static yield implements interface package private protected public await async get set of as from target");
    let mut v: Vec<Toks> = vec![]; for h in heads { for n in &nm { v.push(split(h).into_iter().map(|t| if t == "#" { *n } else { t }).collect()) } }
    list(c, "every word in every head of a strict function", &v, ALL_FRAMES, false, enf);
    // parameter lists of every kind in front of every kind of directive
    let kinds = ["%", "% = 1", "[ % ]", "{ % }", "{ q : % }", "[ % ] = 1", "{ % = 1 }", "... %", "... [ % ]", "eval", "static", "yield"];
    let mut lists_: Vec<Toks> = vec![vec![]]; let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..c.q(3, 4) {
        let mut next = vec![];
        for x in &last { if x.last().map(|k| kinds[*k].starts_with("...")).unwrap_or(false) { continue } for k in 0..kinds.len() { if k >= 9 && x.iter().any(|y| *y >= 9) { continue } let mut y = x.clone(); y.push(k); next.push(y) } }
        for x in &next { let mut w: Toks = vec![]; for (i, k) in x.iter().enumerate() { if i > 0 { w.push(",") } w.extend(split(kinds[*k]).into_iter().map(|t| if t == "%" { ["a", "b", "d", "g"][i] } else { t })) } lists_.push(w) }
        last = next;
    }
    let hs = ["function z ( # ) { @ }", "x = function ( # ) { @ } ;", "x = ( # ) => { @ } ;", "x = async ( # ) => { @ } ;", "x = { m ( # ) { @ } } ;", "async function z ( # ) { @ }", "function * z ( # ) { @ }", "x = { set m ( # ) { @ } } ;", "x = { async * m ( # ) { @ } } ;", "class z { constructor ( # ) { @ } }"];
    let mut v: Vec<Toks> = vec![];
    for h in hs { for b in ["'use~strict'", "'s' ; 'use~strict'", "'s'", "a ; 'use~strict'"] { for x in &lists_ { let mut w = vec![]; for t in split(h) { match t { "#" => w.extend(x), "@" => w.extend(split(b)), t => w.push(t) } } v.push(w) } } }
    list(c, "every list of parameters in front of a directive", &v, c.q(TOP, &[0, 1, 3, 7, 13, 14, 15]), false, enf);
    // functions inside of functions, each with parameters and a prologue of its own
    let forms = ["function z ( # ) { @ }", "x = function ( # ) { @ } ;", "x = ( # ) => { @ } ;", "x = async ( # ) => { @ } ;", "x = { m ( # ) { @ } } ;", "async function z ( # ) { @ }", "function * z ( # ) { @ }", "x = { set m ( # ) { @ } } ;", "x = { get m ( ) { @ } } ;", "x = { async * m ( # ) { @ } } ;", "class z { constructor ( # ) { @ } }", "class z { static m ( # ) { @ } }"];
    let put = |f: &'static str, p: &[&'static str], b: &[&'static str]| -> Toks { let mut w: Toks = vec![]; for t in f.split(' ') { match t { "#" => w.extend(p.iter()), "@" => w.extend(b.iter()), t => w.push(split(t)[0]) } } w };
    let ps = ["", "a", "a = 1", "[ a ]", "... a"];
    let mut inner: Vec<Toks> = vec![];
    for f in forms { for p in ps { if f.contains("set") && p != "a" && p != "a = 1" || f.contains("get") && p != "" { continue } for b in ["'use~strict' ;", "'s' ; 'use~strict' ;", "with ( b ) c ;", "static ;", "eval = 1 ;", ""] { inner.push(put(f, &split(p), &split(b))) } } }
    let outer: Vec<(usize, usize, usize)> = (0..forms.len()).flat_map(|f| (0..ps.len()).flat_map(move |p| (0..3).map(move |b| (f, p, b)))).collect();
    let deep = c.thorough();
    c.par(&outer, |&(f, p, b), l| {
        let (form, ps_) = (forms[f], ps[p]); if form.contains("set") && ps_ != "a" && ps_ != "a = 1" || form.contains("get") && ps_ != "" { return }
        for i in &inner { for (pre, post) in [("", ""), ("", "with ( b ) c ;"), ("", "eval = 1 ;"), ("a ;", ""), ("if ( a ) {", "}"), ("x = {", "") , ("", "'use~strict' ; static ;")] {
            if c.over() { return }
            if pre == "x = {" {
                // in the place of a default value
                if ps_ != "a = 1" || i[0] == "class" || i[0] != "x" { continue }
                let e = &i[2..i.len() - 1]; let mut q: Toks = vec!["a", "="]; q.extend(e);
                for d in [["", "'use~strict' ;", "'s' ;"][b], "with ( b ) c ;"] { let v = put(form, &q, &split(d)); l.states += 1; compose::examine(c, l, &v, SCRIPT, pol(enf)); }
                continue
            }
            let mut body = split(["", "'use~strict' ;", "'s' ;"][b]); body.extend(split(pre)); body.extend(i); body.extend(split(post));
            let v = put(form, &split(ps_), &body); l.states += 1; compose::examine(c, l, &v, SCRIPT, pol(enf));
            let mut w = v.clone(); w.extend(split("with ( b ) c ;")); compose::examine(c, l, &w, SCRIPT, pol(enf));
            if deep { for g in forms { if g.contains("set") || g.contains("get") { continue } for q in ps { let u = put(g, &split(q), &v); compose::examine(c, l, &u, SCRIPT, pol(enf)); } } }
        } }
    });
    c.note(format!("every function with a prologue ({}) inside every function with a prologue, in front of, behind and instead of other code", inner.len()));
    leftovers(c, ALL_FRAMES, enf);
}
// ---------------------------------------------------------------------------------- C20
fn c20(c: &Check) {
    lists(c, "every list-like construct with every number of elements", "-", c.q(70, 300), TOP, EVERY);
    lists_at(c, "every list-like construct with about a power of two elements", "-", c.q(&[127, 128, 129, 130, 255, 256, 257, 258, 511, 513, 1000], &[511, 512, 513, 514, 1000, 1023, 1024, 1025, 2047, 2049]), TOP, EVERY);
    lists_of_kind(c, "long lists", "-", c.q(&[2047, 2048, 2049, 4096, 4097, 5001], &[2047, 2048, 2049, 4095, 4096, 4097, 5001, 8193, 10001, 16385, 32769, 65537]), TOP, EVERY, true);
    lists(c, "every list-like construct in every context", "-", c.q(12, 70), ALL_FRAMES, EVERY);
    nest(c, "every two productions nested in each other alternately", "-", c.q(30, 100), TOP, EVERY);
    nest(c, "every two productions nested in each other, in every context", "-", c.q(6, 16), ALL_FRAMES, EVERY);
    // a long program before and after each production
    let items: Vec<Ref> = compose::all_firsts();
    let sizes = c.q(vec![1, 7, 16, 33, 64, 130, 257], vec![1, 2, 3, 7, 8, 15, 16, 17, 31, 33, 63, 64, 65, 127, 130, 255, 257, 513, 1025]);
    c.par(&items, |&r, l| {
        for f in 0..gen::frames(r.get().cat) { if let Some(v) = gen::program(&gen::Der { p: r, kids: vec![] }, f) { for &n in &sizes { for filler in ["a ;", "function f ( ) { return }", "{ }", "l : while ( a ) { break l ; }", "x = ( a ) => { } ;", "'s' ;", "x = `h${ a }t` ;", "class k { m ( ) { } }", "if ( a ) b ; else c ;", "x = [ { y : z } ] ;"] {
            if c.over() { return }
            let fl = split(filler); let mut w: Toks = vec![]; for _ in 0..n { w.extend(&fl) } w.extend(&v); for _ in 0..n / 3 { w.extend(&fl) }
            l.states += 1; compose::examine(c, l, &w, SCRIPT, pol(EVERY));
        } } } }
    });
    c.note(format!("every production after and before {:?} statements of ten kinds", sizes));
    c.par(&items, |&r, l| for (filler, n) in [("a ;", 1024), ("a ;", 4097), ("f ( ) ;", 2050), ("function f ( ) { }", 1025), ("( a ) => b ;", 513), ("{ let a ; }", 513)] {
        if c.over() { return }
        if let Some(v) = gen::program(&gen::Der { p: r, kids: vec![] }, 0) { let fl = split(filler); let mut w: Toks = vec![]; for _ in 0..n { w.extend(&fl) } w.extend(&v); w.extend(&fl); l.states += 1; compose::examine(c, l, &w, SCRIPT, pol(EVERY)); }
    });
    c.note("every production after 513 to 4097 statements of six kinds".into());
    // tokens of every length
    let mut al: Vec<usize> = (1..c.q(400, 2000)).collect(); for p in 9..17 { for n in [(1 << p) - 1, 1 << p, (1 << p) + 1] { if n > *al.last().unwrap() { al.push(n) } } } al.push(70_001);
    c.par(&al, |&n, l| {
        let s: Vec<String> = vec!["a".repeat(n), format!("'{}'", "b".repeat(n)), format!("`{}`", "c".repeat(n)), "1".repeat(n), format!("/{}/g", "d".repeat(n)), format!("\"{}\"", "\u{e9}".repeat(n))];
        for t in &s { for p in ["x = # ;", "f ( # , y ) ;", "x = [ # , # ] ;", "# ;", "x = { # : y } ;", "function f ( ) { return # ; }"] { let w: Vec<&str> = split(p).into_iter().map(|k| if k == "#" { &t[..] } else { k }).collect(); l.states += 1; compose::examine(c, l, &w, SCRIPT, pol(0)); } }
        let pad = " ".repeat(n); let nls = "\n".repeat(n);
        for (t, w) in [(format!("a{}+{}b;", pad, pad), "a + b ;"), (format!("{}a;{}", nls, nls), "a ;"), (format!("a{}b", nls), "a NL b"), (format!("a/*{}*/;", pad), "a ;"), (format!("//{}\na", pad), "NL a")] { let w = split(w); let r = refp::parse(&toks(&w), false); l.states += 1; l.transitions += 1; judge(c, l, &w, &t, SCRIPT, &r, pol(0)); }
    });
    c.note(format!("tokens, blanks and comments of every length up to {} and near powers of two up to 70001", c.q(399, 1999)));
}
// ---------------------------------------------------------------------------------- C21
/// All ways to parse one text.
pub fn same(c: &Check, l: &mut Local, text: &str, m: bool, tol: bool) -> (Out, imp::Iter) {
    let k = Cfg { module: m, tolerant: tol };
    let p = engine::exec(text, k); l.execs += 1; l.transitions += 1; l.outcome(&p);
    let mut bad: Vec<String> = vec![];
    let it = engine::run(text, k, || imp::iterate(text, k, text.len() + 3));
    let joined = { let mut s = String::from(if m { "(module" } else { "(script" }); for x in &it.parts { s.push(' '); s.push_str(x) } s.push(')'); s };
    match (&p, &it.end) {
        (Out::Ok(s), imp::End::Done) => if *s != joined { bad.push(format!("iterating yields {}", joined)) },
        (Out::Err(a, b, d), imp::End::Err(x, y, z)) => if (a, b, d) != (x, y, z) { bad.push(format!("iterating ends in {} at {:?}: {}", x, y, z)) },
        (Out::Panic(_), _) => {}
        (_, e) => bad.push(format!("iterating ends in {:?}", e)),
    }
    for (name, o) in engine::run(text, k, || imp::entries(text, k)) { if o != p { bad.push(format!("{}: {}", name, o.show())) } }
    match &p { Out::Ok(_) => { l.count("accepted"); l.sample(text) } _ => l.count("rejected") }
    for b in bad { c.violate(l, Violation { text: text.into(), cfg: k, expect: p.show(), got: b, why: "entry points disagree".into() }) }
    (p, it)
}
fn c21(c: &Check) {
    let e = Edits { delete: true, ..Default::default() };
    let sweep = |name: &str, tags: &str, depth: usize, frames: &[usize]| compose::programs(c, &Comp { name, firsts: firsts(tags), depth, keep: &|_| true, frames, pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
        same(c, l, &render(v), m, false); same(c, l, &render(v), m, true);
        compose::edits(v, e, &mut |w| { same(c, l, &render(w), m, false); if c.thorough() { same(c, l, &render(w), m, true); } });
    });
    sweep("productions in every context and their one-token deletions", "-", 1, ALL_FRAMES);
    sweep("module items and their one-token deletions", "mod", 2, TOPMOD);
    sweep("pairs of productions and their one-token deletions", "-", 2, TOP);
    for (tags, fr) in [("wide", TOP), ("widemod", TOPMOD)] { compose::programs(c, &Comp { name: "all combinations of the parts of each construct", firsts: firsts(tags), depth: 1, keep: &|_| true, frames: fr, pol: pol(0), edits: None, siblings: false }, &|l, v, m| { same(c, l, &render(v), m, false); if c.thorough() { same(c, l, &render(v), m, true); compose::edits(v, e, &mut |w| { same(c, l, &render(w), m, false); }) } }) }
    // an expression by itself
    let expr = |name: &str, depth: usize| compose::programs(c, &Comp { name, firsts: compose::all_firsts(), depth, keep: &|d| gen::frames(d.p.get().cat) == 2, frames: TOP, pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
        if v[0] != "x" || v[1] != "=" { return }
        let end = v.len() - if *v.last().unwrap() == ";" { 1 } else { 0 };
        for (m, tolerant) in [(m, false), (true, false), (m, true)] {
            let k = Cfg { module: m, tolerant };
            let mut w: Toks = vec!["("]; w.extend(&v[2..end]); w.push(")"); let text = render(&w);
            let whole = engine::exec(&format!("{} ;", text), k); l.execs += 2; l.transitions += 1;
            let Out::Ok(t) = &whole else { l.count("expression rejected"); continue };
            // `( ... ) => ...` and the like are no parenthesized expressions
            for (t2, what) in [(text.clone(), "in parentheses"), (render(&v[2..end]), "alone")] {
                let got = engine::run(&t2, k, || imp::expression(&t2, k)); l.outcome(&got); l.count("expression by itself compared");
                if !scan::splits_as(&t2, if what == "alone" { &v[2..end] } else { &w }) { l.skipped += 1; continue }
                let whole = match &got { Out::Ok(e) => Out::Ok(format!("({} (es {}))", if m { "module" } else { "script" }, e)), o => o.clone() };
                if whole != Out::Ok(t.clone()) { c.violate(l, Violation { text: t2, cfg: k, expect: t.clone(), got: got.show(), why: format!("parse_expression disagrees with parse on an expression {}", what) }) }
            }
        }
    });
    expr("expressions by themselves, two deep", 2); if c.thorough() { expr("expressions by themselves, three deep", 3) }
    // parts yielded before an error: those of the program in front of it
    let bad = [")", "a b", "} ;", "return ;", "1 = 2 ;", "var 1 ;", "if", "( a", "{ a", "const a ;", "break ;", "throw \n a", "class a {", "`h${", "a => {", "for ( ; )", "super ;", "a ? b", "function ( ) { }"];
    let bads: Vec<Toks> = bad.iter().map(|b| split(b.replace('\n', "NL").leak())).collect();
    let prefix = |name: &str, depth: usize, tags: &str, frames: &[usize]| compose::programs(c, &Comp { name, firsts: firsts(tags), depth, keep: &|_| true, frames, pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
        if !matches!(*v.last().unwrap(), ";" | "}") { return }
        let r = refp::parse(&toks(v), m); if !r.valid() { return }
        let want = r.tree.unwrap();
        // the last statement must be complete: a semicolon would be another one
        if v.last() == Some(&"}") { let mut x = v.to_vec(); x.push(";"); if refp::parse(&toks(&x), m).tree.as_ref() == Some(&want) { return } }
        for b in &bads {
            let mut w: Toks = v.to_vec(); w.extend(b);
            let r2 = refp::parse(&toks(&w), m); if r2.tree.is_some() && r2.bits & !EVERY != 0 || r2.valid() { continue }
            let text = render(&w);
            let (p, it) = same(c, l, &text, m, false);
            if p.is_ok() || !scan::splits_as(&text, &w) { continue }
            let joined = { let mut s = String::from(if m { "(module" } else { "(script" }); for x in &it.parts { s.push(' '); s.push_str(x) } s.push(')'); s };
            l.count("parts before an error compared");
            if joined != want { c.violate(l, Violation { text, cfg: cfg(m), expect: format!("the parts {} before the error", want), got: format!("{} and {:?}", joined, it.end), why: "parts before an error are lost or wrong".into() }) }
        }
    });
    prefix("an error after every production", 1, "-", TOP); prefix("an error after every module item", 1, "mod", TOPMOD); prefix("an error after every pair of productions", 2, c.q("exprstmt decl fn class loop block if switch try label", "-"), TOP);
    let chars = words_of(&["a", "1", "'", "`", "/", "*", "\n", " ", "{", "}", "(", ")", "=", ";", ",", "[", "]", "."], c.q(3, 4));
    c.par(&chars, |s, l| { if c.over() || scan::spans(s).is_none() { return } l.states += 1; for k in CFGS { same(c, l, s, k.module, k.tolerant); } });
    c.note(format!("every text of up to {} of 18 characters", c.q(3, 4)));
    borrowed(c, ENTRIES, &["C15", "C17", "C19"]);
}
// ---------------------------------------------------------------------------------- C22
/// Tolerance on against tolerance off.
pub fn tolerance(c: &Check, l: &mut Local, v: &[&str], t: &str, m: bool) {
    let a = engine::exec(t, cfg(m)); let b = engine::exec(t, Cfg { module: m, tolerant: true }); l.execs += 2; l.transitions += 1; l.outcome(&b);
    let bad = match (&a, &b) { (Out::Panic(_), _) | (_, Out::Panic(_)) => true, (Out::Ok(x), Out::Ok(y)) => x != y, (Out::Ok(_), _) => true, _ => false };
    match (&a, &b) { (Out::Ok(_), _) => l.count("accepted by both"), (_, Out::Ok(_)) => { l.count("tolerated"); l.sample(t) } _ => l.count("rejected by both") }
    if bad { if !scan::splits_as(t, v) { l.skipped += 1; return } c.violate(l, Violation { text: t.into(), cfg: Cfg { module: m, tolerant: true }, expect: a.show(), got: b.show(), why: "tolerance changes the meaning of a program".into() }); return }
    // what is tolerated must still be the derivation of the text, if the grammar has one
    if let (Out::Err(..), Out::Ok(y)) = (&a, &b) {
        let r = refp::parse(&toks(v), m);
        if let Some(x) = &r.tree { l.count("tolerated derivation compared"); if x != y { if !scan::splits_as(t, v) { l.skipped += 1; return } c.violate(l, Violation { text: t.into(), cfg: Cfg { module: m, tolerant: true }, expect: format!("accepted: {}", x), got: b.show(), why: "the tree of a tolerated program is not its derivation".into() }) } }
    }
}
// ---------------------------------------------------------------------------------- C23
/// What an error says: the token it names, its printed form, its kind.
pub fn said(c: &Check, l: &mut Local, v: &[&str], text: &str, k: Cfg) {
    let Some(e) = engine::run(text, k, || imp::error(text, k)) else { l.count("accepted"); return };
    l.execs += 1; l.transitions += 1;
    let imp::Said { kind, pos, msg, shown, .. } = &e;
    l.outcome(&Out::Err(kind, *pos, String::new()));
    let Some(tx) = scan::tokens(text) else { l.skipped += 1; return };
    let mut bad: Vec<String> = vec![];
    let r = refp::parse(&toks(v), k.module);
    let only = |b: u64| r.tree.is_some() && r.bits & b != 0 && r.bits & !b == 0;
    for (b, want) in [(GETTER_PARAMS, "InvalidGetterParams"), (SETTER_PARAMS, "InvalidSetterParams"), (LABEL_DUP, "Redecl")] { if only(b) { l.count("the only fault is known"); if *kind != want { bad.push(format!("{}, for {:?} is the only fault", want, refp::bit_names(b))) } } }
    match kind {
        &"UnexpectedToken" => {
            let at = pos.unwrap();
            // the token at that place
            let tok = tx.iter().find(|t| line_col(text, t.start) == at);
            if let Some(found) = msg.split_once("; found ").map(|x| x.1) {
                let want = tok.map(|t| t.debug.clone()).unwrap_or("EoF".into());
                l.count("found token compared");
                if msg.starts_with("Expected ") && found != want && !(found == "Null" && tok.map(|t| &text[t.start..t.end]) == Some("null")) { bad.push(format!("an error about {}", want)) }
            } else if let Some(rest) = msg.strip_prefix("Found unexpected token: ") {
                let want = tok.map(|t| text[t.start..t.end].to_string()).unwrap_or_default();
                l.count("unexpected token compared");
                if !rest.starts_with(&want) || !rest[want.len()..].starts_with("; ") { bad.push(format!("an error about {:?}", want)) }
            }
        }
        &"InvalidGetterParams" => { l.count("getter parameters"); if if r.tree.is_some() { r.seen & GETTER_PARAMS == 0 } else { !v.contains(&"get") } { bad.push("an error about something else than a getter's parameters: no getter has any".into()) } }
        &"InvalidSetterParams" => { l.count("setter parameters"); if if r.tree.is_some() { r.seen & SETTER_PARAMS == 0 } else { !v.contains(&"set") } { bad.push("an error about something else than a setter's parameters: all setters have one".into()) } }
        &"Redecl" => { l.count("label declared twice"); if r.seen & (LABEL_DUP | DUP_PROTO) == 0 { bad.push("an error about something else than a name declared twice: none is".into()) } else if r.seen & DUP_PROTO == 0 && !v.contains(&&msg[..]) { bad.push("the label's name".into()) } }
        &"NonStrictFeatureInStrictContext" => { l.count("strict"); if r.seen & (STRICT | DIR_NONSIMPLE) == 0 { bad.push("an error about something else than strict code: no strict rule is broken".into()) } }
        &"UnableToReinterpret" => l.count("no pattern"),
        k => { l.count("other"); bad.push(format!("an error about the text, not {}", k)) }
    }
    if let Some(p) = pos { if !shown.contains(&format!("{}:{}", p.0, p.1)) { bad.push(format!("a printed form with the position {}:{}", p.0, p.1)) } }
    if matches!(*kind, "UnexpectedToken" | "NonStrictFeatureInStrictContext" | "Redecl") && !shown.contains(&msg[..]) { bad.push("a printed form with the message".into()) }
    l.sample(text);
    if !bad.is_empty() && !scan::splits_as(text, v) { l.skipped += 1; return }
    for b in bad { c.violate(l, Violation { text: text.into(), cfg: k, expect: b, got: format!("{} at {:?}: {} (printed: {})", kind, pos, msg, shown), why: "the error does not say what is wrong".into() }) }
}
fn c23(c: &Check) {
    let one = |l: &mut Local, v: &[&str], m: bool| said(c, l, v, &render(v), cfg(m));
    let sweep = |name: &str, tags: &str, depth: usize, frames: &[usize], e: Edits| compose::programs(c, &Comp { name, firsts: firsts(tags), depth, keep: &|_| true, frames, pol: pol(0), edits: None, siblings: false }, &|l, v, m| { one(l, v, m); compose::edits(v, e, &mut |w| one(l, w, m)) });
    sweep("one-edit neighbours of productions in every context", "-", 1, ALL_FRAMES, DS2N);
    sweep("one-edit neighbours of pairs of productions", "-", 2, TOP, DS2N);
    sweep("one-edit neighbours of module items", "mod", 2, TOPMOD, DS2N);
    sweep("all combinations of the parts of each construct", "wide", 1, c.q(&[0, 13], ALL_FRAMES), if c.thorough() { DS2N } else { Edits::default() });
    sweep("all combinations of the parts of each module item", "widemod", 1, TOPMOD, if c.thorough() { DS2N } else { Edits::default() });
    let ins: &'static [&'static str] = Vec::leak(split("a 1 's' ; , . ... ( ) [ ] { } => = += ? : * ** ++ - ! in of let const function class static async await yield `t` /r/g null"));
    sweep("insertions and replacements in productions", "-", 1, c.q(&[0, 13], ALL_FRAMES), Edits { insert: ins, replace: ins, ..Default::default() });
    // names and literals of every look, in programs with a mistake
    let dressed = |name: &str, tags: &str, frames: &[usize]| compose::programs(c, &Comp { name, firsts: firsts(tags), depth: 1, keep: &|_| true, frames, pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
        let mut w: Toks = v.to_vec();
        for k in 0..13 { let mut any = false; for i in 0..v.len() { let u = unusual(v[i]); if u.len() > k { w[i] = u[(k + i) % u.len()]; any = true } else { w[i] = v[i] } } if any { compose::edits(&w, DS2N, &mut |x| one(l, x, m)) } }
    });
    dressed("one-edit neighbours of productions with unusual literals and names", "-", TOP);
    dressed("one-edit neighbours of module items with unusual literals and names", "mod", TOPMOD);
    borrowed(c, SAYS, &["C14", "C15", "C16", "C17", "C19"]);
}
// ---------------------------------------------------------------------------------- C24
/// Programs as lists of parts; `!` in front: the part is an error. A second string: m module, t tolerant.
const STEPS: &[(&[&str], &str)] = &[
    (&["a ;", "b ;"], ""), (&["var a = 1 ;", "f ( a ) ;", "if ( a ) b ; else c ;"], ""), (&["'use~strict' ;", "x = 1 ;"], ""), (&["'use~strict' ;", "! with ( a ) b ;"], ""), (&["with ( a ) b ;", "c ;"], ""),
    (&["function f ( a , b ) { return a ; }", "f ( ) ;"], ""), (&["function f ( ) { 'use~strict' ; }", "with ( a ) b ;"], ""), (&["function * g ( ) { yield a ; }", "yield ;"], ""), (&["async function g ( ) { await a ; }", "await ;"], ""),
    (&["class A { static m ( ) { } }", "let ;"], ""), (&["class A extends B { constructor ( ) { super ( ) ; } }", "! super ( ) ;"], ""), (&["for ( ; ; ) { break ; }", "! break ;"], ""), (&["switch ( a ) { case 1 : break ; default : }", "b ;"], ""),
    (&["l : for ( ; ; ) { continue l ; }", "l : a ;", "m : b ;"], ""), (&["l : a ;", "! l : l : b ;"], ""), (&["while ( a ) { }", "! continue ;"], ""), (&["try { a ; } catch ( e ) { } finally { }", "b ;"], ""),
    (&["( a , b ) => c ;", "( a , b ) ;"], ""), (&["async ( a ) => { await b ; } ;", "async ( a ) ;"], ""), (&["[ a , b ] = c ;", "( { a : b } = c ) ;"], ""), (&["( { a = 1 } ) => a ;", "! ( { a = 1 } ) ;"], ""),
    (&["`x${ a }y` ;", "b ;"], ""), (&["/r/g . test ( a ) ;", "a / b / c ;"], ""), (&["for ( var a in b ) c ;", "a in b ;"], ""), (&["for ( let [ a ] of b ) c ;", "d ;"], ""), (&["! a b ;"], ""), (&["a ;", "! ) ;"], ""), (&["! ("], ""), (&[], ""), (&[";"], ""),
    (&["{ a ; b ; }", "{ }"], ""), (&["do a ; while ( b )", "c ;"], ""), (&["throw a ;", "debugger ;"], ""), (&["new A ( b ) ;", "a . b [ c ] ;"], ""), (&["x = { get a ( ) { } , set a ( b ) { } , c , [ d ] : e } ;", "f ;"], ""), (&["! x = { get a ( b ) { } } ;"], ""),
    (&["function f ( ) { new . target ; }", "! new . target ;"], ""), (&["function f ( ) { return ; }", "! return ;"], ""),
    (&["import a , { b as c } from 's' ;", "export default a ;"], "m"), (&["export { a } ;", "! await a ;"], "m"), (&["import 's' ;", "! with ( a ) b ;"], "m"), (&["! import 's' ;"], ""), (&["export * from 's' ;", "export const x = 1 ;", "a ;"], "m"), (&["export function f ( ) { }", "b ;"], "m"),
    (&["var a = 1 ;", "a ;"], "t"), (&["l : a ;", "b ;"], "t"),
];
fn c24(c: &Check) {
    use imp::{interleave, Steps};
    struct P { text: String, k: Cfg, alone: Steps, n: usize }
    let mut l = Local::default();
    let mut ps: Vec<P> = vec![];
    for (parts, flags) in STEPS { for style in 0..3 {
        // the text: with a comment before every token, and between the parts a line end or a blank
        let mut text = String::new(); let mut marks: Vec<(usize, usize, usize, bool)> = vec![]; let mut toks_: Vec<&str> = vec![]; let mut want: Vec<bool> = vec![];
        for (i, p) in parts.iter().enumerate() {
            let (p, ok) = match p.strip_prefix("! ") { Some(q) => (q, false), None => (*p, true) };
            want.push(ok);
            for (j, t) in split(p).into_iter().enumerate() {
                if !text.is_empty() { text.push(if style == 1 && j == 0 { '\n' } else { ' ' }) }
                if style == 1 || style == 2 && j == 1 { let s = text.len(); text += "/*"; text += &marks.len().to_string(); text += "*/ "; marks.push((s, text.len() - 1, i, j == 0)) }
                text += t; toks_.push(t);
            }
        }
        let k = Cfg { module: flags.contains('m'), tolerant: flags.contains('t') };
        let n = parts.len().min(want.iter().position(|x| !x).map(|x| x + 1).unwrap_or(parts.len())) + 1;
        let bad = |l: &mut Local, expect: String, got: String| c.violate(l, Violation { text: text.clone(), cfg: k, expect, got, why: "stepping a parser".into() });
        let first = match engine::run(&text, k, || interleave(&[(&text[..], k)], &vec![0; n + 1], false, false, false)) { Ok(mut s) => s.remove(0), Err(m) => { bad(&mut l, "steps".into(), format!("PANIC {}", m)); continue } };
        l.execs += 1; l.states += 1;
        for x in &first.parts { l.outcome(&Out::Ok(x.clone())) }
        l.sample(&text);
        // alone: part by part the derivation, then the error or the end, then nothing more
        let mut joined = format!("({}", if k.module { "module" } else { "script" });
        for (i, x) in first.parts.iter().enumerate() {
            let fails = i < want.len() && !want[i] || i >= 1 && i - 1 < want.len() && want[..i.min(want.len())].contains(&false);
            if i < want.len() && want[..=i].iter().all(|x| *x) { if x == "end" || x.starts_with("rejected") { bad(&mut l, format!("part {} of the text", i + 1), x.clone()) } joined.push(' '); joined += x }
            else if i < want.len() && !want[i] && want[..i].iter().all(|x| *x) { if !x.starts_with("rejected") { bad(&mut l, format!("an error in part {}", i + 1), x.clone()) } }
            else if x != "end" { let _ = fails; bad(&mut l, "the end".into(), x.clone()) }
        }
        if want.iter().all(|x| *x) {
            let r = refp::parse(&toks(&toks_), k.module);
            if r.tree.as_deref() != Some(&format!("{})", joined)[..]) { bad(&mut l, format!("the parts of {:?}", r.tree), joined) }
        }
        for (i, got) in first.comments.iter().enumerate() {
            if i < want.len() && !want[i] { break }
            if !got.iter().zip(&marks).all(|(g, m)| *g == (m.0, m.1)) { bad(&mut l, "the comments in order".into(), format!("{:?}", got)) }
            let must = marks.iter().filter(|m| m.2 <= i).count(); let may = marks.iter().filter(|m| m.2 <= i || m.2 == i + 1 && m.3).count();
            if got.len() < must || got.len() > may { bad(&mut l, format!("{} to {} comments by the time part {} is there", must, may, i + 1), format!("{} comments", got.len())) }
        }
        ps.push(P { text, k, alone: first, n: n + 1 });
    } }
    c.total.lock().unwrap().absorb(l);
    c.note(format!("{} texts stepped alone: part after part, comments handed over in time", ps.len()));
    fn schedules(left: &mut Vec<usize>, s: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) { if left.iter().all(|x| *x == 0) { return f(s) } for i in 0..left.len() { if left[i] > 0 { left[i] -= 1; s.push(i); schedules(left, s, f); s.pop(); left[i] += 1 } } }
    let try_all = |l: &mut Local, group: &[usize]| {
        let texts: Vec<(&str, Cfg)> = group.iter().map(|i| (&ps[*i].text[..], ps[*i].k)).collect();
        let mut left: Vec<usize> = group.iter().map(|i| ps[*i].n - 1).collect();
        schedules(&mut left, &mut vec![], &mut |s| for (one, late, plain) in [(true, false, false), (true, true, true), (false, false, true), (false, true, false), (true, false, true)] {
            if c.over() { return }
            let name = texts.iter().map(|t| t.0).collect::<Vec<_>>().join("\n-----\n");
            l.execs += 1; l.transitions += s.len() as u64;
            let got = match engine::run(&name, texts[0].1, || interleave(&texts, s, one, late, plain)) { Ok(g) => g, Err(m) => { c.violate(l, Violation { text: name, cfg: texts[0].1, expect: "steps".into(), got: format!("PANIC {}", m), why: format!("parsers stepped in the order {:?}", s) }); continue } };
            l.states += 1;
            for (j, g) in got.iter().enumerate() {
                let a = &ps[group[j]].alone; let m = g.parts.len().min(a.parts.len());
                if g.parts[..m] != a.parts[..m] || !plain && g.comments[..] != a.comments[..g.comments.len().min(a.comments.len())] {
                    c.violate(l, Violation { text: name.clone(), cfg: texts[j].1, expect: format!("parser {} as alone: {:?}", j + 1, a), got: format!("{:?}", g), why: format!("parsers stepped in the order {:?} ({} builder, built {}{})", s, if one { "one" } else { "separate" }, if late { "when first stepped" } else { "beforehand" }, if plain { ", without a comment handler" } else { "" }) });
                }
            }
        });
    };
    let n = ps.len(); let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| c.thorough() || i % 3 == j % 3).collect();
    c.par(&pairs, |(i, j), l| try_all(l, &[*i, *j]));
    c.note(format!("all interleavings of the parsers of {} pairs of texts, built five ways", pairs.len()));
    let short: Vec<usize> = (0..n).filter(|i| i % 3 == 0 && ps[*i].n <= 4).take(c.q(9, 24)).collect();
    let triples: Vec<[usize; 3]> = short.iter().flat_map(|a| short.iter().flat_map({ let short = &short; move |b| short.iter().map(move |d| [*a, *b, *d]) })).collect();
    c.par(&triples, |t, l| try_all(l, t));
    c.note(format!("all interleavings of the parsers of {} triples of texts, built five ways", triples.len()));
}
// ---------------------------------------------------------------------------------- C25
#[derive(Clone, Copy, PartialEq)]
enum Life { Running, Failed, Ended }
/// All histories of `len` calls of next and parse on a parser for `text`, against the model.
fn histories(c: &Check, l: &mut Local, text: &str, k: Cfg, extra: usize) {
    let it = engine::run(text, k, || imp::iterate(text, k, text.len() + 3)); l.execs += 1;
    let n = it.parts.len();
    let fail = match &it.end { imp::End::Done => None, imp::End::Err(a, b, m) => Some(Out::Err(a, *b, m.clone()).show()), _ => return };
    l.states += 1; l.count(if fail.is_some() { "rejected" } else { "accepted" });
    if fail.is_none() { l.sample(text) }
    // a history repeats N until something else happens: N^a P, then every word over N and P of the length left
    let words: Vec<String> = {
        let mut v = vec![];
        for a in 0..=n + 1 { for w in 0..1usize << extra { let mut s = "N".repeat(a); s.push('P'); for b in 0..extra { s.push(if w >> b & 1 == 1 { 'P' } else { 'N' }) } v.push(s) } }
        v.push("N".repeat(n + 1 + extra)); v
    };
    for ops in words {
        if c.over() { return }
        l.execs += 1; l.transitions += ops.len() as u64;
        let got = engine::run(text, k, || imp::history(text, k, &ops));
        compare(c, l, text, k, &ops, &got, &it.parts, &fail, &|_| None);
    }
}
/// Compares the answers to a history with the model. `exprs`: what the text is with the expression of a part taken out.
fn compare(c: &Check, l: &mut Local, text: &str, k: Cfg, ops: &str, got: &[String], parts: &[String], fail: &Option<String>, exprs: &dyn Fn(usize) -> Option<Vec<String>>) {
    l.outcome(&Out::Ok(got.join(" | ")));
    let mut parts: Vec<String> = parts.to_vec(); let mut i = 0; let mut life = Life::Running;
    let head = if k.module { "(module" } else { "(script" };
    for (j, o) in ops.chars().enumerate() {
        if life == Life::Running && i == parts.len() && fail.is_none() { life = Life::Ended }
        // None: rejected, whatever the error
        let want: Option<String> = match (o, life) {
            ('N', Life::Running) => if i < parts.len() { i += 1; Some(parts[i - 1].clone()) } else { life = Life::Failed; fail.clone() },
            ('N', _) => Some("end".into()),
            ('P', Life::Running) if fail.is_some() => { life = Life::Failed; fail.clone() }
            ('P', Life::Failed) => None,
            ('P', _) => { let mut s = String::from(head); for x in &parts[i..] { s.push(' '); s.push_str(x) } s.push(')'); i = parts.len(); Some(s) }
            (_, Life::Running) if i < parts.len() && parts[i].starts_with("(es ") => match exprs(i) { Some(rest) => { let e = parts[i][4..parts[i].len() - 1].to_string(); parts.truncate(i); parts.extend(rest); Some(e) } None => return },
            (_, Life::Ended) => None,
            _ => return,
        };
        let g = got.get(j).map(|s| &s[..]).unwrap_or("no answer");
        if match &want { Some(w) => w != g, None => !g.starts_with("rejected") } {
            return c.violate(l, Violation { text: text.into(), cfg: k, expect: want.unwrap_or("rejected".into()), got: g.into(), why: format!("call {} of the calls {} (N next, P parse, E parse_expression) on one parser", j + 1, ops) });
        }
        if got.len() == 1 && fail.is_some() && parts.is_empty() { return }
    }
}
fn c25(c: &Check) {
    // short texts: every history, with parse_expression where an expression statement is next
    let mut list: Vec<(Vec<(String, bool)>, Cfg)> = vec![];
    for (parts, flags) in STEPS { for style in 0..3 {
        let v = parts.iter().map(|p| { let (p, ok) = match p.strip_prefix("! ") { Some(q) => (q, false), None => (*p, true) }; let t = split(p); (match style { 0 => t.join(" "), 1 => format!("/*0*/ {} //1\n", t.join(" /*2*/ ")), _ => format!("\n{}\n", t.join("\n")) }, ok) }).collect();
        // a line end may part a statement there
        if style == 2 && parts.iter().any(|p| ["return", "yield", "break", "continue", "throw", "async", "let", "=>", "~"].iter().any(|w| p.contains(w))) { continue }
        list.push((v, Cfg { module: flags.contains('m'), tolerant: flags.contains('t') }));
    } }
    c.par(&list, |(parts, k), l| {
        let text = parts.iter().map(|p| &p.0[..]).collect::<Vec<_>>().join(" ").replace('~', " "); let k = *k;
        let it = engine::run(&text, k, || imp::iterate(&text, k, text.len() + 3)); l.execs += 1; l.states += 1; l.sample(&text);
        let fail = match &it.end { imp::End::Done => None, imp::End::Err(a, b, m) => Some(Out::Err(a, *b, m.clone()).show()), e => return c.violate(l, Violation { text, cfg: k, expect: "steps".into(), got: format!("{:?}", e), why: "iterating".into() }) };
        let len = it.parts.len() + c.q(3, 5);
        let alpha = ['N', 'P', 'E'];
        for w in 0..3usize.pow(len as u32) {
            if c.over() { return }
            let mut x = w; let ops: String = (0..len).map(|_| { let o = alpha[x % 3]; x /= 3; o }).collect();
            let got = engine::run(&text, k, || imp::history(&text, k, &ops));
            l.execs += 1; l.transitions += len as u64;
            compare(c, l, &text, k, &ops, &got, &it.parts, &fail, &|i| {
                // only where the parts are those of the list, the next is an expression statement with its own semicolon, and all is well
                if fail.is_some() || it.parts.len() != parts.len() || parts.iter().any(|p| !p.1) || !parts[i].0.trim_end_matches(" //1\n").trim_end().ends_with(';') { return None }
                let mut v = vec!["(empty)".to_string()]; v.extend_from_slice(&it.parts[i + 1..]); Some(v)
            });
        }
    });
    c.note(format!("{} texts: every sequence of calls of next, parse and parse_expression of up to {} calls more than the text has parts", list.len(), c.q(3, 5)));
    let e = DS2N;
    let sweep = |name: &str, tags: &str, depth: usize, frames: &[usize], e: Option<Edits>, extra: usize| compose::programs(c, &Comp { name, firsts: firsts(tags), depth, keep: &|_| true, frames, pol: pol(0), edits: None, siblings: false }, &|l, v, m| {
        let k = Cfg { module: m, tolerant: false };
        histories(c, l, &render(v), k, extra);
        if let Some(e) = e { compose::edits(v, e, &mut |w| histories(c, l, &render(w), k, extra)) }
    });
    sweep("productions in every context, with their one-edit neighbours", "-", 1, ALL_FRAMES, Some(e), 2);
    sweep("module items, with their one-edit neighbours", "mod", 2, TOPMOD, Some(e), 2);
    sweep("pairs of productions", "-", 2, TOP, None, 2);
    sweep("all combinations of the parts of each construct", "wide", 1, TOP, None, c.q(1, 2));
    sweep("all combinations of the parts of each module item", "widemod", 1, TOPMOD, None, c.q(1, 2));
    // several items, each of any kind
    let items: Vec<Ref> = compose::all_firsts();
    c.par(&items, |&r, l| if let Some(v) = gen::program(&gen::Der { p: r, kids: vec![] }, 0) { for (a, b) in [("", "a ;"), ("a ;", ""), ("a ;", "b ; c ;"), ("a ; b ;", ""), ("", ") ;"), ("a ;", "b ; ) ; c ;"), ("a ; b c", ""), ("'s' ;", "a ;"), ("", "a b")] {
        if c.over() { return }
        let mut w = split(a); w.extend(&v); w.extend(split(b)); histories(c, l, &render(&w), SCRIPT, 3);
    } });
    c.note("every production between statements, well formed or not: every sequence of calls of next and parse".into());
}
fn c22(c: &Check) {
    let tol = |l: &mut Local, v: &[&str], m: bool| tolerance(c, l, v, &render(v), m);
    let sweep = |name: &str, tags: &str, depth: usize, frames: &[usize], e: Option<Edits>| compose::programs(c, &Comp { name, firsts: firsts(tags), depth, keep: &|_| true, frames, pol: pol(0), edits: None, siblings: false }, &|l, v, m| { tol(l, v, m); if let Some(e) = e { compose::edits(v, e, &mut |w| tol(l, w, m)) } });
    sweep("productions in every context, with their one-edit neighbours", "-", 1, ALL_FRAMES, Some(DS2N));
    sweep("pairs of productions in every context", "-", 2, ALL_FRAMES, None);
    sweep("pairs of productions, with their one-edit neighbours", "-", 2, TOP, Some(DS2N));
    sweep("module items, with their one-edit neighbours", "mod", 2, TOPMOD, Some(DS2N));
    sweep("all combinations of the parts of each construct", "wide", 1, ALL_FRAMES, if c.thorough() { Some(DS2N) } else { None });
    sweep("all combinations of the parts of each construct, with their one-edit neighbours", "wide", 1, TOP, Some(DS2N));
    sweep("all combinations of the parts of each module item, with their one-edit neighbours", "widemod", 1, TOPMOD, Some(DS2N));
    borrowed(c, TOLERANCE, &["C13", "C14", "C15", "C16", "C17", "C19"]);
    if c.thorough() { sweep("three productions deep", "-", 3, TOP, None) }
}
