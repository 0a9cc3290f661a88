//! Exhaustive exploration of token sequences against the reference grammar.
//! A state is a token sequence that is still the prefix of some program (*viable*); a
//! transition appends one token of the alphabet; in every state, and after every transition
//! that leaves the viable set, the implementation is run and must agree with the reference.
use crate::engine::{exec, Check, Local, Violation};
use crate::imp::{Cfg, Out};
use crate::refp::{self, Ref};
use crate::tokseq::{render, toks, NL};

#[derive(Clone, Copy)]
pub struct Policy {
    /// early-error bits the implementation must reject (owned by the running check)
    pub enforce: u64,
    /// early-error bits left alone: programs using them are only required not to be mis-built
    pub ignore: u64,
}
pub const LENIENT: Policy = Policy { enforce: 0, ignore: !0 };

/// None: agreement. Some((expected, why)): disagreement.
pub fn compare(r: &Ref, out: &Out, pol: Policy) -> Option<(String, String)> {
    match (&r.tree, out) {
        (_, Out::Panic(_)) => Some(("no panic".into(), "the parser panics".into())),
        (None, Out::Ok(_)) => Some(("rejected".into(), "a token sequence outside the grammar is accepted".into())),
        (None, Out::Err(..)) => None,
        (Some(t), Out::Ok(s)) if r.bits & pol.enforce != 0 => { let _ = (t, s); Some(("rejected".into(), format!("accepted in spite of {:?}", refp::bit_names(r.bits & pol.enforce)))) }
        (Some(t), Out::Ok(s)) => if t == s || r.bits & !pol.ignore != 0 { None } else { Some((format!("accepted: {}", t), "the tree is not the derivation of the text".into())) },
        (Some(t), Out::Err(..)) => if r.bits == 0 { Some((format!("accepted: {}", t), "a derivable program is rejected".into())) } else { None },
    }
}
/// While another property's check borrows this list: judge the text as that property demands. False if the grammar is to be consulted.
pub fn otherwise(c: &Check, l: &mut Local, seq: &[&str], text: &str, cfg: Cfg) -> bool {
    use crate::{checks, spaces::{mode, TOLERANCE, ENTRIES, ANSWERS, SAYS, PLACES}};
    match mode() {
        TOLERANCE => checks::tolerance(c, l, seq, text, cfg.module),
        ENTRIES => { checks::same(c, l, text, cfg.module, cfg.tolerant); }
        ANSWERS => { checks::answer(c, l, text, cfg); checks::answer(c, l, text, Cfg { module: !cfg.module, tolerant: true }) }
        SAYS => checks::said(c, l, seq, text, cfg),
        PLACES => checks::placed(c, l, seq, text, cfg),
        _ => return false,
    }
    true
}
pub fn judge(c: &Check, l: &mut Local, seq: &[&str], text: &str, cfg: Cfg, r: &Ref, pol: Policy) -> Out {
    if otherwise(c, l, seq, text, cfg) { return Out::Panic(String::new()) }
    let t0 = std::time::Instant::now();
    let out = exec(text, cfg);
    if c.id == "dev" && t0.elapsed().as_millis() > 20 { eprintln!("SLOW {:?} {}", t0.elapsed(), text) }
    l.execs += 1;
    l.outcome(&out);
    match (&r.tree, r.bits) { (None, _) => l.count("outside the grammar"), (Some(_), 0) => { l.count("derivable"); l.sample(text) } _ => l.count("derivable, static error") }
    if c.id == "dev" && out.is_ok() && r.bits.count_ones() == 1 { l.count(refp::bit_names(r.bits)[0]) }
    if let Some((expect, why)) = compare(r, &out, pol) {
        if !crate::scan::splits_as(text, seq) { if std::env::var_os("MC_SKIPS").is_some() { eprintln!("SKIP {:?}", &text[..text.len().min(300)]) } l.skipped += 1; return out }
        c.violate(l, Violation { text: text.into(), cfg, expect, got: out.show(), why });
    }
    out
}
pub struct Space<'a> { pub name: &'a str, pub pre: &'a str, pub alpha: &'a str, pub post: &'a str, pub max: usize, pub cfg: Cfg, pub pol: Policy }

pub fn explore(c: &Check, sp: &Space) {
    let pre = crate::tokseq::split(sp.pre); let post = crate::tokseq::split(sp.post); let alpha = crate::tokseq::split(sp.alpha);
    // roots: all viable sequences of length <= 2 (examined here), then subtrees in parallel
    let mut roots: Vec<Vec<usize>> = vec![];
    let before = { let t = c.total.lock().unwrap(); (t.states, t.transitions) };
    let mut l = Local::default();
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    while let Some(s) = stack.pop() {
        let viable = node(c, &mut l, sp, &pre, &post, &alpha, &s);
        if !viable || s.len() >= sp.max { continue }
        if s.len() == 2 { roots.push(s); continue }
        for a in 0..alpha.len() { if ok_next(&alpha, &s, a) { let mut n = s.clone(); n.push(a); stack.push(n) } }
    }
    { let mut t = c.total.lock().unwrap(); let l = std::mem::take(&mut l); merge_into(&mut t, l) }
    c.par(&roots, |r, l| { let mut s = r.clone(); rec(c, l, sp, &pre, &post, &alpha, &mut s) });
    let t = c.total.lock().unwrap();
    c.note(format!("{}: all continuations of length <= {} over {} tokens after `{}`, closed by `{}`: {} viable states, {} transitions", sp.name, sp.max, alpha.len(), sp.pre, sp.post, t.states - before.0, t.transitions - before.1));
}
fn merge_into(t: &mut Local, l: Local) { t.absorb(l) }
fn ok_next(alpha: &[&str], s: &[usize], a: usize) -> bool { !(alpha[a] == NL && s.last().map(|&x| alpha[x] == NL).unwrap_or(false)) }
fn rec(c: &Check, l: &mut Local, sp: &Space, pre: &[&str], post: &[&str], alpha: &[&str], s: &mut Vec<usize>) {
    if s.len() >= sp.max || c.over() { return }
    for a in 0..alpha.len() {
        if !ok_next(alpha, s, a) { continue }
        s.push(a);
        if node(c, l, sp, pre, post, alpha, s) { rec(c, l, sp, pre, post, alpha, s) }
        s.pop();
    }
}
/// Examine one sequence; is it viable?
fn node(c: &Check, l: &mut Local, sp: &Space, pre: &[&str], post: &[&str], alpha: &[&str], s: &[usize]) -> bool {
    l.transitions += 1;
    let mut v: Vec<&str> = Vec::with_capacity(pre.len() + s.len() + post.len());
    v.extend(pre); v.extend(s.iter().map(|&i| alpha[i]));
    if s.last().map(|&x| alpha[x] == NL).unwrap_or(false) { l.states += 1; return true }
    let r1 = refp::parse(&toks(&v), sp.cfg.module);
    if post.is_empty() {
        judge(c, l, &v, &render(&v), sp.cfg, &r1, sp.pol);
    } else {
        v.extend(post);
        let r2 = refp::parse(&toks(&v), sp.cfg.module);
        judge(c, l, &v, &render(&v), sp.cfg, &r2, sp.pol);
    }
    if r1.viable { l.states += 1 }
    r1.viable
}
