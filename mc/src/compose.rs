//! Exhaustive exploration of composed programs (see `gen`) and of their one-edit neighbours.
use crate::engine::{Check, Local};
use crate::explore::{self, judge, Policy};
use crate::gen::{self, Der, Ref, Toks};
use crate::imp::Cfg;
use crate::refp;
use crate::tokseq::{render, toks, NL};

/// Parses `v` with both parsers and compares; how much work the reference had.
pub fn examine(c: &Check, l: &mut Local, v: &[&str], cfg: Cfg, pol: Policy) -> u64 {
    let text = render(v);
    if explore::otherwise(c, l, v, &text, cfg) { return 0 }
    let r = refp::parse(&toks(v), cfg.module);
    l.transitions += 1;
    judge(c, l, v, &text, cfg, &r, pol);
    r.steps
}
#[derive(Clone, Copy, Default)]
pub struct Edits { pub delete: bool, pub swap: bool, pub double: bool, pub insert: &'static [&'static str], pub replace: &'static [&'static str], pub nl: bool, pub cut: bool, pub asi: bool }
/// Calls `f` on every token sequence one edit away from `v`.
pub fn edits(v: &[&'static str], e: Edits, f: &mut impl FnMut(&[&'static str])) {
    let mut w: Toks = Vec::with_capacity(v.len() + 1);
    if e.asi {
        // semicolons left out: each, every one in front of a brace or the end, replaced by a line terminator each and all
        let last = |i: usize| v.get(i + 1).map(|t| *t == "}").unwrap_or(true);
        let mut n = 0;
        for i in 0..v.len() { if v[i] == ";" { n += 1; w.clear(); w.extend(v); w[i] = NL; f(&w); if !e.delete { w.remove(i); f(&w) } } }
        if n > 1 {
            w.clear(); w.extend(v.iter().enumerate().filter(|(i, t)| **t != ";" || !last(*i)).map(|(_, t)| *t)); if w.len() < v.len() { f(&w) }
            w.clear(); w.extend(v.iter().enumerate().filter(|(i, t)| **t != ";" || !last(*i)).map(|(_, t)| if *t == ";" { NL } else { *t })); f(&w);
        }
    }
    for i in 0..v.len() {
        if e.delete { w.clear(); w.extend(&v[..i]); w.extend(&v[i + 1..]); f(&w) }
        if e.double { w.clear(); w.extend(&v[..=i]); w.extend(&v[i..]); f(&w) }
        if e.swap && i + 1 < v.len() { w.clear(); w.extend(v); w.swap(i, i + 1); f(&w) }
        if e.cut && i > 0 { f(&v[..i]) }
        for r in e.replace { if *r != v[i] { w.clear(); w.extend(v); w[i] = r; f(&w) } }
        if e.nl && i > 0 { w.clear(); w.extend(&v[..i]); w.push(NL); w.extend(&v[i..]); f(&w) }
    }
    for i in 0..=v.len() { for r in e.insert { w.clear(); w.extend(&v[..i]); w.push(r); w.extend(&v[i..]); f(&w) } }
}
pub fn names(d: &Der) -> Vec<&'static gen::Prod> { let mut o = vec![]; fn go(d: &Der, o: &mut Vec<&'static gen::Prod>) { o.push(d.p.get()); for k in &d.kids { go(&k.1, o) } } go(d, &mut o); o }

pub struct Comp<'a> {
    pub name: &'a str,
    pub firsts: Vec<Ref>,
    pub depth: usize,
    /// which derivations are examined
    pub keep: &'a (dyn Fn(&Der) -> bool + Sync),
    /// context frames (indices in gen::FRAMES)
    pub frames: &'a [usize],
    pub pol: Policy,
    pub edits: Option<Edits>,
    pub siblings: bool,
}
pub fn all_firsts() -> Vec<Ref> { (0..gen::gram().prods.len()).map(Ref::G).collect() }
pub fn tagged(t: &[&str]) -> Vec<Ref> { gen::gram().tagged(t).into_iter().map(Ref::G).collect() }
/// Runs `f` on every program of the space: its token sequence, and whether it is to be parsed as a module.
pub fn programs(c: &Check, sp: &Comp, f: &(dyn Fn(&mut Local, &[&'static str], bool) + Sync)) {
    let mut items: Vec<(Ref, Option<(usize, Ref)>)> = vec![];
    for &p in &sp.firsts {
        if sp.depth == 1 || sp.siblings { items.push((p, None)); continue }
        for (h, cat) in p.get().holes.iter().enumerate() { for &k in gen::gram().of(*cat) { items.push((p, Some((h, Ref::G(k))))) } }
    }
    let fr: Vec<_> = sp.frames.iter().map(|&i| gen::frame(i)).collect();
    let before = { let t = c.total.lock().unwrap(); (t.states, t.transitions) };
    c.par(&items, |it, l| {
        if c.over() { return }
        let mut one = |d: &Der| {
            if !(sp.keep)(d) { return }
            for i in 0..gen::frames(d.p.get().cat) {
                if let Some(v) = gen::program(d, i) {
                    for (a, b, m) in &fr {
                        // a module frame takes every program
                        if d.p.get().has(&["mod"]) && !*m { continue }
                        let mut w = a.clone(); w.extend(&v); w.extend(b);
                        l.states += 1;
                        f(l, &w, *m);
                    }
                }
            }
        };
        match it.1 {
            None if sp.siblings => gen::siblings(it.0, &mut one),
            None => one(&Der { p: it.0, kids: vec![] }),
            Some((h, k)) => gen::chains(k, sp.depth - 1, &mut |d| one(&Der { p: it.0, kids: vec![(h, d.clone())] })),
        }
    });
    let t = c.total.lock().unwrap();
    c.note(format!("{}: {} composed programs, {} parses", sp.name, t.states - before.0, t.transitions - before.1));
}
pub fn compose(c: &Check, sp: &Comp) {
    programs(c, sp, &|l, v, m| {
        let cfg = Cfg { module: m, tolerant: false };
        match sp.edits {
            None => { examine(c, l, v, cfg, sp.pol); }
            Some(e) => edits(v, e, &mut |w| { examine(c, l, w, cfg, sp.pol); }),
        }
    })
}
