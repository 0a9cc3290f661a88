//! Spaces of programs shared by the checks: token-level enumerations, compositions, scaled programs.
use crate::compose::{self, Comp, Edits};
use crate::engine::{Check, Local};
use crate::explore::{self, judge, Policy, Space};
use crate::gen::{self, Cat, Der, Ref, Toks};
use crate::imp::Cfg;
use crate::refp;
use crate::tokseq::{render, split, toks};

pub fn cfg(module: bool) -> Cfg { Cfg { module, tolerant: false } }
/// Set while one check runs the enumerated lists of another: the other spaces are left out, and every text is judged as
/// the running check demands.
pub static FOREIGN: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
/// every rule of the grammar is enforced
pub const GRAMMAR: u8 = 1;
/// tolerance on is compared with tolerance off
pub const TOLERANCE: u8 = 2;
/// all entry points are compared
pub const ENTRIES: u8 = 3;
/// an answer is demanded, nothing else
pub const ANSWERS: u8 = 4;
/// what errors say is judged
pub const SAYS: u8 = 5;
/// where errors point is judged
pub const PLACES: u8 = 6;
pub fn mode() -> u8 { FOREIGN.load(std::sync::atomic::Ordering::Relaxed) }
pub fn foreign() -> bool { mode() != 0 }
/// Every check enforces every static rule the parser checks, whichever property the program is about.
pub fn pol(_owned: u64) -> Policy { Policy { enforce: crate::checks::EVERY, ignore: !0 } }
pub const ALL_FRAMES: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
pub const TOP: &[usize] = &[0];
pub const DS2N: Edits = Edits { delete: true, swap: true, double: true, insert: &[], replace: &[], nl: true, cut: true, asi: false };

/// All viable token sequences: `pre`, up to `n` tokens of `alpha`, `post`.
pub fn dfs(c: &Check, name: &str, pre: &str, alpha: &str, post: &str, n: usize, module: bool, enf: u64) {
    if foreign() && !(mode() == GRAMMAR) { return }
    explore::explore(c, &Space { name, pre, alpha, post, max: n, cfg: cfg(module), pol: pol(enf) })
}
/// The compositions of depth `depth` whose first production carries one of `tags` ("-": all; "mod": module items).
pub fn comp(c: &Check, name: &str, tags: &str, depth: usize, frames: &[usize], enf: u64, edits: Option<Edits>) {
    if foreign() { return }
    compose::compose(c, &Comp { name, firsts: firsts(tags), depth, keep: &|_| true, frames, pol: pol(enf), edits, siblings: false })
}
/// As `comp`, of those compositions in which any production carries one of `tags`.
pub fn comp_any(c: &Check, name: &str, tags: &str, depth: usize, frames: &[usize], enf: u64, edits: Option<Edits>) {
    if foreign() { return }
    let t: Vec<&str> = tags.split(' ').collect();
    compose::compose(c, &Comp { name, firsts: compose::all_firsts(), depth, keep: &|d: &Der| compose::names(d).iter().any(|p| p.has(&t)), frames, pol: pol(enf), edits, siblings: false })
}
pub fn sibs(c: &Check, name: &str, tags: &str, frames: &[usize], enf: u64) {
    if foreign() { return }
    compose::compose(c, &Comp { name, firsts: firsts(tags), depth: 2, keep: &|_| true, frames, pol: pol(enf), edits: None, siblings: true })
}
/// The wide productions with one of `tags` ("-": all, "mod": those of modules).
pub fn wides(tags: &str) -> Vec<Ref> { let t: Vec<&str> = tags.split(' ').collect(); let m = tags == "mod"; (0..gen::wide().len()).filter(|&i| { let p = &gen::wide()[i]; p.has(&["mod"]) == m && (tags == "-" || p.has(&t)) }).map(Ref::W).collect() }
/// All combinations of the parts of each construct: in every context, with edits, with every production in every hole, and in every hole of every production.
pub fn wide(c: &Check, what: &str, tags: &str, frames: &[usize], enf: u64, edits: Option<Edits>, deep: bool) {
    if foreign() { return }
    let top = if tags == "mod" { crate::checks::TOPMOD } else { TOP };
    let run = |name: String, depth: usize, frames: &[usize], edits: Option<Edits>| compose::compose(c, &Comp { name: &name, firsts: wides(tags), depth, keep: &|_| true, frames, pol: pol(enf), edits, siblings: false });
    run(format!("{}, all combinations of parts", what), 1, if tags == "mod" { top } else { frames }, None);
    if edits.is_some() { run(format!("{}, all combinations of parts, one-edit neighbours", what), 1, top, edits) }
    if !deep { return }
    run(format!("{}, all combinations of parts, with a production inside", what), 2, top, None);
    if tags == "mod" { return }
    let ws = wides(tags); let items: Vec<(usize, usize)> = (0..gen::gram().prods.len()).flat_map(|p| (0..gen::gram().prods[p].holes.len()).map(move |h| (p, h))).collect();
    let before = c.total.lock().unwrap().states;
    c.par(&items, |&(p, h), l| for w in &ws {
        if c.over() { return }
        let cat = gen::gram().prods[p].holes[h];
        if w.get().cat != cat { continue }
        let d = Der { p: Ref::G(p), kids: vec![(h, Der { p: *w, kids: vec![] })] };
        for i in 0..gen::frames(d.p.get().cat) { if let Some(v) = gen::program(&d, i) { l.states += 1; compose::examine(c, l, &v, cfg(false), pol(enf)); } }
    });
    c.note(format!("{}, all combinations of parts, inside of every production: {} programs", what, c.total.lock().unwrap().states - before));
}
/// Every production (`wide`: every combination of parts) with `tags`, every odd text in each of its holes for an expression or a pattern (`two`: in every two of them).
pub fn odds(c: &Check, name: &str, tags: &str, frames: &[usize], texts: usize, two: bool) {
    if foreign() { return }
    let fr: Vec<_> = frames.iter().map(|&i| gen::frame(i)).collect();
    let items = firsts(tags);
    let before = c.total.lock().unwrap().states;
    c.par(&items, |&p, l| {
        let holes: Vec<usize> = p.get().holes.iter().enumerate().filter(|(_, c)| matches!(c, Cat::E | Cat::P)).map(|x| x.0).collect();
        let one = |l: &mut Local, kids: Vec<(usize, Der)>| {
            let d = Der { p, kids };
            for i in 0..gen::frames(p.get().cat) { if let Some(v) = gen::program(&d, i) { for (a, b, m) in &fr { let mut w: Toks = a.clone(); w.extend(&v); w.extend(b); l.states += 1; compose::examine(c, l, &w, cfg(*m), pol(0)); } } }
        };
        let x = |t: usize| Der { p: Ref::X(t), kids: vec![] };
        for (n, &h) in holes.iter().enumerate() { for t in 0..texts {
            if c.over() { return }
            one(l, vec![(h, x(t))]);
            if two { for &k in &holes[n + 1..] { for u in 0..texts { one(l, vec![(h, x(t)), (k, x(u))]) } } }
        } }
    });
    c.note(format!("{}: {} programs", name, c.total.lock().unwrap().states - before));
}
pub fn firsts(tags: &str) -> Vec<Ref> {
    match tags { "wide" => wides("-"), "widemod" => wides("mod"), "-" => compose::all_firsts(), "mod" => (0..gen::moditems().len()).map(Ref::M).collect(), t => compose::tagged(&t.split(' ').collect::<Vec<_>>()) }
}
/// Every token sequence of `list`, in every frame.
pub fn list(c: &Check, name: &str, list: &[Vec<&'static str>], frames: &[usize], module: bool, enf: u64) {
    let fr: Vec<_> = frames.iter().map(|&i| gen::frame(i)).collect();
    let chunks: Vec<&[Vec<&'static str>]> = list.chunks(64).collect();
    c.par(&chunks, |ch, l| for v in ch.iter() {
        if c.over() { return }
        for (a, b, m) in &fr { let mut w: Toks = a.clone(); w.extend(v); w.extend(b); l.states += 1; compose::examine(c, l, &w, cfg(*m || module), pol(enf)); }
    });
    c.note(format!("{}: {} token sequences in {} frames", name, list.len(), frames.len()));
}
/// Self-nesting of every production (first hole of its own category, or through one other production), 1..=n deep.
pub fn nest(c: &Check, name: &str, tags: &str, n: usize, frames: &[usize], enf: u64) {
    if foreign() { return }
    let g = gen::gram();
    let t: Vec<&str> = tags.split(' ').collect();
    let mut items: Vec<(Ref, usize, Ref, usize)> = vec![];
    let all: Vec<usize> = (0..g.prods.len()).collect();
    for &p in &all {
        let pp = g.p(p);
        if tags != "-" && !pp.has(&t) { continue }
        for (h, hc) in pp.holes.iter().enumerate() {
            if *hc == pp.cat { items.push((Ref::G(p), h, Ref::G(p), h)) }
            // through one production of the hole's category which has a hole of p's category
            else { for &q in g.of(*hc) { for (k, kc) in g.p(q).holes.iter().enumerate() { if *kc == pp.cat { items.push((Ref::G(p), h, Ref::G(q), k)) } } } }
        }
    }
    let fr: Vec<_> = frames.iter().map(|&i| gen::frame(i)).collect();
    c.par(&items, |&(p, h, q, k), l| {
        let mut work = 0; let mut before = 0; let far = n >= 30;
        for d in (1..=n).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300].into_iter().filter(|d| far && *d > n)) {
            if d == n / 2 { before = work }
            if d == n + 1 && work > 8 * before { l.count("nestings not continued beyond the bound"); return }
            // the backtracking reference parser is exponential on some nestings: leave those at the depth reached
            if c.over() || work > 400_000 { l.count("nestings cut short"); return }
            let mut der = Der { p, kids: vec![] };
            for i in 1..d { der = if i % 2 == 1 { Der { p: q, kids: vec![(k, der)] } } else { Der { p, kids: vec![(h, der)] } } }
            // the outermost production must be p: q-levels are only between
            for f in 0..gen::frames(der.p.get().cat) { if let Some(v) = gen::program(&der, f) { for (a, b, m) in &fr { let mut w = a.clone(); w.extend(&v); w.extend(b); l.states += 1; work = work.max(compose::examine(c, l, &w, cfg(*m), pol(enf))); } } }
        }
    });
    c.note(format!("{}: {} pairs of productions nested alternately, 1 to {} deep{}", name, items.len(), n, if n >= 30 { ", and near 32, 64, 128, 256 and 300 deep" } else { "" }));
}
/// List-like constructs: (tags, before, item, separator, after, module). `#` in an item is a fresh name.
pub const LISTS: &[(&str, &str, &str, &str, &str, bool)] = &[
    ("arr", "x = [", "#", ",", "] ;", false), ("arr", "x = [", ",", "", "] ;", false), ("arr spread", "x = [", "... #", ",", "] ;", false), ("arr", "x = [ a", ",", "", "b ] ;", false),
    ("obj", "x = {", "# : #", ",", "} ;", false), ("obj", "x = {", "#", ",", "} ;", false), ("obj method", "x = {", "# ( ) { }", ",", "} ;", false), ("obj acc", "x = {", "get # ( ) { }", ",", "} ;", false), ("obj acc", "x = {", "set # ( # ) { }", ",", "} ;", false), ("obj spread", "x = {", "... #", ",", "} ;", false), ("obj", "x = {", "[ # ] : #", ",", "} ;", false), ("obj method async gen", "x = {", "async * # ( ) { }", ",", "} ;", false),
    ("call", "x (", "#", ",", ") ;", false), ("call spread", "x (", "... #", ",", ") ;", false), ("new", "new x (", "#", ",", ") ;", false), ("call mem", "x", ". #", "", ";", false), ("call mem", "x", "[ # ]", "", ";", false), ("call", "x", "( )", "", ";", false), ("call mem", "x", ". # ( # )", "", ";", false), ("tpl", "x", "`t`", "", ";", false), ("new", "", "new", "", "x ;", false), ("new", "", "new", "", "x ( ) ;", false), ("un", "", "!", "", "x ;", false), ("un", "", "typeof", "", "x ;", false), ("un", "", "- ", "", "x ;", false),
    ("tpl", "x = `h${ a", "}m${ #", "", "}t` ;", false), ("seq", "x = ( #", ", #", "", ") ;", false), ("seq", "", "#", ",", ";", false), ("paren", "x =", "(", "", "", false),
    ("fn", "function x (", "#", ",", ") { }", false), ("fn gen", "function * x (", "# = #", ",", ") { }", false), ("fn async", "async function x (", "{ # }", ",", ") { }", false), ("arrow", "x = (", "#", ",", ") => #", false), ("arrow", "x = (", "[ # ] = #", ",", ") => { }", false), ("arrow async", "x = async (", "#", ",", ") => #", false), ("arrow async", "x = async (", "{ # : # }", ",", ") => { }", false), ("call async", "x = async (", "#", ",", ") ;", false), ("arrow", "x =", "# =>", "", "y ;", false), ("arrow async", "x =", "async # =>", "", "y ;", false), ("fn", "function x ( ) {", "# ;", "", "}", false), ("fn", "function x ( ) {", "function # ( ) { }", "", "}", false), ("arrow", "x =", "( ) =>", "", "y ;", false),
    ("pat", "var [", "#", ",", "] = x ;", false), ("pat", "var {", "#", ",", "} = x ;", false), ("pat", "var {", "# : #", ",", "} = x ;", false), ("pat", "[", "#", ",", "] = x ;", false), ("pat", "( {", "# = #", ",", "} = x ) ;", false), ("pat", "let [", "# = #", ",", "] = x ;", false), ("pat", "const {", "# : { # }", ",", "} = x ;", false), ("pat", "for ( var [", "#", ",", "] of x ) ;", false), ("pat", "var [", ",", "", "a ] = x ;", false), ("pat asg", "", "# =", "", "x ;", false), ("pat asg", "", "[ # ] =", "", "x ;", false), ("pat", "( {", "# : #", ",", "} = x ) ;", false), ("pat", "( {", "#", ",", "} ) => x ;", false),
    ("decl", "var", "#", ",", ";", false), ("decl", "let", "# = #", ",", ";", false), ("decl", "const", "# = #", ",", ";", false), ("decl pat", "var", "[ # ] = #", ",", ";", false), ("stmt decl loop", "for ( var", "#", ",", "; ; ) ;", false), ("stmt loop", "for ( let", "# = #", ",", "; ; ) ;", false),
    ("stmt", "", "# ;", "", "", false), ("stmt", "", ";", "", "", false), ("stmt", "", "{ }", "", "", false), ("stmt block", "{", "# ;", "", "}", false), ("stmt", "", "{", "", "", false), ("stmt if", "", "if ( # ) # ; else", "", "x ;", false), ("stmt if", "", "if ( # )", "", "x ;", false), ("stmt loop", "", "while ( # )", "", "x ;", false), ("stmt loop", "", "for ( ; ; )", "", "x ;", false), ("stmt switch", "switch ( x ) {", "case # :", "", "}", false), ("stmt switch", "switch ( x ) {", "case # : # ;", "", "default : # ; }", false), ("stmt switch", "switch ( x ) { default :", "case # : break ;", "", "}", false), ("stmt switch", "switch ( x ) { case y :", "# ;", "", "}", false), ("stmt label", "", "# :", "", "x ;", false), ("stmt", "", "function # ( ) { }", "", "", false), ("stmt try", "", "try { # ; } catch ( # ) { }", "", "", false), ("stmt loop", "", "do # ; while ( # ) ;", "", "", false), ("dir", "", "'s' ;", "", "", false), ("stmt", "", "var # ;", "", "", false), ("stmt", "", "throw # ;", "", "", false), ("stmt try", "", "try { } finally { }", "", "", false),
    ("class", "class x {", "# ( ) { }", "", "}", false), ("class static", "class x {", "static # ( ) { }", "", "}", false), ("class acc", "class x {", "get # ( ) { }", "", "}", false), ("class acc", "class x {", "set # ( # ) { }", "", "}", false), ("class", "class x {", ";", "", "}", false), ("class gen", "class x {", "* # ( ) { }", "", "}", false), ("class async", "class x {", "async # ( ) { }", "", "}", false), ("class", "class x {", "[ # ] ( ) { }", "", "}", false), ("class", "", "class # { }", "", "", false), ("class", "x =", "class extends", "", "y { } ;", false), ("class", "class x { y (", "#", ",", ") { } }", false),
    ("mod", "import {", "#", ",", "} from 's' ;", true), ("mod", "import {", "# as #", ",", "} from 's' ;", true), ("mod", "export {", "#", ",", "} ;", true), ("mod", "export {", "# as #", ",", "} from 's' ;", true), ("mod", "", "import # from 's' ;", "", "", true), ("mod", "", "export var # ;", "", "", true), ("mod", "", "export * from 's' ;", "", "", true), ("mod", "import y , {", "#", ",", "} from 's' ;", true),
    ("bin", "x =", "# +", "", "y ;", false), ("bin", "x =", "# *", "", "y ;", false), ("bin exp", "x =", "# **", "", "y ;", false), ("bin", "x =", "# ||", "", "y ;", false), ("bin", "x =", "# && # ||", "", "y ;", false), ("bin", "x =", "# + # *", "", "y ;", false), ("bin", "x =", "# <", "", "y ;", false), ("bin", "x =", "# instanceof", "", "y ;", false), ("bin", "x =", "# === # !==", "", "y ;", false), ("cond", "x =", "# ? # :", "", "y ;", false), ("asg", "", "# +=", "", "y ;", false), ("bin un", "x = #", "+ - #", "", ";", false),
    ("gen", "function * x ( ) { yield", "# , yield", "", "; }", false), ("gen", "function * x ( ) {", "yield", "", "}", false), ("async", "async function x ( ) {", "await", "", "y ; }", false),
];
fn nm(i: usize) -> &'static str { let n = if i < 26 { ((b'a' + (i % 26) as u8) as char).to_string() } else { format!("{}{}", (b'a' + (i % 26) as u8) as char, i / 26) }; let n = if matches!(n.as_str(), "x" | "y") { n + "_" } else { n }; Box::leak(n.into_boxed_str()) }
const FLAT: &[&str] = &["# ;", ";", "{ }", ". #", "[ # ]", "( )", ". # ( # )", "`t`", ",", "# ( ) { }", "static # ( ) { }", "get # ( ) { }", "set # ( # ) { }", "* # ( ) { }", "async # ( ) { }", "import # from 's' ;", "export var # ;", "export * from 's' ;", "# +", "# *", "# ||", "# <", "# instanceof"];
/// Every list-like construct with 0..=n elements, with and without a trailing separator, with a doubled or missing separator.
pub fn lists(c: &Check, name: &str, tags: &str, n: usize, frames: &[usize], enf: u64) { lists_at(c, name, tags, &(0..=n).collect::<Vec<_>>(), frames, enf) }
/// The same with the given numbers of elements.
pub fn lists_at(c: &Check, name: &str, tags: &str, sizes: &[usize], frames: &[usize], enf: u64) { lists_of_kind(c, name, tags, sizes, frames, enf, false) }
/// `flat`: only those lists whose elements do not lie inside one another, without the variants of the separators.
pub fn lists_of_kind(c: &Check, name: &str, tags: &str, sizes: &[usize], frames: &[usize], enf: u64, flat: bool) {
    if foreign() { return }
    let t: Vec<&str> = tags.split(' ').collect();
    let mut sc: Vec<Toks> = vec![]; let mut md: Vec<Toks> = vec![];
    for (tg, a, it, sep, b, m) in LISTS {
        if tags != "-" && !tg.split(' ').any(|x| t.contains(&x)) { continue }
        let (a, it, sep, b) = (split(a), split(it), split(sep), split(b));
        // nested if the text with twice as many elements is nested deeper: told by the items themselves
        if flat && (sep.is_empty() && !FLAT.contains(&it.join(" ").as_str())) { continue }
        for &k in sizes {
            for var in 0..4 {
                if flat && var % 3 > 0 { continue }
                if var > 0 && (sep.is_empty() || k == 0) { continue }
                let mut w = a.clone(); let mut q = 0;
                for i in 0..k {
                    if i > 0 && !(var == 3 && i == k / 2) { w.extend(&sep); if var == 2 && i == k / 2 { w.extend(&sep) } }
                    for s in &it { if *s == "#" { w.push(nm(q)); q += 1 } else { w.push(s) } }
                }
                if var == 1 { w.extend(&sep) }
                for s in &b { if *s == "#" { w.push(nm(q)); q += 1 } else { w.push(s) } }
                for s in w.iter_mut() { if *s == "#" { *s = "z" } }
                if it == ["("] { w.push("x"); for _ in 0..k { w.push(")") } w.push(";") }
                if it == ["{"] { for _ in 0..k { w.push("}") } }
                if *m { md.push(w) } else { sc.push(w) }
            }
        }
    }
    if !sc.is_empty() { list(c, name, &sc, frames, false, enf) }
    if !md.is_empty() { list(c, &format!("{} (module items)", name), &md, TOP, true, enf) }
}
/// Every program of the composition space in which one identifier is replaced by each of `words`.
pub fn words(c: &Check, name: &str, tags: &str, depth: usize, frames: &[usize], ws: &[&'static str], enf: u64) {
    if foreign() && depth > 1 { return }
    compose::programs(c, &Comp { name, firsts: firsts(tags), depth, keep: &|_| true, frames, pol: pol(enf), edits: None, siblings: false }, &|l, v, m| {
        let mut w: Toks = v.to_vec();
        for i in 0..v.len() {
            if !v[i].as_bytes()[0].is_ascii_lowercase() || refp::reserved(v[i]) || v[i].len() > 1 { continue }
            for x in ws { w[i] = x; let r = refp::parse(&toks(&w), m); let text = render(&w); l.transitions += 1; judge(c, l, &w, &text, cfg(m), &r, pol(enf)); }
            w[i] = v[i];
        }
    })
}
/// Unusual literals and names of the kind of `t`.
pub fn unusual(t: &str) -> &'static [&'static str] {
    use crate::refp::K;
    match crate::tokseq::kind(t) {
        K::Num => &["0x1F", "0XaB", "1E5", ".5", "5.", "0b1", "0O7", "1e+3", "0", "1.25", "12345678901234567890"],
        K::Str => &["\"\"", "'a\\'b'", "\"it's\"", "'a\\\nb'", "'\u{e9}\u{1F600}'", "'  '", "'use strict'", "'$'", "'\\u{1F600}'", "\"\\\\\""],
        K::Tpl => match (t.starts_with('`'), t.ends_with('`') && t.len() > 1) {
            (true, true) => &["``", "`\\``", "`\u{e9}\n`", "`$`", "`{}`", "`'`", "`//`"],
            (true, false) => &["`${", "`\u{e9}${", "`$${", "`{\n${", "`\\${${"],
            (false, true) => &["}`", "}\u{e9}`", "}}`", "}\\``", "}$`", "}\r\n`"],
            (false, false) => &["}${", "}\u{e9}${", "}}$${", "}\n${", "}\\${${"],
        },
        K::Re => &["/[/]/", "/=/", "/\\//", "/(?:a)/gimsuy", "/\u{e9}/u", "/[\\]/]/", "/\\\\/"],
        K::Word if t.len() == 1 => &["$", "_", "\u{e9}", "a\u{e9}", "iff", "async1", "constructor", "undefined", "prototype", "aB0", "_a_long_name_with_more_than_sixty_four_characters_in_it_as_seen_in_the_wild", "of", "getter"],
        _ => &[],
    }
}
/// Every token of every composition replaced by the unusual tokens of its kind: one after the other, or all at once.
pub fn lexemes(c: &Check, name: &str, tags: &str, depth: usize, frames: &[usize], enf: u64, all: bool) {
    if foreign() { return }
    compose::programs(c, &Comp { name, firsts: firsts(tags), depth, keep: &|_| true, frames, pol: pol(enf), edits: None, siblings: false }, &|l, v, m| {
        let mut w: Toks = v.to_vec();
        let mut ask = |w: &Toks| { let r = refp::parse(&toks(w), m); let text = render(w); l.transitions += 1; judge(c, l, w, &text, cfg(m), &r, pol(enf)); };
        if all { for k in 0..13 { let mut any = false; for i in 0..v.len() { let u = unusual(v[i]); if u.len() > k { w[i] = u[(k + i) % u.len()]; any = true } else { w[i] = v[i] } } if any { ask(&w) } } }
        else { for i in 0..v.len() { for x in unusual(v[i]) { w[i] = x; ask(&w) } w[i] = v[i] } }
    })
}
/// As `lexemes`: one at a time in every context, all at once in the nestings of two.
pub fn dressed(c: &Check, what: &str, tags: &str, m: bool) {
    lexemes(c, &format!("{}, every literal and name replaced by unusual ones", what), tags, 1, if m { crate::checks::TOPMOD } else { ALL_FRAMES }, crate::checks::EVERY, false);
    lexemes(c, &format!("{}, two deep, all literals and names unusual", what), tags, 2, if m { crate::checks::TOPMOD } else { TOP }, crate::checks::EVERY, true);
}
pub fn cats(d: &Der) -> Cat { d.p.get().cat }
pub fn each(l: &mut Local) { l.states += 1 }
