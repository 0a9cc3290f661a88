//! Composition of programs from production templates: every way of placing one production into a
//! hole of another, to a given nesting depth. What the composed text means is not taken from here
//! but from the reference parser (a composed text may well parse as something else, or not at all).
use std::sync::OnceLock;
pub type Toks = Vec<&'static str>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cat { E, P, S, M, O }
#[derive(Clone, Copy, Debug)]
pub enum Sym { T(&'static str), H(Cat) }
pub struct Prod { pub cat: Cat, pub tags: &'static str, pub text: &'static str, pub syms: Vec<Sym>, pub holes: Vec<Cat> }
impl Prod { pub fn has(&self, any: &[&str]) -> bool { self.tags.split(' ').any(|t| any.contains(&t)) } }

const E: &[(&str, &str)] = &[
    ("prim", "this"), ("prim lit", "1"), ("prim lit", "'s'"), ("prim lit", "null"), ("prim lit", "true"), ("prim lit", "/r/g"), ("tpl lit", "`t`"),
    ("tpl", "`h${ @E }t`"), ("tpl", "`h${ @E }m${ @E }t`"),
    ("arr", "[ ]"), ("arr", "[ @E ]"), ("arr", "[ @E , @E ]"), ("arr", "[ , @E , , ]"), ("arr spread", "[ ... @E , @E ]"), ("arr spread", "[ @E , ... @E ]"),
    ("obj", "{ }"), ("obj", "{ @O }"), ("obj", "{ @O , @O }"), ("obj", "{ @O , }"),
    ("paren", "( @E )"), ("paren seq", "( @E , @E )"),
    ("fn", "function ( ) { @S }"), ("fn", "function a ( @P , @P ) { @S }"), ("fn gen", "function * ( @P ) { @S }"), ("fn async", "async function ( @P ) { @S }"), ("fn async gen", "async function * a ( ) { @S }"), ("fn", "function ( ... @P ) { }"),
    ("class", "class { @M }"), ("class", "class a extends @E { @M @M }"),
    ("mem", "@E . a"), ("mem", "@E . if"), ("mem", "@E [ @E ]"), ("call", "@E ( )"), ("call", "@E ( @E , @E )"), ("call spread", "@E ( ... @E )"), ("call", "@E ( @E , )"), ("new", "new @E"), ("new", "new @E ( @E )"), ("new", "new @E . a ( )"),
    ("tpl tag", "@E `t`"), ("tpl tag", "@E `h${ @E }t`"), ("ctx", "new . target"), ("ctx", "super . a"), ("ctx", "super [ @E ]"), ("ctx", "super ( @E )"), ("call", "import ( @E )"),
    ("upd", "@E ++"), ("upd", "@E --"), ("upd", "++ @E"), ("upd", "-- @E"),
    ("un", "delete @E"), ("un", "void @E"), ("un", "typeof @E"), ("un", "+ @E"), ("un", "- @E"), ("un", "~ @E"), ("un", "! @E"), ("un await", "await @E"),
    ("bin", "@E || @E"), ("bin", "@E && @E"), ("bin", "@E | @E"), ("bin", "@E ^ @E"), ("bin", "@E & @E"), ("bin", "@E == @E"), ("bin", "@E != @E"), ("bin", "@E === @E"), ("bin", "@E !== @E"),
    ("bin", "@E < @E"), ("bin", "@E > @E"), ("bin", "@E <= @E"), ("bin", "@E >= @E"), ("bin", "@E instanceof @E"), ("bin in", "@E in @E"), ("bin", "@E << @E"), ("bin", "@E >> @E"), ("bin", "@E >>> @E"),
    ("bin", "@E + @E"), ("bin", "@E - @E"), ("bin", "@E * @E"), ("bin", "@E / @E"), ("bin", "@E % @E"), ("bin exp", "@E ** @E"),
    ("cond", "@E ? @E : @E"),
    ("asg", "@E = @E"), ("asg", "@E += @E"), ("asg", "@E -= @E"), ("asg", "@E *= @E"), ("asg", "@E /= @E"), ("asg", "@E %= @E"), ("asg", "@E **= @E"), ("asg", "@E <<= @E"), ("asg", "@E >>= @E"), ("asg", "@E >>>= @E"), ("asg", "@E &= @E"), ("asg", "@E ^= @E"), ("asg", "@E |= @E"),
    ("arrow", "a => @E"), ("arrow", "( ) => @E"), ("arrow", "( @P , @P ) => @E"), ("arrow", "( @P , ... @P ) => { @S }"), ("arrow", "a => { @S }"), ("arrow async", "async a => @E"), ("arrow async", "async ( @P ) => @E"), ("arrow async", "async ( @P , @P ) => { @S }"), ("arrow", "( @E ) => @E"),
    ("yield gen", "yield"), ("yield gen", "yield @E"), ("yield gen", "yield * @E"), ("seq", "@E , @E"), ("call async", "async ( @E )"),
];
const P: &[(&str, &str)] = &[
    ("pat", "a = @E"), ("pat", "[ ]"), ("pat", "[ @P , @P ]"), ("pat", "[ , @P , ]"), ("pat", "[ ... @P ]"), ("pat", "[ @P , ... @P ]"), ("pat", "{ }"), ("pat", "{ a }"), ("pat", "{ a , b }"), ("pat", "{ a = @E }"), ("pat", "{ a : @P , b : @P }"), ("pat", "{ [ @E ] : @P }"), ("pat", "{ ... a }"), ("pat", "{ 's' : @P , }"), ("pat", "[ @P ] = @E"), ("pat", "{ a : @P } = @E"), ("pat", "{ 1 : @P = @E }"),
];
const O: &[(&str, &str)] = &[
    ("obj", "a"), ("obj", "a : @E"), ("obj", "'s' : @E"), ("obj", "1 : @E"), ("obj", "[ @E ] : @E"), ("obj method", "a ( @P ) { @S }"), ("obj acc", "get a ( ) { @S }"), ("obj acc", "set a ( @P ) { @S }"), ("obj method gen", "* a ( ) { @S }"), ("obj method async", "async a ( @P ) { @S }"), ("obj method async gen", "async * a ( ) { @S }"),
    ("obj spread", "... @E"), ("obj pat", "a = @E"), ("obj", "get : @E"), ("obj method", "set ( @P ) { @S }"), ("obj", "async : @E"), ("obj method", "[ @E ] ( ) { @S }"), ("obj acc", "get [ @E ] ( ) { @S }"), ("obj acc", "set 's' ( @P ) { @S }"), ("obj", "if : @E"), ("obj method", "'s' ( ) { @S }"), ("obj", "static : @E"),
];
const M: &[(&str, &str)] = &[
    ("class", "a ( @P ) { @S }"), ("class static", "static a ( @P ) { @S }"), ("class acc", "get a ( ) { @S }"), ("class acc", "set a ( @P ) { @S }"), ("class acc static", "static get a ( ) { @S }"), ("class acc static", "static set a ( @P ) { @S }"), ("class ctor", "constructor ( @P ) { @S }"), ("class gen", "* a ( @P ) { @S }"), ("class gen static", "static * a ( ) { @S }"),
    ("class async", "async a ( @P ) { @S }"), ("class async gen", "async * a ( ) { @S }"), ("class async static", "static async a ( ) { @S }"), ("class", "[ @E ] ( ) { @S }"), ("class static", "static [ @E ] ( @P ) { @S }"), ("class", "'s' ( ) { @S }"), ("class", "1 ( ) { }"), ("class", ";"), ("class", "get ( ) { @S }"), ("class", "static ( ) { @S }"), ("class", "async ( ) { @S }"), ("class", "if ( @P , @P ) { @S }"), ("class acc", "get [ @E ] ( ) { @S }"), ("class async gen static", "static async * 's' ( @P ) { @S }"), ("class", "set ( ) { }"), ("class static", "static static ( ) { }"),
];
const S: &[(&str, &str)] = &[
    ("empty", ";"), ("block", "{ }"), ("block", "{ @S }"), ("block", "{ @S @S }"), ("exprstmt", "@E ;"), ("dir", "'s' ;"),
    ("decl var", "var a ;"), ("decl var", "var a = @E , b = @E ;"), ("decl var pat", "var @P = @E ;"), ("decl let", "let a ;"), ("decl let", "let a = @E , b ;"), ("decl let pat", "let @P = @E ;"), ("decl const", "const a = @E ;"), ("decl const pat", "const @P = @E , b = @E ;"),
    ("if", "if ( @E ) @S"), ("if", "if ( @E ) @S else @S"),
    ("loop", "while ( @E ) @S"), ("loop", "do @S while ( @E ) ;"), ("loop for", "for ( ; ; ) @S"), ("loop for", "for ( @E ; @E ; @E ) @S"), ("loop for", "for ( var a = @E , b ; @E ; @E ) @S"), ("loop for", "for ( let a = @E ; ; ) @S"), ("loop for", "for ( const @P = @E ; ; @E ) @S"),
    ("loop forin", "for ( @E in @E ) @S"), ("loop forin", "for ( var @P in @E ) @S"), ("loop forin", "for ( let @P in @E ) @S"), ("loop forin", "for ( const a in @E ) @S"),
    ("loop forof", "for ( @E of @E ) @S"), ("loop forof", "for ( var @P of @E ) @S"), ("loop forof", "for ( let a of @E ) @S"), ("loop forof", "for ( const @P of @E ) @S"), ("loop forof await", "for await ( const @P of @E ) @S"), ("loop forof await", "for await ( @E of @E ) @S"),
    ("jump", "continue ;"), ("jump", "break ;"), ("jump", "continue a ;"), ("jump", "break a ;"), ("jump ret", "return ;"), ("jump ret", "return @E ;"), ("jump throw", "throw @E ;"),
    ("with", "with ( @E ) @S"), ("switch", "switch ( @E ) { }"), ("switch", "switch ( @E ) { case @E : @S @S default : @S case @E : }"), ("switch", "switch ( @E ) { default : case @E : @S }"),
    ("try", "try { @S } catch ( @P ) { @S }"), ("try", "try { @S } finally { @S }"), ("try", "try { @S } catch ( a ) { @S } finally { @S }"), ("try", "try { } catch { @S }"),
    ("label", "a : @S"), ("dbg", "debugger ;"),
    ("fn", "function a ( @P ) { @S @S }"), ("fn gen", "function * a ( @P , @P ) { @S }"), ("fn async", "async function a ( @P ) { @S }"), ("fn async gen", "async function * a ( ... @P ) { @S }"),
    ("class", "class a { @M @M }"), ("class", "class a extends @E { @M }"),
];
/// module items
pub const MODITEMS: &[&str] = &[
    "import 's' ;", "import a from 's' ;", "import * as a from 's' ;", "import { } from 's' ;", "import { a } from 's' ;", "import { a , b as c , } from 's' ;", "import { default as a } from 's' ;", "import { if as a , get } from 's' ;", "import a , * as b from 's' ;", "import a , { b } from 's' ;", "import a , { b as c , d } from 's' ;",
    "export * from 's' ;", "export { } from 's' ;", "export { a , b as c , } from 's' ;", "export { default } from 's' ;", "export { if as default , default as else } from 's' ;", "export { } ;", "export { a } ;", "export { a as b , c as default , } ;",
    "export var a = @E , b ;", "export var @P = @E ;", "export let a = @E ;", "export let @P = @E ;", "export const a = @E , @P = @E ;", "export function a ( @P ) { @S }", "export function * a ( ) { @S }", "export async function a ( ) { @S }", "export async function * a ( @P ) { @S }", "export class a { @M }", "export class a extends @E { }",
    "export default @E ;", "export default function a ( @P ) { @S }", "export default function ( ) { @S }", "export default function * ( @P ) { @S }", "export default async function ( ) { @S }", "export default async function a ( @P ) { @S }", "export default async function * ( ) { @S }", "export default class { @M }", "export default class a { @M }", "export default class a extends @E { @M }", "export default class extends @E { @M }", "export default [ @E , @E ] ;", "export default { @O } ;", "export default ( @E ) ;", "export default async ( @P ) => @E ;", "export default a => @E ;",
];
fn prod(cat: Cat, tags: &'static str, text: &'static str) -> Prod {
    let mut syms = vec![]; let mut holes = vec![];
    for t in text.split(' ') { match t { "@E" => { syms.push(Sym::H(Cat::E)); holes.push(Cat::E) } "@P" => { syms.push(Sym::H(Cat::P)); holes.push(Cat::P) } "@S" => { syms.push(Sym::H(Cat::S)); holes.push(Cat::S) } "@M" => { syms.push(Sym::H(Cat::M)); holes.push(Cat::M) } "@O" => { syms.push(Sym::H(Cat::O)); holes.push(Cat::O) } t => syms.push(Sym::T(t)) } }
    Prod { cat, tags, text, syms, holes }
}
pub struct Gram { pub prods: Vec<Prod>, by: [Vec<usize>; 5] }
pub fn gram() -> &'static Gram {
    static G: OnceLock<Gram> = OnceLock::new();
    G.get_or_init(|| {
        let mut prods = vec![]; let mut by: [Vec<usize>; 5] = Default::default();
        for (c, l) in [(Cat::E, E), (Cat::P, P), (Cat::S, S), (Cat::M, M), (Cat::O, O)] { for (t, x) in l { by[c as usize].push(prods.len()); prods.push(prod(c, t, x)) } }
        Gram { prods, by }
    })
}
pub fn moditems() -> &'static Vec<Prod> { static G: OnceLock<Vec<Prod>> = OnceLock::new(); G.get_or_init(|| MODITEMS.iter().map(|t| prod(Cat::S, "mod", t)).collect()) }
impl Gram {
    pub fn of(&self, c: Cat) -> &[usize] { &self.by[c as usize] }
    pub fn p(&self, i: usize) -> &Prod { &self.prods[i] }
    pub fn tagged(&self, any: &[&str]) -> Vec<usize> { (0..self.prods.len()).filter(|&i| self.prods[i].has(any)).collect() }
}
/// A derivation: a production and, for some of its holes, derivations (the others are leaves).
#[derive(Clone, Debug)]
pub struct Der { pub p: Ref, pub kids: Vec<(usize, Der)> }
#[derive(Clone, Copy, Debug)]
pub enum Ref { G(usize), M(usize), W(usize), X(usize) }
impl Ref { pub fn get(self) -> &'static Prod { match self { Ref::G(i) => &gram().prods[i], Ref::M(i) => &moditems()[i], Ref::W(i) => &wide()[i], Ref::X(i) => &odd()[i] } } }
/// Texts put in the place of a hole which are expressions or patterns in few places: what only a pattern may contain, what no pattern may contain, what has no value.
pub const ODD: &[&str] = &["{ a = 1 }", "[ { a = 1 } ]", "( { a = 1 } )", "{ x : { a = 1 } }", "{ a = 1 } = c", "[ { a = 1 } ] = c", "async ( { a = 1 } )", "a ( { a = 1 } )", "{ a = 1 } . b", "{ a = 1 } , b", "b , { a = 1 }", "{ a = 1 } ? b : c", "( { a = 1 } ) => b", "c = { a = 1 }", "{ ... { a = 1 } }", "{ x : { a = 1 } = c }", "{ a , b }", "[ a . b ]", "{ a : ( b ) }", "( { a } )", "a = b", "( a = b )", "( a )", "1", "this", "a ( )", "a => b", "( )", "( ... a )", "( a , )", "async ( a , ... b )", "yield", "await", "eval", "let", "async", "a , b", "... a", "a in b", "new . target", "super . a"];
pub fn odd() -> &'static Vec<Prod> { static G: OnceLock<Vec<Prod>> = OnceLock::new(); G.get_or_init(|| ODD.iter().map(|t| prod(Cat::E, "odd", t)).collect()) }
/// All combinations of the parts each construct is made of: too many to compose freely, see `spaces::wide`.
pub fn wide() -> &'static Vec<Prod> { static G: OnceLock<Vec<Prod>> = OnceLock::new(); G.get_or_init(make_wide) }
fn make_wide() -> Vec<Prod> {
    let mut v: Vec<(Cat, &'static str, String)> = vec![];
    // every list of up to `n` of `of`, separated by `sep`
    fn lists(of: &[&str], n: usize, sep: &str) -> Vec<String> {
        let mut all = vec![String::new()]; let mut last = vec![Vec::<&str>::new()];
        for _ in 0..n { let mut next = vec![]; for x in &last { for o in of { let mut y = x.clone(); y.push(*o); all.push(y.join(sep)); next.push(y) } } last = next }
        all
    }
    const PAR: &[&str] = &["( )", "( a )", "( a , )", "( @P )", "( @P , @P )", "( @P , )", "( ... @P )", "( @P , ... @P )", "( a , b , c )", "( a = @E , b )", "( { a } , [ b ] )", "( ... a , )", "( , a )"];
    // functions and classes
    for h in ["function", "function *", "async function", "async function *"] { for p in PAR {
        for n in ["", "a"] { v.push((Cat::E, "fn", format!("{} {} {} {{ @S }}", h, n, p))); v.push((Cat::S, "mod fn", format!("export default {} {} {} {{ @S }}", h, n, p))) }
        v.push((Cat::S, "fn", format!("{} a {} {{ @S }}", h, p))); v.push((Cat::S, "mod fn", format!("export {} a {} {{ @S }}", h, p)));
    } }
    for p in PAR.iter().chain(&["a"]) { for h in ["", "async"] { for b in ["@E", "{ @S }", "{ }", "( { @O } )"] { v.push((Cat::E, "arrow", format!("{} {} => {}", h, p, b))) } } }
    for x in ["", "extends @E"] { for b in ["{ }", "{ ; }", "{ @M }", "{ @M @M }", "{ ; @M ; ; }", "{ @M ; @M }", "{ @M @M @M }"] {
        for n in ["", "a"] { v.push((Cat::E, "class", format!("class {} {} {}", n, x, b))); v.push((Cat::S, "mod class", format!("export default class {} {} {}", n, x, b))) }
        v.push((Cat::S, "class", format!("class a {} {}", x, b))); v.push((Cat::S, "mod class", format!("export class a {} {}", x, b)));
    } }
    const KEYS: &[&str] = &["a", "'s'", "1", "[ @E ]", "if", "get", "set", "async", "static", "constructor", "await", "yield", "prototype", "null", "'constructor'", "let", "of"];
    for k in KEYS {
        for (m, ps) in [("", &["( )", "( @P )", "( @P , @P )", "( ... @P )"][..]), ("get", &["( )", "( a )"]), ("set", &["( a )", "( @P )", "( )", "( a = @E )", "( ... a )", "( a , b )"]), ("async", &["( )", "( @P )", "( @P , )"]), ("*", &["( )", "( @P )"]), ("async *", &["( )", "( @P , ... @P )"])] { for p in ps {
            v.push((Cat::O, "obj", format!("{} {} {} {{ @S }}", m, k, p)));
            for st in ["", "static"] { v.push((Cat::M, "class", format!("{} {} {} {} {{ @S }}", st, m, k, p))) }
        } }
        v.push((Cat::O, "obj", format!("{} : @E", k))); v.push((Cat::O, "obj", k.to_string())); v.push((Cat::O, "obj", format!("{} = @E", k)));
        v.push((Cat::P, "pat", format!("{{ {} : @P }}", k))); v.push((Cat::P, "pat", format!("{{ {} : @P = @E , }}", k))); v.push((Cat::P, "pat", format!("{{ {} }}", k))); v.push((Cat::P, "pat", format!("{{ {} = @E }}", k)));
        v.push((Cat::E, "mem", format!("@E . {}", k))); v.push((Cat::E, "mem new", format!("new @E . {} ( )", k)));
    }
    // expressions
    let args = ["( )", "( @E )", "( @E , )", "( @E , @E )", "( ... @E )", "( @E , ... @E )", "( ... @E , @E )", "( ... @E , ... @E , )", "( @E , @E , @E )", "( , )", "( @E , , @E )"];
    for c in ["@E", "@E . a", "@E [ @E ]", "new @E", "new @E . a", "new new @E", "async", "super", "super . a", "import", "this", "@E ( )", "new ( @E )", "@E `t`"] { for a in args { for x in ["", ". a", "[ @E ]", "( )", "`t`", "++", ". a ( )"] { v.push((Cat::E, "call", format!("{} {} {}", c, a, x))) } } }
    for x in lists(&["@E", "... @E", "a = @E"], 3, ",") { for t in ["", ","] { for n in [0, 1, 2] { let e = vec![","; n].join(" "); v.push((Cat::E, "arr", format!("[ {} {} {} ]", e, x, t))); if n < 2 { v.push((Cat::E, "asg", format!("[ {} {} {} ] = @E", e, x, t))) } } } }
    for x in lists(&["@O", "a", "... @E"], 3, ",") { for t in ["", ","] { v.push((Cat::E, "obj", format!("{{ {} {} }}", x, t))); v.push((Cat::E, "asg", format!("( {{ {} {} }} = @E )", x, t))) } }
    for x in ["`t`", "`h${ @E }t`", "`h${ @E }m${ @E }t`", "`h${ @E }m${ @E }n${ @E }t`", "`h${ @E , @E }t`", "`h${ { @O } }t`", "`h${ `h${ @E }t` }t`"] { for t in ["", "@E", "@E . a", "@E ( )", "new @E", "super . a"] { v.push((Cat::E, "tpl", format!("{} {}", t, x))) } }
    for a in lists(&["delete", "void", "typeof", "+", "-", "~", "!", "++", "--", "await", "new"], 2, " ") { for x in ["@E", "@E . a", "@E ++", "( @E )", "@E ( )", "@E ** @E", "@E * @E"] { v.push((Cat::E, "un", format!("{} {}", a, x))) } }
    for x in ["@E , @E , @E", "@E ? @E : @E ? @E : @E", "@E ? @E ? @E : @E : @E", "@E ? @E , @E : @E", "@E = @E = @E", "@E += @E = @E", "@E = @E ? @E : @E", "@E ? @E = @E : @E = @E", "a => a => @E", "@E = a => @E", "a => @E = @E", "a => @E ? @E : @E", "@E ? a => @E : a => @E", "yield yield @E", "yield * yield @E", "yield @E , @E", "yield @E = @E", "@E = yield @E", "yield a => @E", "await await @E", "await @E . a", "await @E ( )", "- await @E", "await - @E", "( yield @E )", "@E ? yield @E : yield @E", "[ yield @E , yield ]", "@E ( yield , yield @E )"] { v.push((Cat::E, "mix", x.to_string())) }
    // patterns
    for x in lists(&["a", "a = @E", "a : @P", "'s' : @P", "[ @E ] : @P = @E", "... a"], 3, ",") { for t in ["", ","] { v.push((Cat::P, "pat", format!("{{ {} {} }}", x, t))) } }
    for x in lists(&["@P", "... @P", "a = @E"], 3, ",") { for t in ["", ","] { for n in [0, 1, 2] { v.push((Cat::P, "pat", format!("[ {} {} {} ]", vec![","; n].join(" "), x, t))) } } }
    // statements
    let lefts = ["@E", "var a", "var @P", "let a", "let @P", "const a", "const @P", "var a = @E", "let a = @E", "var a , b", "let", "async", "@E . a", "( @E )", "[ @E ]", "{ @O }"];
    for h in ["for", "for await"] { for l in lefts { for o in ["in", "of"] { for r in ["@E", "@E , @E", "a => @E"] { for b in ["@S", "{ @S }"] { v.push((Cat::S, "loop", format!("{} ( {} {} {} ) {}", h, l, o, r, b))) } } } } }
    for h in ["for", "for await"] { for i in ["", "@E", "@E , @E", "var a", "var a = @E", "var @P = @E , b", "let a , b = @E", "let @P = @E", "let", "const a = @E", "const @P = @E , b = @E", "const a", "async"] { for t in ["", "@E", "@E , @E"] { for u in ["", "@E", "@E , @E"] { for b in ["@S", ";"] { v.push((Cat::S, "loop", format!("{} ( {} ; {} ; {} ) {}", h, i, t, u, b))) } } } } }
    for k in ["var", "let", "const"] { for x in lists(&["a", "b = @E", "@P", "[ @P ] = @E", "{ @P } = @E"], 3, ",") { for e in [";", ", ;", "NL"] { v.push((Cat::S, "decl", format!("{} {} {}", k, x, e))) } if x.len() < 20 { v.push((Cat::S, "mod decl", format!("export {} {} ;", k, x))) } } }
    let bodies = ["@S", ";", "{ }", "{ @S }", "if ( @E ) @S", "if ( @E ) @S else @S", "while ( @E ) @S", "function a ( ) { @S }", "a : @S", "a : b : @S", "@E NL", "return", "var a NL", "do @S while ( @E )", "do ; while ( @E ) ;", "try { @S } finally { @S }", "switch ( @E ) { }", "throw @E ;", "return @E NL", "let a ;", "class a { }", "function * a ( ) { }", "async function a ( ) { }", "let NL a ;", "async NL function a ( ) { }", "'s' ;"];
    for h in ["", "if ( @E )", "while ( @E )", "do", "for ( ; ; )", "for ( @E of @E )", "for ( var a in @E )", "with ( @E )", "a :", "a : b :"] { for b in bodies { for t in ["", "else", "while ( @E )", "while ( @E ) ;"] {
        if t == "else" { for e in bodies.iter().take(12) { v.push((Cat::S, "body", format!("{} {} else {}", h, b, e))) } } else { v.push((Cat::S, "body", format!("{} {} {}", h, b, t))) }
    } } }
    for x in lists(&["case @E :", "case @E : @S", "case @E , @E : @S @S", "default :", "default : @S @S"], 3, " ") { v.push((Cat::S, "switch", format!("switch ( @E ) {{ {} }}", x))) }
    for b in ["{ }", "{ @S }", "{ @S @S }"] { for k in ["", "catch { @S }", "catch ( a ) { }", "catch ( @P ) { @S }", "catch ( ) { }", "catch ( a , b ) { }"] { for f in ["", "finally { }", "finally { @S }"] { v.push((Cat::S, "try", format!("try {} {} {}", b, k, f))) } } }
    // the parts of a construct in every order
    for x in lists(&["catch { }", "catch ( a ) { @S }", "finally { @S }", "{ }"], 3, " ") { v.push((Cat::S, "try", format!("try {{ @S }} {}", x))); v.push((Cat::S, "try", format!("try {}", x))) }
    for x in lists(&["@E", "var a", "of", "in", ";", "let"], 4, " ") { v.push((Cat::S, "loop", format!("for ( {} ) @S", x))) }
    for x in lists(&["else @S", "else if ( @E ) @S", "@S", "else"], 3, " ") { v.push((Cat::S, "body", format!("if ( @E ) @S {}", x))) }
    for x in lists(&["static", "get", "set", "async", "*", "a"], 4, " ") { for e in ["( ) { }", "( a ) { }"] { v.push((Cat::M, "class", format!("{} {}", x, e))); v.push((Cat::O, "obj", format!("{} {}", x, e))) } v.push((Cat::O, "obj", format!("{} : @E", x))) }
    for x in lists(&["async", "function", "*", "a", "( )", "{ }", "=>"], 4, " ") { v.push((Cat::E, "fn", x.clone())); v.push((Cat::S, "fn", x.clone())) }
    for x in lists(&["class", "a", "extends", "{ }"], 4, " ") { v.push((Cat::E, "class", x.clone())); v.push((Cat::S, "class", x.clone())) }
    for x in lists(&["a", "* as b", "{ c }", ",", "from 's'", "'s'", "*"], 4, " ") { for h in ["import", "export", "export default"] { v.push((Cat::S, "mod", format!("{} {} ;", h, x))) } }
    for x in lists(&["export", "default", "function a ( ) { }", "class a { }", "var a", "@E ;", "async"], 4, " ") { v.push((Cat::S, "mod", x)) }
    for x in lists(&["do @S", "while ( @E )", "@S", ";"], 4, " ") { v.push((Cat::S, "loop", x)) }
    // module items
    let names = lists(&["b", "b as d", "default as d", "if as d", "as", "as as as", "from as d", "get"], 2, ",");
    let mut clauses: Vec<String> = vec!["".into(), "* as b".into(), "*".into(), "* as default".into()];
    for x in &names { for t in ["", ","] { clauses.push(format!("{{ {} {} }}", x, t)) } }
    for d in ["", "a", "from", "as", "get", "async", "{ c }"] { for c in &clauses { let comma = if d != "" && c != "" { "," } else { "" }; v.push((Cat::S, "mod", format!("import {} {} {} from 's' ;", d, comma, c))) } }
    for x in lists(&["b", "b as d", "b as default", "b as if", "default", "if as b", "as", "as as as", "from"], 2, ",") { for t in ["", ","] { for f in ["", "from 's'"] { for e in [";", "NL"] { v.push((Cat::S, "mod", format!("export {{ {} {} }} {} {}", x, t, f, e))) } } } }
    let mut seen = std::collections::HashSet::new();
    v.into_iter().map(|(c, t, x)| (c, t, x.split_whitespace().collect::<Vec<_>>().join(" "))).filter(|x| !x.2.is_empty() && seen.insert((x.0 as u8, x.1.contains("mod"), x.2.clone()))).map(|(c, t, x)| {
        let x: &'static str = Box::leak(x.into_boxed_str());
        let mut p = prod(c, t, x);
        for s in &mut p.syms { if let Sym::T("NL") = s { *s = Sym::T(crate::tokseq::NL) } }
        p
    }).collect()
}
const FRESH: &[&str] = &["b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "y", "z"];
fn fresh(n: &mut usize) -> &'static str { let r = FRESH[*n % FRESH.len()]; *n += 1; r }
pub fn leaf(c: Cat, n: &mut usize, o: &mut Toks) {
    match c { Cat::E | Cat::P => o.push(fresh(n)), Cat::S => { o.push(fresh(n)); o.push(";") } Cat::M => { o.push(fresh(n)); o.extend(["(", ")", "{", "}"]) } Cat::O => { o.push(fresh(n)); o.push(":"); o.push(fresh(n)) } }
}
pub fn emit(d: &Der, n: &mut usize, o: &mut Toks) {
    let p = d.p.get(); let mut h = 0;
    for s in &p.syms {
        match s {
            Sym::T(t) => o.push(t),
            Sym::H(c) => { match d.kids.iter().find(|k| k.0 == h) { Some((_, k)) => emit(k, n, o), None => leaf(*c, n, o) } h += 1 }
        }
    }
}
/// The derivation as a program: statements stand alone, expressions in frames that show them at the
/// start of a statement and elsewhere, patterns in a declaration, members in a class or an object.
pub fn program(d: &Der, frame: usize) -> Option<Toks> {
    let mut o = vec![]; let mut n = 0;
    match (d.p.get().cat, frame) {
        (Cat::S, 0) => emit(d, &mut n, &mut o),
        (Cat::E, 0) => { o.extend(["x", "="]); emit(d, &mut n, &mut o); o.push(";") }
        (Cat::E, 1) => { emit(d, &mut n, &mut o); o.push(";") }
        (Cat::P, 0) => { o.push("var"); emit(d, &mut n, &mut o); if *o.last().unwrap() == "}" || *o.last().unwrap() == "]" { o.extend(["=", "x"]) } o.push(";") }
        (Cat::P, 1) => { o.extend(["function", "x", "("]); emit(d, &mut n, &mut o); o.extend([")", "{", "}"]) }
        (Cat::P, 2) => { o.push("("); emit(d, &mut n, &mut o); o.extend([")", "=>", "x"]) }
        (Cat::P, 3) => { o.extend(["x", "=", "["]); emit(d, &mut n, &mut o); o.extend(["]", "=", "x"]) }
        (Cat::M, 0) => { o.extend(["class", "x", "extends", "y", "{"]); emit(d, &mut n, &mut o); o.push("}") }
        (Cat::O, 0) => { o.extend(["x", "=", "{"]); emit(d, &mut n, &mut o); o.push("}") }
        (Cat::O, 1) => { o.extend(["(", "{"]); emit(d, &mut n, &mut o); o.extend(["}", ")"]) }
        _ => return None,
    }
    Some(o)
}
pub fn frames(c: Cat) -> usize { match c { Cat::S | Cat::M => 1, Cat::E | Cat::O => 2, Cat::P => 4 } }
/// Calls `f` on every chain of productions p1[h1 <- p2[h2 <- p3 ...]] of length `depth` whose first is `first`.
pub fn chains(first: Ref, depth: usize, f: &mut impl FnMut(&Der)) {
    fn go(path: &mut Vec<(Ref, usize)>, last: Ref, depth: usize, f: &mut impl FnMut(&Der)) {
        if depth == 1 {
            let mut d = Der { p: last, kids: vec![] };
            for (r, h) in path.iter().rev() { d = Der { p: *r, kids: vec![(*h, d)] } }
            f(&d); return
        }
        for (h, c) in last.get().holes.iter().enumerate() { for &k in gram().of(*c) { path.push((last, h)); go(path, Ref::G(k), depth - 1, f); path.pop(); } }
    }
    go(&mut vec![], first, depth, f)
}
/// Calls `f` on `first` with every two of its holes filled by every two productions.
pub fn siblings(first: Ref, f: &mut impl FnMut(&Der)) {
    let hs = &first.get().holes;
    for i in 0..hs.len() { for j in i + 1..hs.len() { for &a in gram().of(hs[i]) { for &b in gram().of(hs[j]) {
        f(&Der { p: first, kids: vec![(i, Der { p: Ref::G(a), kids: vec![] }), (j, Der { p: Ref::G(b), kids: vec![] })] })
    } } } }
}
/// Contexts a program is placed into: (name, before, after, module)
pub const FRAMES: &[(&str, &str, &str, bool)] = &[
    ("top level", "", "", false),
    ("function", "function x ( ) {", "}", false),
    ("generator", "function * x ( ) {", "}", false),
    ("async function", "async function x ( ) {", "}", false),
    ("async generator", "async function * x ( ) {", "}", false),
    ("arrow function", "x = ( ) => {", "}", false),
    ("async arrow function", "x = async ( ) => {", "}", false),
    ("constructor of a derived class", "class x extends y { constructor ( ) {", "} }", false),
    ("static generator method", "class x { static * y ( ) {", "} }", false),
    ("getter", "x = { get y ( ) {", "} }", false),
    ("loop", "while ( x ) {", "}", false),
    ("labelled loop", "a : while ( x ) {", "}", false),
    ("switch case", "switch ( x ) { case y :", "}", false),
    ("strict code", "'use~strict' ;", "", false),
    ("strict function", "function x ( ) { 'use~strict' ;", "}", false),
    ("module", "", "", true),
];
/// `FRAMES`, with the texts split
pub fn frame(i: usize) -> (Toks, Toks, bool) { let f = &FRAMES[i]; (crate::tokseq::split(f.1), crate::tokseq::split(f.2), f.3) }
