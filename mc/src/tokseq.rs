//! Token sequences: classification of token texts and rendering to program text.
use crate::refp::{Tok, K};
/// The pseudo-token standing for a line terminator between two tokens.
pub const NL: &str = "\n";
pub fn kind(s: &str) -> K {
    let b = s.as_bytes();
    match b[0] {
        b'"' | b'\'' => K::Str,
        b'`' => K::Tpl,
        b'}' if b.len() > 1 => K::Tpl,
        b'0'..=b'9' => K::Num,
        b'.' if b.len() > 1 && b[1].is_ascii_digit() => K::Num,
        b'/' if b.len() > 2 || (b.len() == 2 && b[1] != b'=') => K::Re,
        c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c >= 128 => K::Word,
        _ => K::Punct,
    }
}
/// Turn a list of token texts (with NL marks) into reference tokens.
pub fn toks<'a>(v: &[&'a str]) -> Vec<Tok<'a>> {
    let mut nl = false; let mut o = Vec::with_capacity(v.len());
    for s in v { if *s == NL { nl = true } else { o.push(Tok { k: kind(s), s, nl }); nl = false } }
    o
}
pub fn render(v: &[&str]) -> String {
    let mut o = String::new();
    for s in v { if !o.is_empty() && !o.ends_with('\n') && *s != NL { o.push(' ') } o.push_str(s) }
    o
}
/// Tokens separated by blanks; `NL` is a line terminator, `~` stands for a blank within a string token.
pub fn split(s: &str) -> Vec<&str> {
    s.split(' ').filter(|x| !x.is_empty()).map(|x| if x == "NL" { NL } else if x.contains('~') && x.len() > 1 { &*Box::leak(x.replace('~', " ").into_boxed_str()) } else { x }).collect()
}
