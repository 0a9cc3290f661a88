//! What the tokenizer (the `ress` crate, a dependency) makes of a text. The properties are about
//! the parser: a text the tokenizer cannot split into the intended tokens is outside them.
use ress::refs::{RefScanner, RefToken};
use std::panic::{catch_unwind, AssertUnwindSafe};
#[derive(Clone, Debug, PartialEq)]
pub struct Span { pub start: usize, pub end: usize, pub comment: bool }
/// None: the tokenizer panics or does not reach the end of the text.
pub fn spans(text: &str) -> Option<Vec<Span>> {
    let n = text.len() + 8;
    catch_unwind(AssertUnwindSafe(|| {
        let mut v = vec![];
        let mut s = RefScanner::new(text);
        for _ in 0..n {
            match s.next() {
                None => return Some(v),
                Some(i) => { if let RefToken::EoF = i.token { return Some(v) } v.push(Span { start: i.span.start, end: i.span.end, comment: matches!(i.token, RefToken::Comment(_)) }) }
            }
        }
        None
    })).ok().flatten()
}
pub fn texts(text: &str) -> Option<Vec<String>> { spans(text).map(|v| v.into_iter().filter(|s| !s.comment).map(|s| text[s.start..s.end].to_string()).collect()) }
/// Does the tokenizer split `text` into exactly `want`?
pub fn splits_as(text: &str, want: &[&str]) -> bool {
    match texts(text) { None => false, Some(v) => { let mut i = 0; for w in want { if *w == crate::tokseq::NL { continue } if i >= v.len() || v[i] != *w { return false } i += 1 } i == v.len() } }
}
/// Where the tokenizer sees comments.
pub fn comments(text: &str) -> Option<Vec<(usize, usize)>> { spans(text).map(|v| v.into_iter().filter(|s| s.comment).map(|s| (s.start, s.end)).collect()) }
pub struct Token { pub start: usize, pub end: usize, pub debug: String }
/// The tokens as the parser gets them, comments left out, the end of the text last.
pub fn tokens(text: &str) -> Option<Vec<Token>> {
    let n = text.len() + 8;
    catch_unwind(AssertUnwindSafe(|| {
        let mut v = vec![];
        let mut s = RefScanner::new(text);
        for _ in 0..n {
            match s.next() {
                None => return Some(v),
                Some(i) => { let eof = matches!(i.token, RefToken::EoF); if !matches!(i.token, RefToken::Comment(_)) { v.push(Token { start: i.span.start, end: i.span.end, debug: format!("{:?}", i.token) }) } if eof { return Some(v) } }
            }
        }
        None
    })).ok().flatten()
}
