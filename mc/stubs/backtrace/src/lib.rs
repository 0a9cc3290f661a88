//! Zero-cost stand-in for the `backtrace` crate: RESSA captures a backtrace for
//! every error it returns, which it only logs; model checking makes millions of errors.
#[derive(Clone, Debug, Default)]
pub struct Backtrace;
#[derive(Clone, Debug, Default)]
pub struct BacktraceFrame;
impl Backtrace {
    pub fn new() -> Self { Backtrace }
    pub fn new_unresolved() -> Self { Backtrace }
    pub fn resolve(&mut self) {}
    pub fn frames(&self) -> &[BacktraceFrame] { &[] }
}
