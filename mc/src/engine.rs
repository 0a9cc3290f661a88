//! Exploration engine: parallel exhaustive enumeration, supervision of the implementation
//! (panics, hangs, crashes, memory), violation reports, known findings and evidence.
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use crate::imp::{self, Cfg, Out};

pub const SLOT: usize = 1 << 16;
pub const NSLOTS: usize = 64;
static SLOTS: AtomicUsize = AtomicUsize::new(0);
static SEQ: [AtomicU64; NSLOTS] = [const { AtomicU64::new(0) }; NSLOTS];
thread_local! { static MY: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }
static NEXT: AtomicUsize = AtomicUsize::new(0);

pub fn map_slots(path: &str) {
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("slots");
    use std::os::fd::AsRawFd;
    let p = unsafe { libc::mmap(std::ptr::null_mut(), SLOT * NSLOTS, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    if p != libc::MAP_FAILED { SLOTS.store(p as usize, SeqCst) }
}
fn slot() -> usize { MY.with(|m| { if m.get() == usize::MAX { m.set(NEXT.fetch_add(1, SeqCst) % NSLOTS) } m.get() }) }
/// Marks the span of one execution of the implementation (text noted first, so that a crash or hang is attributable).
fn enter(text: &str, cfg: Cfg) {
    let s = slot();
    let base = SLOTS.load(Relaxed);
    if base != 0 {
        let n = text.len().min(SLOT - 16);
        unsafe {
            let p = (base + s * SLOT) as *mut u8;
            std::ptr::copy_nonoverlapping(text.as_ptr(), p.add(16), n);
            *p.add(8) = cfg.module as u8; *p.add(9) = cfg.tolerant as u8;
            std::ptr::write_volatile(p as *mut u64, n as u64 + 1);
        }
    }
    SEQ[s].fetch_add(1, SeqCst); // odd: running
}
fn leave() {
    let s = slot();
    SEQ[s].fetch_add(1, SeqCst);
    let base = SLOTS.load(Relaxed);
    if base != 0 { unsafe { std::ptr::write_volatile((base + s * SLOT) as *mut u64, 0) } }
}
pub fn read_slots(path: &str) -> Vec<(String, Cfg)> {
    let b = std::fs::read(path).unwrap_or_default(); let mut v = vec![];
    for i in 0..NSLOTS { let o = i * SLOT; if b.len() < o + SLOT { break } let n = u64::from_le_bytes(b[o..o + 8].try_into().unwrap()); if n > 0 { let n = n as usize - 1; v.push((String::from_utf8_lossy(&b[o + 16..o + 16 + n]).into_owned(), Cfg { module: b[o + 8] != 0, tolerant: b[o + 9] != 0 })) } }
    v
}
/// One supervised execution.
pub fn run<T>(text: &str, cfg: Cfg, f: impl FnOnce() -> T) -> T { enter(text, cfg); let r = f(); leave(); r }
pub fn exec(text: &str, cfg: Cfg) -> Out { run(text, cfg, || imp::parse(text, cfg)) }

#[derive(Clone, Debug)]
pub struct Violation { pub text: String, pub cfg: Cfg, pub expect: String, pub got: String, pub why: String }

#[derive(Default)]
pub struct Local {
    pub execs: u64, pub states: u64, pub transitions: u64, pub skipped: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub viol: Vec<Violation>,
    pub nviol: u64,
    pub known: BTreeMap<usize, u64>,
    pub outcomes: HashMap<u64, u64>,
}
impl Local {
    pub fn count(&mut self, k: &'static str) { *self.counts.entry(k).or_insert(0) += 1 }
    pub fn sample(&mut self, s: &str) { if self.samples.len() < 3 || (self.samples.len() < 12 && self.execs % 1009 == 0) { self.samples.push(s.to_string()) } }
    pub fn outcome(&mut self, o: &Out) {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        match o { Out::Ok(s) => s.hash(&mut h), Out::Err(k, _, _) => k.hash(&mut h), Out::Panic(m) => m.hash(&mut h) }
        if self.outcomes.len() < 200_000 { *self.outcomes.entry(h.finish()).or_insert(0) += 1 }
    }
    pub fn absorb(&mut self, o: Local) { self.merge(o) }
    fn merge(&mut self, o: Local) {
        self.execs += o.execs; self.states += o.states; self.transitions += o.transitions; self.skipped += o.skipped; self.nviol += o.nviol;
        for (k, v) in o.counts { *self.counts.entry(k).or_insert(0) += v }
        for (k, v) in o.known { *self.known.entry(k).or_insert(0) += v }
        for s in o.samples { if self.samples.len() < 16 { self.samples.push(s) } }
        for (k, v) in o.outcomes { *self.outcomes.entry(k).or_insert(0) += v }
        self.viol.extend(o.viol);
    }
}
#[derive(Clone, Debug)]
pub struct Known { pub property: String, pub text: String, pub module: bool, pub what: String }

pub struct Check {
    pub id: String, pub tier: String, pub seed: u64, pub known: Vec<Known>, pub start: Instant, pub total: Mutex<Local>, pub notes: Mutex<Vec<String>>, pub capped: AtomicBool, pub found: AtomicU64, pub budget: Duration, pub dir: String, pub stop: u64, pub deep: AtomicBool,
}
impl Check {
    /// The thorough tier explores the spaces of the quick tier first, so that it never covers less, and then the deep ones.
    pub fn thorough(&self) -> bool { self.deep.load(Relaxed) }
    pub fn q<T>(&self, quick: T, thorough: T) -> T { if self.thorough() { thorough } else { quick } }
    pub fn note(&self, s: String) { self.notes.lock().unwrap().push(s) }
    pub fn over(&self) -> bool { if self.found.load(Relaxed) >= self.stop || self.start.elapsed() > self.budget { self.capped.store(true, SeqCst); true } else { false } }
    pub fn violate(&self, l: &mut Local, v: Violation) {
        for (i, k) in self.known.iter().enumerate() { if k.text == v.text && k.module == v.cfg.module { *l.known.entry(i).or_insert(0) += 1; return } }
        l.nviol += 1; self.found.fetch_add(1, Relaxed);
        if l.viol.len() < if std::env::var_os("MC_ALLV").is_some() { 1 << 30 } else { 100 } { l.viol.push(v) } else if let Some(m) = l.viol.iter_mut().max_by_key(|x| x.text.len()) { if v.text.len() < m.text.len() { *m = v } }
    }
    /// Run `f` on every item, in parallel, each worker with a large stack.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T, &mut Local) + Sync) {
        let next = AtomicUsize::new(0);
        let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        std::thread::scope(|s| {
            for _ in 0..n {
                let (next, f) = (&next, &f);
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                    let mut l = Local::default();
                    loop { let i = next.fetch_add(1, SeqCst); if i >= items.len() { break } f(&items[i], &mut l) }
                    self.total.lock().unwrap().merge(l);
                }).unwrap();
            }
        });
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", c if (c as u32) < 32 || c as u32 == 127 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"'); o
}
pub fn json_str(s: &str) -> String { js(s) }
/// minimal JSON string-field reader (flat objects written by this program or by hand)
pub fn field(line: &str, k: &str) -> Option<String> {
    let pat = format!("\"{}\"", k); let i = line.find(&pat)? + pat.len();
    let rest = line[i..].trim_start().strip_prefix(':')?.trim_start();
    if !rest.starts_with('"') { let e = rest.find(|c| c == ',' || c == '}').unwrap_or(rest.len()); return Some(rest[..e].trim().to_string()) }
    let mut o = String::new(); let mut it = rest[1..].chars();
    while let Some(c) = it.next() { match c { '"' => return Some(o), '\\' => match it.next()? { 'n' => o.push('\n'), 'r' => o.push('\r'), 't' => o.push('\t'), 'u' => { let h: String = (&mut it).take(4).collect(); o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?) } c => o.push(c) }, c => o.push(c) } }
    None
}
pub fn load_known(path: &str, id: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if l.trim_start().starts_with('{') && field(l, "status").as_deref() == Some("known") && field(l, "property").as_deref() == Some(id) {
            v.push(Known { property: id.into(), text: field(l, "input").unwrap_or_default(), module: field(l, "module").as_deref() == Some("true"), what: field(l, "what").unwrap_or_default() });
        }
    }
    v
}
pub fn write_replay(dir: &str, id: &str, n: usize, v: &Violation) -> String {
    let d = format!("{}/evidence/replay", dir); let _ = std::fs::create_dir_all(&d);
    let p = format!("{}/{}-{}.json", d, id, n);
    let _ = std::fs::write(&p, format!("{{\"property\":{},\"text\":{},\"module\":{},\"tolerant\":{},\"expect\":{},\"got\":{},\"why\":{}}}\n", js(id), js(&v.text), v.cfg.module, v.cfg.tolerant, js(&v.expect), js(&v.got), js(&v.why)));
    p
}
/// Starts the watchdog: a single execution of the implementation running longer than `limit`, or the
/// process outgrowing `mem_mb`, is reported as a violation with the inputs being executed.
pub fn watchdog(id: String, dir: String, limit: Duration, mem_mb: u64) {
    std::thread::spawn(move || {
        let mut last = [(0u64, Instant::now()); NSLOTS];
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let rss = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 >> 20;
            for i in 0..NSLOTS {
                let q = SEQ[i].load(SeqCst);
                if q != last[i].0 { last[i] = (q, Instant::now()); continue }
                let stuck = last[i].1.elapsed();
                if q % 2 == 1 && (stuck > limit || (rss > mem_mb && stuck > Duration::from_millis(500))) {
                    let base = SLOTS.load(SeqCst);
                    let (text, cfg) = if base != 0 { unsafe { let p = (base + i * SLOT) as *const u8; let n = (std::ptr::read_volatile(p as *const u64) as usize).saturating_sub(1); (String::from_utf8_lossy(std::slice::from_raw_parts(p.add(16), n)).into_owned(), Cfg { module: *p.add(8) != 0, tolerant: *p.add(9) != 0 }) } } else { (String::new(), imp::SCRIPT) };
                    let v = Violation { text, cfg, expect: "an answer".into(), got: format!("no answer after {:?} (resident {} MB)", stuck, rss), why: "the parser does not terminate".into() };
                    let p = write_replay(&dir, &id, 0, &v);
                    println!("{}: {} on {:?}", v.why, v.got, v.text);
                    println!("VIOLATION property={} replay={}", id, p);
                    std::process::exit(1);
                }
            }
        }
    });
}
impl Check {
    /// Reports, writes evidence, returns the exit code.
    pub fn finish(&self, rule: &str, assumptions: &[&str]) -> i32 {
        let mut t = self.total.lock().unwrap();
        t.viol.sort_by(|a, b| (a.text.len(), &a.text).cmp(&(b.text.len(), &b.text)));
        let wall = self.start.elapsed().as_secs_f64();
        let capped = self.capped.load(SeqCst);
        let mut o = String::from("{");
        let _ = write!(o, "\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{", js(&self.id), js(&self.tier), self.seed);
        let _ = write!(o, "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},\"exhaustive\":{},\"rule\":{}", t.states, t.transitions, t.execs, t.outcomes.len(), !capped, js(rule));
        if t.skipped > 0 { let _ = write!(o, ",\"skipped_not_tokenizable\":{}", t.skipped); }
        let _ = write!(o, ",\"counts\":{{{}}}", t.counts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"spaces\":[{}]", self.notes.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"samples\":[{}]}}", t.samples.iter().take(12).map(|s| js(s)).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n", assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), wall, t.nviol);
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.dir));
        std::fs::write(format!("{}/evidence/{}.json", self.dir, self.id), o).expect("evidence");
        println!("{} tier={} states={} transitions={} executions={} distinct_outcomes={} skipped={} capped={} wall={:.1}s", self.id, self.tier, t.states, t.transitions, t.execs, t.outcomes.len(), t.skipped, capped, wall);
        for (k, v) in &t.counts { println!("  {:<40} {}", k, v) }
        for (i, k) in self.known.iter().enumerate() { if t.known.contains_key(&i) { println!("KNOWN-FINDING: property={} {} [{}]", self.id, k.what, js(&k.text)) } }
        if t.nviol == 0 { return 0 }
        println!("{} violations", t.nviol);
        if let Some(p) = std::env::var_os("MC_ALLV") { let _ = std::fs::write(p, t.viol.iter().map(|v| format!("{}\t{}\t{}\t{}\n", v.why, js(&v.text), v.expect, v.got)).collect::<String>()); }
        if self.id == "dev" {
            for v in t.viol.iter() { println!("{} {}\n        exp {}\n        got {}", if v.expect == "rejected" { "LOOSE" } else if v.got.starts_with("rejected") { "REJ  " } else { "TREE " }, js(&v.text), v.expect, v.got); }
            return 1
        }
        for (n, v) in t.viol.iter().take(12).enumerate() {
            let p = write_replay(&self.dir, &self.id, n + 1, v);
            println!("--- {}\n  input ({}{}): {}\n  expected: {}\n  got:      {}", v.why, if v.cfg.module { "module" } else { "script" }, if v.cfg.tolerant { ", tolerant" } else { "" }, js(&v.text), v.expect, v.got);
            println!("VIOLATION property={} replay={}", self.id, p);
        }
        1
    }
}
