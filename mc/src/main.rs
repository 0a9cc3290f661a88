mod canon; mod imp; mod refp; mod engine; mod tokseq; mod scan; mod explore; mod gen; mod compose; mod spaces; mod checks;
use std::io::BufRead;
fn main(){
  if let Some(a) = std::env::args().nth(1) { match a.as_str() { "check" => std::process::exit(supervise()), "run" => std::process::exit(run_check()), "one" => std::process::exit(one()), "replay" => std::process::exit(replay()), "list" => { for d in checks::CHECKS { println!("{}", d.id) } return } _ => {} } }
  if std::env::args().nth(1).as_deref()==Some("x") { return dev() }
  if std::env::args().nth(1).as_deref()==Some("dump") { return dump() }
  if std::env::args().nth(1).as_deref()==Some("c") { return devc() }
  if std::env::args().nth(1).as_deref()==Some("p") { return devp() }
  if std::env::args().nth(1).as_deref()==Some("s") { return devs() }
  std::panic::set_hook(Box::new(|_|{}));
  let module = std::env::args().any(|a| a=="-m"); let tolerant = std::env::args().any(|a| a=="-t"); let r = std::env::args().any(|a| a=="-r");
  for l in std::io::stdin().lock().lines() { let l=l.unwrap();
    if r { let v = tokseq::split(&l); let t = tokseq::toks(&v); let rr = refp::parse(&t, module); let out = imp::parse(&tokseq::render(&v), imp::Cfg{module,tolerant});
      let same = match (&rr.tree, &out) { (Some(a), imp::Out::Ok(b)) => a==b, (None, imp::Out::Err(..)) => true, _ => false };
      println!("{} {}\n    ref {:?} {:?}\n    imp {}", if same {"  "} else {"!!"}, l, rr.tree, refp::bit_names(rr.bits), out.show());
    } else { let t=l.replace("\\n","\n").replace("\\r","\r");
    println!("{}\n    {}", l, imp::parse(&t, imp::Cfg{module,tolerant}).show()); } }
}

fn dev(){
  // mc x PRE ALPHA POST N [-m]
  std::panic::set_hook(Box::new(|_|{}));
  let a: Vec<String> = std::env::args().collect();
  let c = engine::Check{ deep: false.into(), stop: u64::MAX, id:"dev".into(), tier:"quick".into(), seed:1, known:vec![], start:std::time::Instant::now(), total:Default::default(), notes:Default::default(), capped:Default::default(),found:Default::default(), budget:std::time::Duration::from_secs(600), dir:"/tmp/mcdev".into() };
  let cfg = imp::Cfg{module:a.iter().any(|x|x=="-m"),tolerant:false};
  explore::explore(&c,&explore::Space{name:"dev",pre:&a[2],alpha:&a[3],post:&a[4],max:a[5].parse().unwrap(),cfg,pol:{let mut e=0u64; for n in std::env::var("ENF").unwrap_or_default().split(',') { if let Some(i)=refp::NAMES.iter().position(|x|*x==n) { e|=1<<i } } explore::Policy{enforce:e,ignore:!0}}});
  std::process::exit(c.finish("dev",&[]));
}

fn dump(){
  // mc dump PRE ALPHA POST N [-m]: viable-prefix enumeration, reference verdicts as JSON lines (no implementation involved)
  use std::io::Write;
  let a: Vec<String> = std::env::args().collect();
  let m = a.iter().any(|x|x=="-m");
  let pre = tokseq::split(&a[2]); let alpha = tokseq::split(&a[3]); let post = tokseq::split(&a[4]); let n: usize = a[5].parse().unwrap();
  let out = std::io::stdout(); let mut out = std::io::BufWriter::new(out.lock());
  fn rec(o:&mut impl Write, pre:&[&str], alpha:&[&str], post:&[&str], n:usize, m:bool, s:&mut Vec<usize>){
    let mut v: Vec<&str> = pre.to_vec(); v.extend(s.iter().map(|&i| alpha[i]));
    let r1 = refp::parse(&tokseq::toks(&v), m);
    if s.last().map(|&x| alpha[x]==tokseq::NL)!=Some(true) { v.extend(post); let r = refp::parse(&tokseq::toks(&v), m);
      let _ = writeln!(o, "{{\"t\":{},\"m\":{},\"r\":{},\"b\":[{}]}}", engine::json_str(&tokseq::render(&v)), m, r.tree.map(|t| engine::json_str(&t)).unwrap_or("null".into()), refp::bit_names(r.bits).iter().map(|b| format!("\"{}\"",b)).collect::<Vec<_>>().join(","));
      if !r1.viable { return } }
    if s.len()<n { for a in 0..alpha.len() { s.push(a); rec(o,pre,alpha,post,n,m,s); s.pop(); } }
  }
  rec(&mut out,&pre,&alpha,&post,n,m,&mut vec![]);
}

fn devc(){
  // mc c DEPTH TAGS|- FRAMES EDITS(d,s,2,n,c,i:..,r:..)|- [sib]
  std::panic::set_hook(Box::new(|_|{}));
  let a: Vec<String> = std::env::args().collect();
  let c = engine::Check{ deep: false.into(), stop: u64::MAX, id:"dev".into(), tier:"quick".into(), seed:1, known:vec![], start:std::time::Instant::now(), total:Default::default(), notes:Default::default(), capped:Default::default(),found:Default::default(), budget:std::time::Duration::from_secs(3600), dir:"/tmp/mcdev".into() };
  let enf={let mut e=0u64; for n in std::env::var("ENF").unwrap_or_default().split(',') { if let Some(i)=refp::NAMES.iter().position(|x|*x==n) { e|=1<<i } } e};
  let fr: Vec<usize> = if a[4]=="all" {(0..gen::FRAMES.len()).collect()} else {a[4].split(',').map(|x|x.parse().unwrap()).collect()};
  let firsts = if a[3]=="-" {compose::all_firsts()} else if a[3]=="mod" {(0..gen::moditems().len()).map(gen::Ref::M).collect()} else {compose::tagged(&a[3].split(',').collect::<Vec<_>>())};
  let ins: &'static [&'static str] = Vec::leak(tokseq::split(Box::leak(std::env::var("INS").unwrap_or_default().into_boxed_str())));
  let e = if a[5]=="-" {None} else {Some(compose::Edits{asi: a[5].contains('a'), delete:a[5].contains('d'),swap:a[5].contains('s'),double:a[5].contains('2'),nl:a[5].contains('n'),cut:a[5].contains('c'),insert:if a[5].contains('i'){ins}else{&[]},replace:if a[5].contains('r'){ins}else{&[]}})};
  compose::compose(&c,&compose::Comp{name:"dev",firsts,depth:a[2].parse().unwrap(),keep:&|_|true,frames:&fr,pol:explore::Policy{enforce:enf,ignore:!0},edits:e,siblings:a.get(6).map(|x|x=="sib").unwrap_or(false)});
  std::process::exit(c.finish("dev",&[]));
}
fn devp(){
  // mc p: where errors are reported, relative to the first token that makes the text unviable
  std::panic::set_hook(Box::new(|_|{}));
  let c = engine::Check{ deep: false.into(), stop: u64::MAX, id:"dev".into(), tier:"quick".into(), seed:1, known:vec![], start:std::time::Instant::now(), total:Default::default(), notes:Default::default(), capped:Default::default(),found:Default::default(), budget:std::time::Duration::from_secs(3600), dir:"/tmp/mcdev".into() };
  let stat = std::sync::Mutex::new(std::collections::BTreeMap::<String,(u64,String)>::new());
  let e = compose::Edits{delete:true,swap:true,double:true,cut:true,..Default::default()};
  compose::programs(&c,&compose::Comp{name:"dev",firsts:compose::all_firsts(),depth:2,keep:&|_|true,frames:&[0],pol:explore::LENIENT,edits:None,siblings:false},&|_l,v,m|{
    if !refp::parse(&tokseq::toks(v),m).valid() { return }
    compose::edits(v,e,&mut |w|{
      let r = refp::parse(&tokseq::toks(w),m);
      let text = tokseq::render(w);
      let o = imp::parse(&text,imp::Cfg{module:m,tolerant:false});
      if r.tree.is_some() { return } if w.iter().any(|x| matches!(*x,"..."|"async"|"=>"|"get"|"set"))||w.windows(2).any(|x|x==["(",")"]) { return } if let imp::Out::Err(k,p,msg)=&o {
        if !scan::splits_as(&text,w) { return }
        let mut starts=vec![]; let mut x=0; for t in w { starts.push(x); x+=t.len()+1 } 
        let mut fnv = w.len(); for i in 1..=w.len() { if !refp::parse(&tokseq::toks(&w[..i]),m).viable { fnv=i-1; break } }
        let d = match p { None => format!("{} nopos eof={}",k,fnv==w.len()), Some((l,c)) => { match starts.iter().position(|s| s==c) { Some(i) => format!("{} line{} tok d={} bits={}",k,l,i as i64-fnv as i64, r.tree.is_some()), None => format!("{} line{} off={} bits={} atend={}",k,l, *c as i64 - text.len() as i64, r.tree.is_some(), fnv==w.len()) } } };
        let mut s=stat.lock().unwrap(); let en=s.entry(d).or_insert((0,format!("{}   -- {}",text,msg))); en.0+=1; if text.len()+msg.len()+5<en.1.len() { en.1=format!("{}   -- {}",text,msg) }
      }
    })
  });
  for (k,v) in stat.lock().unwrap().iter() { println!("{:60} {:8} {}",k,v.0,v.1) }
}

fn devs(){
  // mc s KIND args: spaces
  std::panic::set_hook(Box::new(|_|{}));
  let a: Vec<String> = std::env::args().collect();
  let c = engine::Check{ deep: false.into(), stop: u64::MAX, id:"dev".into(), tier:"quick".into(), seed:1, known:vec![], start:std::time::Instant::now(), total:Default::default(), notes:Default::default(), capped:Default::default(),found:Default::default(), budget:std::time::Duration::from_secs(3600), dir:"/tmp/mcdev".into() };
  let enf={let mut e=0u64; for n in std::env::var("ENF").unwrap_or_default().split(',') { if let Some(i)=refp::NAMES.iter().position(|x|*x==n) { e|=1<<i } } e};
  let fr: Vec<usize> = if a[5]=="all" {(0..gen::FRAMES.len()).collect()} else {a[5].split(',').map(|x|x.parse().unwrap()).collect()};
  let n: usize = a[4].parse().unwrap();
  match a[2].as_str() {
    "nest" => spaces::nest(&c,"nest",&a[3],n,&fr,enf),
    "lists" => spaces::lists(&c,"lists",&a[3],n,&fr,enf),
    "words" => spaces::words(&c,"words",&a[3],n,&fr,&tokseq::split(Box::leak(std::env::var("INS").unwrap().into_boxed_str())),enf),
    _ => {}
  }
  std::process::exit(c.finish("dev",&[]));
}

// ---------------------------------------------------------------- checks
fn root() -> String { std::env::var("MC_DIR").unwrap_or_else(|_| "/verif".into()) }
fn new_check(id: &str) -> engine::Check {
  let tier = std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough").unwrap_or_else(|| "quick".into());
  let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let budget = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 780 } else { 400 });
  engine::Check { deep: false.into(), id: id.into(), known: engine::load_known(&format!("{}/known_findings.txt", root()), id), tier, seed, start: std::time::Instant::now(), total: Default::default(), notes: Default::default(), capped: Default::default(), found: Default::default(), budget: std::time::Duration::from_secs(budget), dir: root(), stop: if std::env::var_os("MC_ALLV").is_some() { u64::MAX } else { std::env::var("MC_STOP").ok().and_then(|s| s.parse().ok()).unwrap_or(5000) } }
}
/// `mc run ID`: the check itself, in the process that may crash.
fn run_check() -> i32 {
  let id = std::env::args().nth(2).unwrap_or_default();
  let Some(d) = checks::find(&id) else { eprintln!("no check {}", id); return 2 };
  std::panic::set_hook(Box::new(|_| {}));
  if let Ok(p) = std::env::var("MC_SLOTS") { engine::map_slots(&p) }
  let c = new_check(&id);
  engine::watchdog(id.clone(), root(), std::time::Duration::from_secs(20), 9000);
  // MC_DEEP=1: only the deep ones
  let deep_only = c.tier == "thorough" && std::env::var_os("MC_DEEP").is_some();
  c.deep.store(deep_only, std::sync::atomic::Ordering::Relaxed);
  (d.body)(&c);
  if !deep_only && c.tier == "thorough" && !c.over() {
    c.note(format!("the spaces of the quick tier took {} s; what follows are the deep ones, which contain them", c.start.elapsed().as_secs()));
    c.deep.store(true, std::sync::atomic::Ordering::Relaxed);
    (d.body)(&c);
  }
  for n in c.notes.lock().unwrap().iter() { println!("  {}", n) }
  c.finish(d.rule, ASSUME)
}
const ASSUME: &[&str] = &["the tokenizer (crate ress) splits the text into the intended tokens; texts it splits otherwise are counted as skipped", "the reference grammar (mc/src/refp.rs) is ECMAScript 2018/2019 as cross-checked offline against another parser (crossval/)"];
/// `mc check ID`: runs the check in a child process, so that a crash of the parser (stack overflow, abort) is a verdict and not an accident.
fn supervise() -> i32 {
  let id = std::env::args().nth(2).unwrap_or_default();
  if checks::find(&id).is_none() { eprintln!("no check {}", id); return 2 }
  let slots = format!("{}/mc-slots-{}-{}", std::env::temp_dir().display(), id, std::process::id());
  if std::fs::File::create(&slots).and_then(|f| f.set_len((engine::SLOT * engine::NSLOTS) as u64)).is_err() { eprintln!("cannot create {}", slots); return 2 }
  let me = std::env::current_exe().expect("exe");
  let st = std::process::Command::new(&me).args(["run", &id]).env("MC_SLOTS", &slots).status();
  let code = match st { Ok(s) => s.code(), Err(e) => { eprintln!("cannot run the check: {}", e); let _ = std::fs::remove_file(&slots); return 2 } };
  let r = match code {
    Some(c @ 0..=1) => c,
    other => {
      eprintln!("the check ended abnormally ({:?})", other);
      // which of the texts being parsed at that moment brings the parser down?
      let mut found = 0;
      for (text, cfg) in engine::read_slots(&slots) {
        let f = format!("{}.one", slots); if std::fs::write(&f, &text).is_err() { continue }
        let st = std::process::Command::new(&me).args(["one", &f, if cfg.module { "m" } else { "s" }, if cfg.tolerant { "t" } else { "-" }]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        let _ = std::fs::remove_file(&f);
        if let Ok(s) = st { if s.code() != Some(0) { found += 1; let v = engine::Violation { text, cfg, expect: "an answer".into(), got: format!("the process ends: {}", s), why: "the parser brings the process down".into() }; let p = engine::write_replay(&root(), &id, found, &v); println!("--- {}\n  input: {:?}", v.why, v.text); println!("VIOLATION property={} replay={}", id, p) } }
      }
      if found > 0 { let c = new_check(&id); let mut t = engine::Local::default(); t.states = 1; t.transitions = 1; t.execs = 1; t.nviol = found as u64; *c.total.lock().unwrap() = t; c.note("the run ended early: the parser brought the process down".into()); c.capped.store(true, std::sync::atomic::Ordering::SeqCst); let _ = c.finish("ended early", ASSUME); 1 } else { 2 }
    }
  };
  let _ = std::fs::remove_file(&slots);
  r
}
/// `mc one FILE m|s t|-`: one text, every way of parsing it.
fn one() -> i32 {
  let a: Vec<String> = std::env::args().collect();
  let text = std::fs::read_to_string(&a[2]).unwrap_or_default(); let cfg = imp::Cfg { module: a[3] == "m", tolerant: a[4] == "t" };
  let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || { let o = imp::parse(&text, cfg); println!("{}", o.show()); let _ = imp::iterate(&text, cfg, text.len() + 3); let _ = imp::comments(&text, cfg); let _ = imp::entries(&text, cfg); }).unwrap();
  h.join().map(|_| 0).unwrap_or(3)
}
/// `mc replay FILE`: shows what the parser does with the input of a violation.
fn replay() -> i32 {
  let a: Vec<String> = std::env::args().collect();
  let s = std::fs::read_to_string(&a[2]).expect("replay file"); let f = |k: &str| engine::field(&s, k).unwrap_or_default();
  let cfg = imp::Cfg { module: f("module") == "true", tolerant: f("tolerant") == "true" };
  std::panic::set_hook(Box::new(|_| {}));
  println!("property: {}\nwhy:      {}\ninput:    {:?}\nexpected: {}\nthen:     {}", f("property"), f("why"), f("text"), f("expect"), f("got"));
  let t = f("text"); let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || { println!("now:      {}", imp::parse(&t, cfg).show()); println!("iterated: {:?}", imp::iterate(&t, cfg, t.len() + 3)); println!("comments: {:?}", imp::comments(&t, cfg)) }).unwrap();
  let _ = h.join(); 0
}
