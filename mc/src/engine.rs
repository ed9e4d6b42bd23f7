//! Exploration engine: deterministic parallel enumeration of calls on the real
//! library, each compared with the reference model; a supervisor process turns
//! crashes and hangs into violations; replay files; evidence.
use crate::json::J;
use crate::model::Model;
use crate::val::*;
use rlibphonenumber::PhoneNumberUtil;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const HANG_SECS: u64 = 25;
pub fn threads() -> usize { std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8) }

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        struct Count(usize);
        impl std::fmt::Write for Count { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len(); Ok(()) } }
        let mut n = Count(0);
        let _ = std::fmt::write(&mut n, *r.args());
        std::hint::black_box(n.0);
    }
    fn flush(&self) {}
}
/// switch a logger on that formats every message the library logs
pub fn log_all(on: bool) {
    static SINK: Sink = Sink;
    let _ = log::set_logger(&SINK);
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub model: Model,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub calls: AtomicU64,
    pub nontrivial: AtomicU64,
    pub outcomes: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<J>>,
    pub notes: Mutex<Vec<(String, J)>>,
    viol: Mutex<Vec<Violation>>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    known: Vec<Known>,
    stop: AtomicBool,
    phase: AtomicUsize,
    work: String,
    deadline: u64,
    capped: AtomicBool,
    trace: Option<(usize, usize, String)>,
    start: Instant,
    progress: Vec<Arc<AtomicU64>>,
    current: Vec<Arc<Mutex<(usize, usize)>>>,
}
pub struct Violation { pub call: J, pub expected: String, pub got: String, pub why: String }
pub struct Known { pub property: String, pub key: String, pub what: String }

/// Per-thread handle.
pub struct Th<'c> {
    pub c: &'c Ctx,
    pub u: Arc<PhoneNumberUtil>,
    prog: Arc<AtomicU64>,
    n: u64,
    first: bool,
    pub traces: u64,
    pub states: u64,
    pub transitions: u64,
    pub nontrivial: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    trace: Option<fs::File>,
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
}

impl<'c> Th<'c> {
    pub fn m(&self) -> &'c Model { &self.c.model }
    /// run one call on the real library
    #[inline]
    pub fn run(&mut self, call: &Call) -> Val {
        self.begin(call);
        let u = &*self.u;
        let r = match catch_unwind(AssertUnwindSafe(|| call.imp(u))) { Ok(v) => v, Err(e) => Val::Panic(panic_text(e)) };
        self.prog.store(self.n * 2, Relaxed);
        r
    }
    /// the same on another instance
    pub fn run_on(&mut self, call: &Call, u: &PhoneNumberUtil) -> Val {
        self.begin(call);
        let r = match catch_unwind(AssertUnwindSafe(|| call.imp(u))) { Ok(v) => v, Err(e) => Val::Panic(panic_text(e)) };
        self.prog.store(self.n * 2, Relaxed);
        r
    }
    #[inline]
    fn begin(&mut self, call: &Call) {
        self.n += 1;
        self.prog.store(self.n * 2 + 1, Relaxed);
        if let Some(f) = &mut self.trace {
            let _ = f.write_all(call.json().dump().as_bytes());
            let _ = f.write_all(b"\n");
        }
    }
    /// run and compare with the reference model
    #[inline]
    pub fn diff(&mut self, call: Call) -> Val {
        let got = self.run(&call);
        let want = call.model(&self.c.model);
        self.traces += 1;
        self.sample(&call, &got);
        if got != want { self.c.violate(&call, &want, &got, "the reference model gives another result"); }
        got
    }
    #[inline]
    pub fn expect(&mut self, call: Call, want: Val, why: &str) -> Val {
        let got = self.run(&call);
        self.traces += 1;
        self.sample(&call, &got);
        let bad = match (&got, &want) {
            (Val::Panic(_), _) => true,
            (_, Val::Any) => false,
            (Val::S(s), Val::OneOf(v)) => !v.contains(s),
            _ => got != want,
        };
        if bad { self.c.violate(&call, &want, &got, why); }
        got
    }
    /// a few of the calls of this run, written out
    #[inline]
    fn sample(&mut self, call: &Call, got: &Val) {
        if self.first && self.traces.is_power_of_two() && self.traces % 5 == 1 { self.c.sample(J::obj(vec![("call", call.json()), ("answer", J::s(format!("{:?}", got)))])); }
    }
    /// only require that the call returns
    #[inline]
    pub fn total(&mut self, call: Call) -> Val { self.expect(call, Val::Any, "the call must return") }
    pub fn fail(&mut self, call: Call, want: &Val, got: &Val, why: &str) { self.c.violate(&call, want, got, why); }
    pub fn outcome(&mut self, k: &'static str) { *self.outcomes.entry(k).or_insert(0) += 1; }
}
impl<'c> Drop for Th<'c> {
    fn drop(&mut self) {
        let c = self.c;
        c.calls.fetch_add(self.n, Relaxed);
        c.traces.fetch_add(self.traces, Relaxed);
        c.states.fetch_add(self.states, Relaxed);
        c.transitions.fetch_add(self.transitions, Relaxed);
        c.nontrivial.fetch_add(self.nontrivial, Relaxed);
        let mut o = c.outcomes.lock().unwrap();
        for (k, v) in &self.outcomes { *o.entry(k.to_string()).or_insert(0) += v; }
    }
}

fn verif() -> String { std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()) }

fn load_known(prop: &str) -> Vec<Known> {
    let p = format!("{}/known_findings.json", verif());
    let Ok(t) = fs::read_to_string(&p) else { return vec![] };
    let j = J::parse(&t).unwrap_or_else(|e| panic!("known_findings.json: {}", e));
    j.get("findings").arr().iter().filter(|f| f.get("property").str() == Some(prop)).map(|f| Known {
        property: prop.to_string(), key: f.get("call").dump(), what: f.get("what").str().unwrap_or("").to_string(),
    }).collect()
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, work: &str, trace: Option<(usize, usize, String)>) -> Ctx {
        let xml = std::env::var("MC_XML").unwrap_or_else(|_| "/repo/resources/PhoneNumberMetadata.xml".into());
        let n = threads();
        Ctx {
            prop: prop.into(), thorough, model: Model::new(&xml),
            states: 0.into(), transitions: 0.into(), traces: 0.into(), calls: 0.into(), nontrivial: 0.into(), outcomes: Default::default(),
            samples: Default::default(), notes: Default::default(), viol: Default::default(), known_hit: Default::default(),
            known: load_known(prop), stop: false.into(), phase: 0.into(), work: work.into(), deadline: if thorough { 6 * 3600 } else { 600 }, capped: false.into(), trace, start: Instant::now(),
            progress: (0..n).map(|_| Arc::new(AtomicU64::new(0))).collect(),
            current: (0..n).map(|_| Arc::new(Mutex::new((0, 0)))).collect(),
        }
    }
    pub fn sample(&self, j: J) { let mut s = self.samples.lock().unwrap(); if s.len() < 12 { s.push(j); } }
    pub fn note(&self, k: &str, j: J) { self.notes.lock().unwrap().push((k.into(), j)); }
    pub fn violate(&self, call: &Call, want: &Val, got: &Val, why: &str) { self.violate_json(call.json(), want, got, why) }
    pub fn violate_seq(&self, calls: Vec<J>, want: &Val, got: &Val, why: &str) { self.violate_json(J::obj(vec![("sequence", J::Arr(calls))]), want, got, why) }
    pub fn violate_memory(&self, what: &str, got: String) { self.violate_json(J::obj(vec![("memory", J::s(what))]), &Val::S("what is held stops growing".into()), &Val::S(got), "the instance keeps something for every new argument") }
    fn violate_json(&self, j: J, want: &Val, got: &Val, why: &str) {
        let key = j.dump();
        if let Some(k) = self.known.iter().find(|k| k.key == key) {
            *self.known_hit.lock().unwrap().entry(k.what.clone()).or_insert(0) += 1;
            return;
        }
        let mut v = self.viol.lock().unwrap();
        v.push(Violation { call: j, expected: format!("{:?}", want), got: format!("{:?}", got), why: why.into() });
        let cap = std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(200);
        if v.len() >= cap { self.stop.store(true, Relaxed); }
    }
    /// Run f on items 0..n, distributed over the threads; every item is enumerated exactly once.
    pub fn par<F: Fn(&mut Th, usize) + Sync>(&self, n: usize, f: F) {
        let phase = self.phase.fetch_add(1, SeqCst);
        if std::env::var("MC_PHASE").is_ok() { eprintln!("phase {} at {:.1}s: {} items", phase, self.start.elapsed().as_secs_f64(), n); }
        if self.stop.load(Relaxed) { return; }
        let next = AtomicUsize::new(0);
        if let Some((p, i, file)) = &self.trace {
            if *p == phase {
                let fh = fs::File::create(file).unwrap();
                let mut th = Th { c: self, u: Arc::new(PhoneNumberUtil::new()), prog: self.progress[0].clone(), n: 0, first: false, traces: 0, states: 0, transitions: 0, nontrivial: 0, outcomes: Default::default(), trace: Some(fh) };
                f(&mut th, *i);
            }
            return;
        }
        std::thread::scope(|s| {
            for t in 0..threads() {
                let (f, next) = (&f, &next);
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || {
                    let mut th = Th { c: self, u: Arc::new(PhoneNumberUtil::new()), prog: self.progress[t].clone(), n: 0, first: t == 0, traces: 0, states: 0, transitions: 0, nontrivial: 0, outcomes: Default::default(), trace: None };
                    let mut log = fs::OpenOptions::new().create(true).append(true).open(format!("{}/cur.{}", self.work, t)).unwrap();
                    th.n = self.progress[t].load(Relaxed) / 2;
                    let base = th.n;
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n || self.stop.load(Relaxed) { break; }
                        if self.start.elapsed().as_secs() > self.deadline { self.stop.store(true, Relaxed); self.capped.store(true, Relaxed); break; }
                        *self.current[t].lock().unwrap() = (phase, i);
                        let _ = log.write_all(format!("{} {}\n", phase, i).as_bytes());
                        f(&mut th, i);
                    }
                    self.progress[t].store(th.n * 2, Relaxed);
                    th.n -= base;
                }).unwrap();
            }
        });
    }
    pub fn stopped(&self) -> bool { self.stop.load(Relaxed) }
}

/// Worker side: explore, report, exit code.
pub fn worker(prop: &str, thorough: bool, work: &str, trace: Option<(usize, usize, String)>) -> i32 {
    std::panic::set_hook(Box::new(|info| {
        // panics of the library under test are caught and reported; ours end the run
        if std::env::var("MC_LOUD").is_ok() { eprintln!("{}", info); }
    }));
    let tracing = trace.is_some();
    let ctx = Arc::new(Ctx::new(prop, thorough, work, trace));
    if !tracing {
        let c = ctx.clone();
        std::thread::spawn(move || watchdog(&c));
    }
    let r = catch_unwind(AssertUnwindSafe(|| crate::props::run(&ctx)));
    if tracing { return 0; }
    if let Err(e) = r {
        // a library answer the model cannot digest may end an exploration early; what was
        // found before that stands
        if !ctx.viol.lock().unwrap().is_empty() { return ctx.finish(); }
        let msg = panic_text(e);
        println!("MC-ERROR the harness itself failed: {}", msg);
        return 3;
    }
    ctx.finish()
}

fn watchdog(c: &Ctx) {
    let mut seen: Vec<(u64, Instant)> = c.progress.iter().map(|p| (p.load(Relaxed), Instant::now())).collect();
    loop {
        std::thread::sleep(Duration::from_millis(500));
        for (t, p) in c.progress.iter().enumerate() {
            let v = p.load(Relaxed);
            if v % 2 == 0 || v != seen[t].0 { seen[t] = (v, Instant::now()); continue; }
            if seen[t].1.elapsed().as_secs() >= HANG_SECS {
                let (ph, it) = *c.current[t].lock().unwrap();
                let _ = fs::write(format!("{}/hang", c.work), format!("{} {}\n", ph, it));
                std::process::exit(77);
            }
        }
    }
}

fn replay_path(prop: &str, k: usize) -> String { format!("{}/work/replay/{}-{}.json", verif(), prop, k) }
fn write_replay(prop: &str, k: usize, v: &Violation) -> String {
    let p = replay_path(prop, k);
    let _ = fs::create_dir_all(format!("{}/work/replay", verif()));
    let _ = fs::write(&p, J::obj(vec![("property", J::s(prop)), ("call", v.call.clone()), ("expected", J::s(v.expected.as_str())), ("got", J::s(v.got.as_str())), ("why", J::s(v.why.as_str()))]).dump() + "\n");
    p
}
fn level() -> &'static str { "model_checking" }

pub fn write_evidence(prop: &str, thorough: bool, mut cov: Vec<(&str, J)>, wall: f64, violations: usize, assumptions: &[&str]) {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i128>().ok()).unwrap_or(1);
    let tier = if thorough { "thorough" } else { "quick" };
    if cov.is_empty() { cov.push(("states", J::Int(0))); }
    let j = J::obj(vec![
        ("property", J::s(prop)), ("tier", J::s(tier)), ("seed", J::Int(seed)), ("level", J::s(level())),
        ("coverage", J::obj(cov)), ("wall_s", J::Num((wall * 1000.0).round() / 1000.0)), ("violations", J::Int(violations as i128)),
        ("assumptions", J::Arr(assumptions.iter().map(|s| J::s(*s)).collect())),
    ]);
    let dir = std::env::var("MC_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence", verif()));
    let _ = fs::create_dir_all(&dir);
    fs::write(format!("{}/{}.json", dir, prop), j.dump() + "\n").expect("write evidence");
}

impl Ctx {
    fn finish(&self) -> i32 {
        let mut v = self.viol.lock().unwrap();
        // simplest first
        v.sort_by_key(|x| { let d = x.call.dump(); (d.len(), d) });
        let mut seen = HashSet::new();
        v.retain(|x| seen.insert(x.call.dump()));
        let g = |a: &AtomicU64| J::Int(a.load(Relaxed) as i128);
        let mut cov = vec![
            ("states", g(&self.states)), ("transitions", g(&self.transitions)), ("traces_validated_against_impl", g(&self.traces)),
            ("implementation_calls", g(&self.calls)),
            ("samples", J::Arr(self.samples.lock().unwrap().clone())),
            ("exhaustive", J::Bool(!self.stopped())), ("stopped_at_time_limit", J::Bool(self.capped.load(Relaxed))),
            ("outcomes", J::Obj(self.outcomes.lock().unwrap().iter().map(|(k, v)| (k.clone(), J::Int(*v as i128))).collect())),
        ];
        let notes = self.notes.lock().unwrap();
        for (k, j) in notes.iter() { cov.push((k.as_str(), j.clone())); }
        let kh = self.known_hit.lock().unwrap();
        if !kh.is_empty() { cov.push(("known_findings", J::Obj(kh.iter().map(|(k, v)| (k.clone(), J::Int(*v as i128))).collect()))); }
        write_evidence(&self.prop, self.thorough, cov, self.start.elapsed().as_secs_f64(), v.len(), &crate::props::assumptions());
        for k in self.known.iter() {
            if kh.contains_key(&k.what) { println!("KNOWN-FINDING: property={} {}", k.property, k.what); }
        }
        println!("{}: states {} transitions {} traces checked on the implementation {} calls {} wall {:.1}s", self.prop, self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed), self.calls.load(Relaxed), self.start.elapsed().as_secs_f64());
        if v.is_empty() { return 0; }
        let show = std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
        for (k, x) in v.iter().enumerate().take(show) {
            let p = write_replay(&self.prop, k, x);
            println!("VIOLATION property={} replay={}", self.prop, p);
            println!("  call     {}\n  expected {}\n  got      {}\n  because  {}", brief(&x.call), x.expected, x.got, x.why);
        }
        println!("{} violating calls recorded", v.len());
        1
    }
}

/// Supervisor: runs the worker as a child so that aborts, stack overflows and
/// hangs of the library become violations with a replayable call.
pub fn supervise(prop: &str, tier: &str) -> i32 {
    let thorough = tier == "thorough";
    let start = Instant::now();
    let work = format!("{}/work/{}-{}", verif(), prop, std::process::id());
    fs::create_dir_all(&work).expect("work dir");
    let exe = std::env::current_exe().unwrap();
    let r = std::process::Command::new(&exe).args(["--worker", prop, tier, &work]).status();
    let code = match &r { Ok(s) => s.code(), Err(e) => panic!("cannot run worker: {}", e) };
    let out = match code {
        Some(c @ (0 | 1 | 3)) => c,
        _ => {
            let mut cands: Vec<(usize, usize)> = vec![];
            let p2 = |s: &str| -> Option<(usize, usize)> { let mut i = s.split_whitespace(); Some((i.next()?.parse().ok()?, i.next()?.parse().ok()?)) };
            if let Ok(s) = fs::read_to_string(format!("{}/hang", work)) { cands.extend(p2(&s)); }
            if code != Some(77) {
                for t in 0..threads() {
                    if let Ok(s) = fs::read_to_string(format!("{}/cur.{}", work, t)) { if let Some(l) = s.lines().last() { cands.extend(p2(l)); } }
                }
            }
            println!("worker ended abnormally ({:?}); retracing {} work items", r.as_ref().unwrap(), cands.len());
            let mut found = None;
            for (ph, it) in cands {
                let file = format!("{}/trace", work);
                let _ = fs::remove_file(&file);
                let mut ch = std::process::Command::new(&exe).args(["--trace", prop, tier, &work, &ph.to_string(), &it.to_string(), &file]).spawn().unwrap();
                let mut last = (0u64, Instant::now());
                let why = loop {
                    std::thread::sleep(Duration::from_millis(200));
                    if let Ok(Some(st)) = ch.try_wait() { break if st.success() { None } else { Some(format!("the process ended abnormally: {}", st)) }; }
                    let len = fs::metadata(&file).map(|m| m.len()).unwrap_or(0);
                    if len != last.0 { last = (len, Instant::now()); }
                    if len > 0 && last.1.elapsed().as_secs() >= HANG_SECS { let _ = ch.kill(); let _ = ch.wait(); break Some(format!("no return within {} s", HANG_SECS)); }
                };
                if let Some(w) = why {
                    let t = fs::read_to_string(&file).unwrap_or_default();
                    let call = t.lines().last().and_then(|l| J::parse(l).ok()).unwrap_or(J::Null);
                    found = Some(Violation { call, expected: "the call returns".into(), got: w.clone(), why: w });
                    break;
                }
            }
            match found {
                Some(v) => {
                    let p = write_replay(prop, 0, &v);
                    write_evidence(prop, thorough, vec![("states", J::Int(1)), ("transitions", J::Int(1)), ("traces_validated_against_impl", J::Int(0)), ("exhaustive", J::Bool(false)), ("samples", J::Arr(vec![v.call.clone()]))], start.elapsed().as_secs_f64(), 1, &[]);
                    println!("VIOLATION property={} replay={}", prop, p);
                    println!("  call     {}\n  got      {}", brief(&v.call), v.got);
                    1
                }
                None => { println!("MC-ERROR worker ended abnormally and the end could not be reproduced: {:?}", r); 3 }
            }
        }
    };
    let _ = fs::remove_dir_all(&work);
    out
}

pub fn replay(path: &str) -> i32 {
    let j = J::parse(&fs::read_to_string(path).expect("replay file")).expect("replay json");
    let seq = j.get("call").get("sequence");
    if !seq.arr().is_empty() {
        let calls: Vec<Call> = seq.arr().iter().map(|c| Call::from_json(c).expect("call")).collect();
        let fresh = format!("{:?}", calls.last().unwrap().imp(&PhoneNumberUtil::new()));
        let u = PhoneNumberUtil::new();
        let mut last = String::new();
        for (i, c) in calls.iter().enumerate() {
            last = format!("{:?}", c.imp(&u));
            if i < 20 || i + 20 >= calls.len() { println!("call      {}\nlibrary   {}", c.json().dump(), last); } else if i == 20 { println!("... {} calls more ...", calls.len() - 40); }
        }
        println!("without the earlier calls: {}", fresh);
        return (last != fresh) as i32;
    }
    if let Some(name) = j.get("call").get("memory").str() {
        let xml = std::env::var("MC_XML").unwrap_or_else(|_| "/repo/resources/PhoneNumberMetadata.xml".into());
        return crate::props::mem::replay(name, &Model::new(&xml));
    }
    let Some(call) = Call::from_json(j.get("call")) else { println!("no single call in this replay: {}", j.dump()); return 3 };
    let xml = std::env::var("MC_XML").unwrap_or_else(|_| "/repo/resources/PhoneNumberMetadata.xml".into());
    let m = Model::new(&xml);
    let u = PhoneNumberUtil::new();
    let got = match catch_unwind(AssertUnwindSafe(|| call.imp(&u))) { Ok(v) => v, Err(e) => Val::Panic(panic_text(e)) };
    println!("call      {}\nlibrary   {:?}\nmodel     {:?}\nrecorded expectation {}\nreason    {}", j.get("call").dump(), got, call.model(&m), j.get("expected").str().unwrap_or(""), j.get("why").str().unwrap_or(""));
    (format!("{:?}", got) != j.get("expected").str().unwrap_or("")) as i32
}

/// what is printed of a call; the replay file keeps all of it
fn brief(j: &J) -> String {
    let s = j.dump();
    if s.chars().count() <= 1200 { return s; }
    let v: Vec<char> = s.chars().collect();
    format!("{} ... {} characters ... {}", v[..500].iter().collect::<String>(), v.len() - 1000, v[v.len() - 500..].iter().collect::<String>())
}
