//! Explores the interleavings of concurrent calls on one instance of the real library.
//! The library, its dependencies and std are compiled with thread-sanitizer
//! instrumentation, and rt.c takes the place of its runtime: every atomic operation and
//! futex call is a scheduling point that this explorer decides.
use rlibphonenumber::{PhoneNumber, PhoneNumberFormat, PhoneNumberUtil, PHONE_NUMBER_UTIL};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{HashMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

const MAXT: usize = 3;
const MAXSTEP: usize = 1 << 20;
const MAXDEC: usize = 64;
#[repr(C)]
#[derive(Clone, Copy)]
struct Ent { tid: u8, kind: u8, enabled: u8, prev_ok: u8, go: u32, addr: u64 }
#[repr(C)]
struct Shared {
    ndec: u32, nthreads: u32, max_steps: u32, race_mode: u32,
    dec: [[u32; 2]; MAXDEC],
    nsteps: u32, status: u32, nrace: u32, blocked_mask: u32,
    race: [[u8; 160]; 8],
    bad: [u32; MAXT],
    result: [[u8; 2048]; MAXT],
    trace: [Ent; MAXSTEP],
}
const OK: u32 = 1;
const DEADLOCK: u32 = 2;
const STEPS: u32 = 3;
const DIVERGED: u32 = 4;
extern "C" {
    static mut rt_shared: *mut Shared;
    fn rt_setup();
    fn rt_begin(t: i32);
    fn rt_end(t: i32);
    fn rt_arrived(n: u32);
    fn rt_go();
    fn rt_free(p: *mut u8, n: usize);
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(op: i32, ...) -> i32;
    fn personality(p: u64) -> i32;
}
struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { rt_free(p, l.size()); System.dealloc(p, l) }
}
#[global_allocator]
static A: Alloc = Alloc;

// ---------- operations ----------
#[derive(Clone)]
struct Op { name: String, f: Arc<dyn Fn(&PhoneNumberUtil) -> String + Send + Sync> }
fn op(name: impl Into<String>, f: impl Fn(&PhoneNumberUtil) -> String + Send + Sync + 'static) -> Op { Op { name: name.into(), f: Arc::new(f) } }
fn num(cc: i32, nsn: &str) -> PhoneNumber {
    let mut n = PhoneNumber::new();
    n.set_country_code(cc);
    n.set_national_number(nsn.parse().unwrap());
    let z = nsn.len() - nsn.trim_start_matches('0').len();
    if z > 0 { n.set_italian_leading_zero(true); n.set_number_of_leading_zeros(z as i32); }
    n
}
fn raw(mut n: PhoneNumber, raw: &str) -> PhoneNumber { n.set_raw_input(raw.to_string()); n }
fn run(o: &Op, u: &PhoneNumberUtil) -> String {
    match catch_unwind(AssertUnwindSafe(|| (o.f)(u))) { Ok(s) => s, Err(_) => "panic".into() }
}
use PhoneNumberFormat::*;
fn parse(t: &'static str, r: &'static str) -> Op { op(format!("parse({t:?},{r:?})"), move |u| format!("{:?}", u.parse(t, r))) }
fn parse_raw(t: &'static str, r: &'static str) -> Op { op(format!("parse_raw({t:?},{r:?})"), move |u| format!("{:?}", u.parse_and_keep_raw_input(t, r))) }
fn fmt(cc: i32, n: &'static str, f: PhoneNumberFormat) -> Op { op(format!("format({cc},{n},{f:?})"), move |u| u.format(&num(cc, n), f).into_owned()) }
fn ty(cc: i32, n: &'static str) -> Op { op(format!("type({cc},{n})"), move |u| format!("{:?}", u.get_number_type(&num(cc, n)))) }
fn valid(cc: i32, n: &'static str) -> Op { op(format!("valid({cc},{n})"), move |u| format!("{:?}", u.is_valid_number(&num(cc, n)))) }
fn region(cc: i32, n: &'static str) -> Op { op(format!("region({cc},{n})"), move |u| format!("{:?}", u.get_region_code_for_number(&num(cc, n)))) }
fn valid_for(cc: i32, n: &'static str, r: &'static str) -> Op { op(format!("valid_for({cc},{n},{r})"), move |u| format!("{:?}", u.is_valid_number_for_region(&num(cc, n), r))) }
fn out_of(cc: i32, n: &'static str, r: &'static str) -> Op { op(format!("out_of_country({cc},{n},{r})"), move |u| u.format_out_of_country_calling_number(&num(cc, n), r).into_owned()) }
fn mobile(cc: i32, n: &'static str, r: &'static str) -> Op { op(format!("mobile({cc},{n},{r})"), move |u| u.format_number_for_mobile_dialing(&num(cc, n), r, true).into_owned()) }
fn original(cc: i32, n: &'static str, w: &'static str, r: &'static str) -> Op { op(format!("original({cc},{n},{w:?},{r})"), move |u| u.format_in_original_format(&raw(num(cc, n), w), r).into_owned()) }
fn keep(cc: i32, n: &'static str, w: &'static str, r: &'static str) -> Op { op(format!("keep_alpha({cc},{n},{w:?},{r})"), move |u| u.format_out_of_country_keeping_alpha_chars(&raw(num(cc, n), w), r).into_owned()) }
fn carrier(cc: i32, n: &'static str, c: &'static str) -> Op { op(format!("carrier({cc},{n},{c})"), move |u| u.format_national_number_with_carrier_code(&num(cc, n), c)) }
fn trunc(cc: i32, n: &'static str) -> Op { op(format!("truncate({cc},{n})"), move |u| { let mut x = num(cc, n); let b = u.truncate_too_long_number(&mut x); format!("{b} {x:?}") }) }
fn possible(cc: i32, n: &'static str) -> Op { op(format!("possible({cc},{n})"), move |u| format!("{:?}", u.is_possible_number_with_reason(&num(cc, n)))) }
fn ndc(cc: i32, n: &'static str) -> Op { op(format!("ndc({cc},{n})"), move |u| format!("{} {}", u.get_length_of_national_destination_code(&num(cc, n)), u.get_length_of_geographical_area_code(&num(cc, n)))) }
fn matches(a: (i32, &'static str), b: (i32, &'static str)) -> Op { op(format!("match({a:?},{b:?})"), move |u| format!("{:?}", u.is_number_match(&num(a.0, a.1), &num(b.0, b.1)))) }
fn example(r: &'static str) -> Op { op(format!("example({r})"), move |u| format!("{:?}", u.get_example_number(r))) }
fn alpha(t: &'static str) -> Op { op(format!("is_alpha({t:?})"), move |u| format!("{} {}", u.is_alpha_number(t), u.convert_alpha_characters_in_number(t))) }
fn codes() -> Op { op("codes", |u| { let v: Vec<String> = [0, 7, 44, 210, 999, 1001, -1].iter().map(|&c| format!("{c} {} {:?}", u.get_region_code_for_country_code(c), u.get_region_codes_for_country_code(c).map(|i| i.count()))).collect(); v.join(";") }) }
fn examples() -> Op { op("examples", |u| format!("{:?} {:?} {:?}", u.get_invalid_example_number("US"), u.get_example_number("001"), u.get_example_number("ZZ"))) }
fn maps() -> Op { op("maps", |u| { let mut v: Vec<String> = u.get_supported_regions().map(|s| s.to_string()).collect(); v.sort(); format!("{:?} {} {:?} {} {}", u.get_country_code_for_region("BS"), u.get_region_code_for_country_code(44), u.get_region_codes_for_country_code(1).map(|i| i.count()), u.is_nanpa_country("US"), v.len()) }) }

// ---------- scenarios ----------
#[derive(Clone)]
struct Scn { name: String, prep: Vec<Op>, threads: Vec<Vec<Op>>, global: bool, bound: u32, fill: usize }
fn scn(what: &str, prep: Vec<Op>, threads: Vec<Vec<Op>>, bound: u32) -> Scn {
    let t: Vec<String> = threads.iter().map(|o| o.iter().map(|x| x.name.clone()).collect::<Vec<_>>().join("; ")).collect();
    let p: Vec<String> = prep.iter().map(|x| x.name.clone()).collect();
    Scn { name: format!("{what}: [{}] {}", p.join("; "), t.join(" || ")), prep, threads, global: false, bound, fill: 0 }
}
fn ops() -> Vec<Op> {
    vec![
        parse("+16502530000", "ZZ"), parse("044 668 18 00", "CH"), parse_raw("1 800 FLOWERS", "US"), parse_raw("0343715512345678", "AR"), parse("0236618300 ext. 7", "IT"), parse("tel:863-1234;phone-context=+1-914-555", "US"), parse("abc", "US"),
        fmt(1, "6502530000", National), fmt(39, "0236618300", International), fmt(54, "91187654321", National), fmt(44, "2070313000", RFC3966),
        ty(1, "6502530000"), ty(39, "0236618300"), ty(39, "236618300"), ty(1, "2423651234"), valid(1, "6502530000"), valid(44, "7912345678"), region(44, "1534456789"), region(1, "2423651234"), valid_for(1, "6502530000", "BS"),
        out_of(1, "6502530000", "IT"), out_of(44, "2070313000", "US"), mobile(55, "1123456789", "BR"), mobile(1, "6502530000", "US"), original(1, "6502530000", "650 253 0000", "US"), keep(1, "8003569377", "1800 FLOWERS", "IT"),
        carrier(54, "91187654321", "14"), trunc(1, "65025300001"), possible(1, "6502530000"), ndc(39, "0236618300"), matches((1, "6502530000"), (1, "2530000")), example("US"), example("BS"), alpha("1800 FLOWERS"), maps(),
        codes(), fmt(999, "12345678", International), parse("+999 1234567", "US"), possible(979, "123456789"), valid(800, "12345678"), examples(),
    ]
}
fn scenarios(thorough: bool, race: bool) -> Vec<Scn> {
    let al = ops();
    let n = al.len();
    let mut v = vec![];
    let b = if race { 0 } else { 1 };
    let deep = if race { 0 } else if thorough { 3 } else { 2 };
    // first use of the process-wide instance
    for (t, bb) in [(2usize, b), (3, b)] {
        let o: Vec<Vec<Op>> = [0usize, 11, 7].iter().take(t).map(|&i| vec![al[i].clone()]).collect();
        let mut s = scn("process-wide instance", vec![], o, bb);
        s.global = true;
        v.push(s);
    }
    // both threads ask the same of an unused instance
    for o in &al { v.push(scn("cold", vec![], vec![vec![o.clone()], vec![o.clone()]], b)); }
    // different calls on an unused instance
    for i in 0..n { for j in i + 1..n { if thorough || (i + 2 * j) % 7 == 0 { v.push(scn("cold", vec![], vec![vec![al[i].clone()], vec![al[j].clone()]], b)); } } }
    // every pair on an instance that has answered both before
    for i in 0..n { for j in i..n { if thorough || (i * 3 + j) % 2 == 0 { v.push(scn("warm", vec![al[i].clone(), al[j].clone()], vec![vec![al[i].clone()], vec![al[j].clone()]], b)); } } }
    // a call that meets an unassigned or shared calling code beside each of the others
    for i in 0..n { for j in [35usize, 36, 37] { if thorough || (i + j) % 3 == 0 { v.push(scn("cold", vec![], vec![vec![al[i].clone()], vec![al[j].clone()]], b)); } } }
    // deeper: a few calls, more preemptions
    for (i, j) in [(11usize, 13usize), (11, 14), (12, 13), (15, 16), (28, 28), (7, 8), (0, 1), (18, 17), (34, 34)] {
        v.push(scn("warm", vec![al[i].clone(), al[j].clone()], vec![vec![al[i].clone()], vec![al[j].clone()]], deep));
    }
    if thorough { for i in [11usize, 15, 17] { v.push(scn("cold", vec![], vec![vec![al[i].clone()], vec![al[i].clone()]], deep - 1)); } }
    // two calls each, in opposite orders
    for (i, j) in [(11usize, 12usize), (0, 7), (15, 18), (3, 26), (20, 23), (1, 4)] {
        v.push(scn("cold", vec![], vec![vec![al[i].clone(), al[j].clone()], vec![al[j].clone(), al[i].clone()]], b));
        v.push(scn("warm", vec![al[i].clone(), al[j].clone()], vec![vec![al[i].clone(), al[j].clone()], vec![al[j].clone(), al[i].clone()]], b));
    }
    // three threads
    for t in [[11usize, 12, 13], [0, 1, 2], [7, 8, 9], [15, 17, 18], [20, 22, 24], [11, 11, 11], [3, 26, 30], [13, 12, 14]] {
        let th: Vec<Vec<Op>> = t.iter().map(|&i| vec![al[i].clone()]).collect();
        v.push(scn("cold", vec![], th.clone(), if thorough { b } else { 0 }));
        v.push(scn("warm", t.iter().map(|&i| al[i].clone()).collect(), th, b));
    }
    // an instance that has already answered for k regions, then two threads with patterns
    // new to it: whatever happens when something fills up
    let step = if thorough { 1 } else { 4 };
    for k in (0..=245).step_by(step) {
        for (what, x, y) in [("formatting", fmt(54, "91187654321", National), fmt(55, "1123456789", National)), ("classification", ty(351, "912345678"), ty(353, "861234567"))] {
            if race && k % 16 != 0 { continue; }
            let mut s = scn(&format!("{what} after {k} regions"), vec![], vec![vec![x], vec![y]], b);
            s.fill = k + 1;
            v.push(s);
        }
    }
    // the long ones first, so that the workers finish together
    v.sort_by_key(|s| std::cmp::Reverse((s.fill > 0 && s.fill % 8 == 1, s.bound, s.threads.len(), s.threads.iter().map(|t| t.len()).sum::<usize>(), s.prep.is_empty() && s.fill == 0)));
    v
}

// ---------- one schedule ----------
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Dec { step: u32, tid: u32, pre: bool }
fn sh() -> &'static mut Shared { unsafe { &mut *rt_shared } }
fn cstr(b: &[u8]) -> String { String::from_utf8_lossy(&b[..b.iter().position(|&x| x == 0).unwrap_or(b.len())]).to_string() }
fn in_child(f: impl FnOnce()) -> i32 {
    unsafe {
        let p = fork();
        assert!(p >= 0);
        if p == 0 { let _ = catch_unwind(AssertUnwindSafe(f)); _exit(0) }
        let mut st = 0;
        while waitpid(p, &mut st, 0) != p {}
        st
    }
}
/// Runs the scenario under the decisions; what is wrong with it, if anything.
fn schedule(s: &Scn, u: &'static PhoneNumberUtil, base: &[Vec<String>], d: &[Dec], race: bool) -> Option<String> {
    let m = sh();
    m.ndec = d.len() as u32;
    m.nthreads = s.threads.len() as u32;
    m.max_steps = (MAXSTEP - 1) as u32;
    m.race_mode = race as u32;
    for (i, x) in d.iter().enumerate() { m.dec[i] = [x.step, x.tid]; }
    m.nsteps = 0; m.status = 0; m.nrace = 0; m.blocked_mask = 0; m.bad = [0; MAXT];
    let st = in_child(|| {
        unsafe { alarm(120); }
        let hs: Vec<_> = s.threads.iter().cloned().enumerate().map(|(t, ops)| {
            let want = base[t].clone();
            let global = s.global;
            let h = std::thread::Builder::new().stack_size(1 << 21).spawn(move || {
                unsafe { rt_begin(t as i32); }
                let got: Vec<String> = ops.iter().map(|o| if global { match catch_unwind(|| &*PHONE_NUMBER_UTIL) { Ok(u) => run(o, u), Err(_) => "panic".into() } } else { run(o, u) }).collect();
                unsafe { rt_end(t as i32); }
                // and once more, now that all is quiet
                let again: Vec<String> = ops.iter().map(|o| if global { run(o, &PHONE_NUMBER_UTIL) } else { run(o, u) }).collect();
                for (i, g) in got.iter().chain(&again).enumerate() {
                    let k = i % ops.len();
                    if *g != want[k] && sh().bad[t] == 0 {
                        let text = format!("{} {}answered {} instead of {}", ops[k].name, if i >= ops.len() { "asked again afterwards " } else { "" }, g, want[k]);
                        let b = text.as_bytes();
                        let n = b.len().min(2047);
                        sh().result[t][..n].copy_from_slice(&b[..n]);
                        sh().result[t][n] = 0;
                        sh().bad[t] = 1 + (i / ops.len()) as u32;
                    }
                }
            }).unwrap();
            unsafe { rt_arrived(t as u32 + 1); }
            h
        }).collect();
        unsafe { rt_go(); }
        for h in hs { let _ = h.join(); }
        unsafe { _exit(33) }
    });
    let m = sh();
    match m.status {
        OK => (),
        DEADLOCK => return Some(format!("deadlock: no thread can go on (blocked: {:#b})", m.blocked_mask)),
        STEPS => return Some("no thread finishes: step limit reached".into()),
        DIVERGED => return Some("diverged".into()),
        _ => return Some(format!("the process died or hung (wait status {st:#x})")),
    }
    for t in 0..s.threads.len() { if m.bad[t] != 0 { return Some(cstr(&m.result[t])); } }
    if st != 33 << 8 { return Some(format!("calls made afterwards died or hung (wait status {st:#x})")); }
    if m.nrace > 0 { return Some(format!("data race: {}", cstr(&m.race[0]))); }
    None
}
fn is_write(k: u8) -> bool { k == 1 || k == 5 }
fn candidates(d: &[Dec], nthreads: usize, bound: u32) -> Vec<Vec<Dec>> {
    let m = sh();
    let n = m.nsteps as usize;
    let tr = &m.trace[..n];
    // later accesses per address: for each thread a bit for a read, a bit for a write
    let mut later: HashMap<u64, [u8; MAXT]> = HashMap::new();
    let mut out = vec![];
    for k in (0..n).rev() {
        let e = tr[k];
        let mut alts = 0u8;
        if e.prev_ok == 0 { alts |= (e.go as u8) & !(1 << e.tid); }
        if e.kind < 2 || e.kind >= 4 {
            let w = is_write(e.kind);
            let l = later.entry(e.addr).or_default();
            for u in 0..nthreads {
                if u as u8 != e.tid && (l[u] & 2 != 0 || (w && l[u] != 0)) {
                    let en = e.enabled & !(1 << e.tid);
                    alts |= if en & (1 << u) != 0 { 1 << u } else { en };
                }
            }
            l[e.tid as usize] |= if w { 2 } else { 1 };
        }
        if alts == 0 { continue; }
        let pre: Vec<Dec> = d.iter().filter(|x| (x.step as usize) < k).cloned().collect();
        if pre.len() + 1 >= MAXDEC { continue; }
        let spent = pre.iter().filter(|x| x.pre).count() as u32;
        for u in 0..nthreads {
            if alts & (1 << u) == 0 { continue; }
            let p = e.prev_ok != 0 && !d.iter().any(|x| x.step as usize == k && !x.pre);
            // staying with the running thread where a decision left it costs nothing
            if spent + p as u32 > bound { continue; }
            let mut c = pre.clone();
            c.push(Dec { step: k as u32, tid: u as u32, pre: p });
            out.push(c);
        }
    }
    out
}

/// The execution up to the order of independent steps: equal for two schedules exactly
/// when every pair of conflicting steps runs in the same order in both.
fn trace_hash() -> u64 {
    fn mix(a: u64, b: u64) -> u64 { let x = (a ^ b.rotate_left(29)).wrapping_mul(0x9E37_79B9_7F4A_7C15); x ^ (x >> 32) }
    let m = sh();
    let mut at: HashMap<u64, (u64, u64)> = HashMap::new(); // per address: last write, sum of reads since
    let mut local = [0u64; MAXT];
    let mut sum = 0u64;
    for e in &m.trace[..m.nsteps as usize] {
        let t = e.tid as usize;
        let mut h = mix(local[t], ((e.tid as u64) << 8) | e.kind as u64);
        if e.kind != 2 && e.kind != 3 {
            let a = at.entry(e.addr).or_default();
            h = mix(h, mix(e.addr, a.0));
            if is_write(e.kind) { h = mix(h, a.1); *a = (h, 0); } else { a.1 = a.1.wrapping_add(h); }
        }
        local[t] = h;
        sum = sum.wrapping_add(h);
    }
    sum
}

// ---------- exploration of one scenario ----------
#[derive(Default, Clone)]
struct Stat { schedules: u64, states: u64, transitions: u64, conflicts: u64, diverged: u64, capped: u64, deepest: u64, violations: u64, equivalent: u64 }
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 || !c.is_ascii() => { let mut b = [0u16; 2]; for x in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{x:04x}")); } } c => o.push(c) } }
    o
}
fn baselines(s: &Scn) -> Vec<Vec<String>> {
    unsafe {
        let mut fd = [0i32; 2];
        pipe(fd.as_mut_ptr());
        let p = fork();
        if p == 0 {
            alarm(300);
            let mut f = std::fs::File::from_raw_fd(fd[1]);
            for t in &s.threads { for o in t { let r = run(o, &PhoneNumberUtil::new()); f.write_all(r.as_bytes()).unwrap(); f.write_all(&[0]).unwrap(); } }
            f.flush().unwrap();
            _exit(0)
        }
        close(fd[1]);
        let mut t = String::new();
        std::fs::File::from_raw_fd(fd[0]).read_to_string(&mut t).unwrap();
        let mut st = 0;
        waitpid(p, &mut st, 0);
        let mut it = t.split('\0').map(|x| x.to_string());
        s.threads.iter().map(|o| o.iter().map(|_| it.next().unwrap_or_default()).collect()).collect()
    }
}
fn fill(u: &PhoneNumberUtil, k: usize) {
    if k == 0 { return; }
    let mut r: Vec<String> = u.get_supported_regions().map(|s| s.to_string()).filter(|r| !["AR", "BR", "PT", "IE"].contains(&r.as_str())).collect();
    r.sort();
    for r in r.iter().take(k - 1) {
        let _ = u.parse("044 668 18 00", r.as_str());
        if let Ok(n) = u.get_example_number(r) { let _ = u.get_number_type(&n); let _ = u.format(&n, National); }
    }
}
fn explore(s: &Scn, u: &'static PhoneNumberUtil, race: bool, cap: u64, out: &mut std::fs::File) -> Stat {
    let mut st = Stat::default();
    let base = baselines(s);
    for o in &s.prep { let _ = run(o, u); }
    fill(u, s.fill);
    let mut seen: HashSet<Vec<Dec>> = HashSet::new();
    let mut todo: Vec<Vec<Dec>> = vec![vec![]];
    seen.insert(vec![]);
    let mut traces: HashMap<u64, u32> = HashMap::new();
    while let Some(d) = todo.pop() {
        if st.schedules >= cap { st.capped = 1; break; }
        let bad = schedule(s, u, &base, &d, race);
        st.schedules += 1;
        let n = sh().nsteps as u64;
        st.transitions += n;
        st.states += n - d.last().map_or(0, |x| x.step as u64).min(n);
        st.deepest = st.deepest.max(n);
        match bad {
            Some(b) if b == "diverged" => { st.diverged += 1; continue; }
            Some(b) => {
                st.violations += 1;
                let ds: Vec<String> = d.iter().map(|x| format!("[{},{},{}]", x.step, x.tid, x.pre as u8)).collect();
                let _ = writeln!(out, "V\t{}\t{}\t{}\t{}", race as u8, esc(&s.name), ds.join(","), esc(&b));
                break;
            }
            None => (),
        }
        let spent = d.iter().filter(|x| x.pre).count() as u32;
        let h = trace_hash();
        match traces.get(&h) {
            Some(&b) if b <= spent => { st.equivalent += 1; continue; }
            _ => { traces.insert(h, spent); }
        }
        for c in candidates(&d, s.threads.len(), s.bound) {
            if seen.insert(c.clone()) { st.conflicts += 1; todo.push(c); }
        }
    }
    st
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // same addresses on every run, so that counts and replays repeat
    unsafe {
        let p = personality(0xffff_ffff);
        if p >= 0 && p & 0x40000 == 0 && std::env::var("CONC_EXEC").is_err() && personality(p as u64 | 0x40000) >= 0 {
            use std::os::unix::process::CommandExt;
            let _ = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env("CONC_EXEC", "1").exec();
        }
    }
    let a: Vec<String> = std::env::args().collect();
    let thorough = a.get(1).map_or(false, |x| x == "thorough");
    let race = a.get(2).map_or(false, |x| x == "race");
    let outdir = a.get(3).cloned().unwrap_or("/tmp".into());
    let only = a.get(4).cloned();
    let limit: u64 = std::env::var("CONC_SECONDS").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3000 } else if race { 240 } else { 400 });
    let u: &'static PhoneNumberUtil = Box::leak(Box::new(PhoneNumberUtil::new()));
    let all = scenarios(thorough, race);
    if let Ok(file) = std::env::var("CONC_REPLAY") {
        // scenario name \t decisions
        let t = std::fs::read_to_string(file).unwrap();
        let mut f = t.trim_end_matches('\n').split('\t');
        let (name, ds) = (f.next().unwrap(), f.next().unwrap_or(""));
        let mut d = vec![];
        let nums: Vec<u32> = ds.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        for c in nums.chunks(3) { d.push(Dec { step: c[0], tid: c[1], pre: c[2] != 0 }); }
        let mut found = scenarios(true, race);
        found.extend(all);
        let Some(s) = found.into_iter().find(|s| esc(&s.name) == name || s.name == name) else { println!("no such scenario"); std::process::exit(2) };
        unsafe { rt_setup(); }
        let base = baselines(&s);
        for o in &s.prep { let _ = run(o, u); }
        fill(u, s.fill);
        match schedule(&s, u, &base, &d, race) {
            Some(b) => { println!("{b}"); std::process::exit(1) }
            None => { println!("the answers agree"); std::process::exit(0) }
        }
    }
    let all: Vec<Scn> = all.into_iter().filter(|s| only.as_ref().map_or(true, |o| s.name.contains(o.as_str()))).collect();
    let next = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut u64;
    let take = || unsafe { std::sync::atomic::AtomicU64::from_ptr(next).fetch_add(1, std::sync::atomic::Ordering::SeqCst) as usize };
    let found = || unsafe { std::sync::atomic::AtomicU64::from_ptr(next.add(8)) };
    let t0 = std::time::Instant::now();
    let cap = if thorough { 200_000 } else { 20_000 };
    let w: usize = std::env::var("CONC_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let mut pids = vec![];
    for i in 0..w {
        let p = unsafe { fork() };
        if p == 0 {
            unsafe { prctl(1, 9); rt_setup(); }
            let mut f = std::fs::File::create(format!("{outdir}/conc.{}.{i}", race as u8)).unwrap();
            loop {
                let k = take();
                if k >= all.len() || found().load(std::sync::atomic::Ordering::SeqCst) >= 3 { break; }
                let s = &all[k];
                if t0.elapsed().as_secs() > limit { let _ = writeln!(f, "L\t{}", esc(&s.name)); continue; }
                let st = in_child(|| {
                    let ts = std::time::Instant::now();
                    let mut f = f.try_clone().unwrap();
                    let st = explore(s, u, race, cap, &mut f);
                    found().fetch_add(st.violations, std::sync::atomic::Ordering::SeqCst);
                    let _ = writeln!(f, "S\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{:.2}\t{}", st.schedules, st.states, st.transitions, st.equivalent, st.diverged, st.capped, st.deepest, s.bound, ts.elapsed().as_secs_f64(), esc(&s.name));
                    unsafe { _exit(44) }
                });
                if st != 44 << 8 { let _ = writeln!(f, "E\t{:#x}\t{}", st, esc(&s.name)); }
            }
            unsafe { _exit(0) }
        }
        pids.push(p);
    }
    for p in pids { let mut st = 0; unsafe { waitpid(p, &mut st, 0); } }
    println!("{} scenarios, {:.1} s", all.len(), t0.elapsed().as_secs_f64());
}
