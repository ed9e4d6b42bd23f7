//! What an instance keeps: histories of ever new arguments, with the memory that is
//! still held after each of them as the observed state.
use super::*;
use crate::val::Call::*;
use rlibphonenumber::PhoneNumberUtil;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static HELD: Cell<i64> = const { Cell::new(0) }; }
/// The system allocator, counting what the current thread holds.
pub struct Counting;
fn add(n: i64) { let _ = HELD.try_with(|c| c.set(c.get() + n)); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
fn held() -> i64 { HELD.with(|c| c.get()) }

/// What is new in every step of a history.
#[derive(Clone, Copy, PartialEq)]
enum New { Number, Ext, Raw, Carrier, Region, Text, Code }
type Op = (&'static str, New, fn(&PhoneNumberUtil, &Step));
/// One step: a number of some plan and texts no other step has.
struct Step { n: Num, region: String, text: String, arg: String }

fn call(u: &PhoneNumberUtil, c: Call) { let _ = catch_unwind(AssertUnwindSafe(|| c.imp(u))); }
const OPS: [Op; 72] = [
    ("format E164, new number", New::Number, |u, s| call(u, Format(&s.n, Fm::E164))),
    ("format international, new number", New::Number, |u, s| call(u, Format(&s.n, Fm::Intl))),
    ("format national, new number", New::Number, |u, s| call(u, Format(&s.n, Fm::Nat))),
    ("format RFC3966, new number", New::Number, |u, s| call(u, Format(&s.n, Fm::Rfc))),
    ("format with carrier, new number", New::Number, |u, s| call(u, Carrier(&s.n, "15"))),
    ("format out of country, new number", New::Number, |u, s| call(u, OutOf(&s.n, "US"))),
    ("format for mobile dialling, new number", New::Number, |u, s| call(u, Mobile(&s.n, "US", true))),
    ("format for mobile dialling at home, new number", New::Number, |u, s| call(u, Mobile(&s.n, &s.region, false))),
    ("original format, new number", New::Number, |u, s| call(u, Original(&s.n, "US"))),
    ("keep alpha, new number", New::Number, |u, s| call(u, KeepAlpha(&s.n, "US"))),
    ("national significant number", New::Number, |u, s| call(u, Nsn(&s.n))),
    ("type", New::Number, |u, s| call(u, Type(&s.n))),
    ("region", New::Number, |u, s| call(u, Region(&s.n))),
    ("valid", New::Number, |u, s| call(u, Valid(&s.n))),
    ("valid for region", New::Number, |u, s| call(u, ValidFor(&s.n, &s.region))),
    ("possible with reason", New::Number, |u, s| call(u, Possible(&s.n))),
    ("possible", New::Number, |u, s| call(u, IsPossible(&s.n))),
    ("internationally diallable", New::Number, |u, s| call(u, Intl(&s.n))),
    ("geographical", New::Number, |u, s| call(u, Geo(&s.n))),
    ("destination code length", New::Number, |u, s| call(u, Ndc(&s.n))),
    ("area code length", New::Number, |u, s| call(u, Area(&s.n))),
    ("truncate", New::Number, |u, s| call(u, Trunc(&s.n))),
    ("match with itself", New::Number, |u, s| call(u, Match(&s.n, &s.n))),
    ("parse, new number", New::Text, |u, s| call(u, Parse(&s.text, &s.region, false))),
    ("parse and keep, new number", New::Text, |u, s| call(u, Parse(&s.text, &s.region, true))),
    ("parse international, new number", New::Text, |u, s| call(u, Parse(&format!("+{}{}", s.n.pn.cc(), s.text), "ZZ", true))),
    ("parse with an extension, new number", New::Text, |u, s| call(u, Parse(&format!("{} ext {}", s.text, s.arg), &s.region, false))),
    ("parse with a context, new number", New::Text, |u, s| call(u, Parse(&format!("tel:{};phone-context=+{}", s.text, s.n.pn.cc()), "ZZ", false))),
    ("parse with a new domain", New::Text, |u, s| call(u, Parse(&format!("tel:{};phone-context=a{}.com", s.text, s.arg), "US", false))),
    ("parse with a new bad context", New::Text, |u, s| call(u, Parse(&format!("tel:{};phone-context=_{}", s.text, s.arg), "US", false))),
    ("parse after an IDD, new number", New::Text, |u, s| call(u, Parse(&format!("011{}{}", s.n.pn.cc(), s.text), "US", false))),
    ("parse no number", New::Text, |u, s| call(u, Parse(&format!("abc{}def", s.arg.replace(|c: char| c.is_ascii_digit(), "z-")), "US", false))),
    ("parse too long", New::Text, |u, s| call(u, Parse(&format!("{}{}{}", s.text, s.arg, s.arg), "US", false))),
    ("parse, new unknown region", New::Region, |u, s| call(u, Parse("6502530000", &s.arg, false))),
    ("parse with plus, new unknown region", New::Region, |u, s| call(u, Parse("+16502530000", &s.arg, true))),
    ("is alpha number", New::Text, |u, s| call(u, IsAlpha(&format!("1800 {} FLO", s.text)))),
    ("convert letters", New::Text, |u, s| call(u, ConvAlpha(&format!("{}FLOWERS", s.text)))),
    ("format national, new extension", New::Ext, |u, s| call(u, Format(&s.n, Fm::Nat))),
    ("format RFC3966, new extension", New::Ext, |u, s| call(u, Format(&s.n, Fm::Rfc))),
    ("out of country, new extension", New::Ext, |u, s| call(u, OutOf(&s.n, "US"))),
    ("destination code, new extension", New::Ext, |u, s| call(u, Ndc(&s.n))),
    ("match, new extension", New::Ext, |u, s| call(u, Match(&s.n, &s.n))),
    ("original format, new raw input", New::Raw, |u, s| call(u, Original(&s.n, &s.region))),
    ("keep alpha, new raw input", New::Raw, |u, s| call(u, KeepAlpha(&s.n, "US"))),
    ("keep alpha at home, new raw input", New::Raw, |u, s| call(u, KeepAlpha(&s.n, &s.region))),
    ("mobile dialling, new raw input", New::Raw, |u, s| call(u, Mobile(&s.n, "US", false))),
    ("format with a new carrier", New::Carrier, |u, s| call(u, Carrier(&s.n, &s.arg))),
    ("mobile dialling with a new carrier", New::Carrier, |u, s| call(u, Mobile(&s.n, &s.region, true))),
    ("out of country from a new unknown region", New::Region, |u, s| call(u, OutOf(&s.n, &s.arg))),
    ("mobile dialling from a new unknown region", New::Region, |u, s| call(u, Mobile(&s.n, &s.arg, true))),
    ("original format for a new unknown region", New::Region, |u, s| call(u, Original(&s.n, &s.arg))),
    ("keep alpha from a new unknown region", New::Region, |u, s| call(u, KeepAlpha(&s.n, &s.arg))),
    ("valid for a new unknown region", New::Region, |u, s| call(u, ValidFor(&s.n, &s.arg))),
    ("calling code of a new unknown region", New::Region, |u, s| call(u, CcForRegion(&s.arg))),
    ("NANPA, new unknown region", New::Region, |u, s| call(u, Nanpa(&s.arg))),
    ("example of a new unknown region", New::Region, |u, s| { call(u, Example(&s.arg)); call(u, InvalidExample(&s.arg)) }),
    ("regions of a new calling code", New::Code, |u, s| { let c = s.n.pn.cc(); call(u, RegionForCc(c)); call(u, RegionsForCc(c)) }),
    ("type under a new calling code", New::Code, |u, s| { call(u, Type(&s.n)); call(u, Region(&s.n)); call(u, Valid(&s.n)) }),
    ("possible under a new calling code", New::Code, |u, s| { call(u, Possible(&s.n)); call(u, Trunc(&s.n)) }),
    ("format under a new calling code", New::Code, |u, s| { call(u, Format(&s.n, Fm::Intl)); call(u, OutOf(&s.n, "US")) }),
    ("parse with something after it", New::Text, |u, s| call(u, Parse(&format!("{} .", s.text), &s.region, false))),
    ("parse with something before it", New::Text, |u, s| call(u, Parse(&format!("call: ({}", s.text), &s.region, true))),
    ("parse with a second number", New::Text, |u, s| call(u, Parse(&format!("{} / x{}", s.text, s.arg), &s.region, false))),
    ("parse with a sub-address", New::Text, |u, s| call(u, Parse(&format!("tel:+{}{};isub={}", s.n.pn.cc(), s.text, s.arg), "ZZ", false))),
    ("parse with parameters", New::Text, |u, s| call(u, Parse(&format!("tel:+{}{};a={};ext={}", s.n.pn.cc(), s.text, s.arg, &s.arg[..3]), "ZZ", false))),
    ("parse full-width", New::Text, |u, s| call(u, Parse(&s.text.chars().map(|c| char::from_u32(c as u32 + 0xFEE0).unwrap()).collect::<String>(), &s.region, true))),
    ("parse in groups", New::Text, |u, s| call(u, Parse(&s.text.chars().map(|c| format!("{}-", c)).collect::<String>(), &s.region, true))),
    ("parse with letters", New::Text, |u, s| call(u, Parse(&format!("{}FLOW", &s.text[..s.text.len().min(6)]), &s.region, true))),
    ("parse with a national prefix and a carrier", New::Text, |u, s| call(u, Parse(&format!("0{}{}", &s.arg[..2], s.text), &s.region, true))),
    ("parse with a calling code and no plus", New::Text, |u, s| call(u, Parse(&format!("{}{}", s.n.pn.cc(), s.text), &s.region, true))),
    ("parse too short", New::Text, |u, s| call(u, Parse(&s.text[..2], &s.arg, true))),
    ("match, other digits", New::Text, |u, s| call(u, Match(&s.n, &Num::new(Pn::of(s.n.pn.cc(), &s.text[..s.text.len() - 1]))))),
];

/// Step number i of a history: its own digits, at a number of every plan in turn.
fn step(ex: &[(i32, String, String)], kind: New, i: usize) -> Step {
    let (cc, r, w) = &ex[i % ex.len()];
    let k = i / ex.len();
    let b = w.as_bytes();
    // the last digits count up, in an order that spreads over all of them
    let (m, d) = if w.len() > 8 { (10_000usize, 4) } else { (1000, 3) };
    let tail = format!("{:0d$}", (k * 7 + i * 13 + 1) % m, d = d);
    let keep = b.len().saturating_sub(d);
    let text = format!("{}{}", &w[..keep], tail);
    // a text with digits of its own
    let arg = format!("{}{}", 31 + i % 7, 1_000_003usize.wrapping_mul(i + 1) % 100_000_007);
    let mut p = Pn::of(*cc, if matches!(kind, New::Number | New::Text) { &text } else { w });
    match kind {
        New::Ext => p.ext = Some(arg.clone()),
        New::Raw => { p.raw = Some(format!("{}-{}", text, arg)); p.src = Some(SrcW([Src::Plus, Src::Idd, Src::NoPlus, Src::Default][i % 4])); }
        New::Carrier => p.carrier = Some(arg.clone()),
        New::Code => p.cc = Some(i as i32 - 500),
        _ => {}
    }
    Step { n: Num::new(p), region: if r == "001" { "ZZ".into() } else { r.clone() }, text, arg: if kind == New::Region { format!("Q{}", arg) } else { arg } }
}
/// What is held after each pass of new steps, on an instance of its own.
fn history(ex: &[(i32, String, String)], op: &Op, passes: usize, per: usize) -> Vec<i64> {
    let u = PhoneNumberUtil::new();
    let zero = held();
    let mut v = vec![];
    let mut i = 0;
    for _ in 0..passes {
        for _ in 0..per { op.2(&u, &step(ex, op.1, i)); i += 1; }
        v.push(held() - zero - (v.capacity() * 8) as i64);
    }
    v
}
/// How many new arguments a pass brings, and the bytes that may still come in the second
/// half of a history: automata built lazily inside the patterns of the plans. A table that
/// keeps as little as eight bytes for every argument grows by more than a megabyte (64 KB in
/// the short histories), because the second half doubles the number of arguments.
fn size(ex: &[(i32, String, String)], op: &Op, thorough: bool) -> (usize, usize, i64) {
    let wide = matches!(op.1, New::Number | New::Text);
    match (wide, thorough) {
        (true, false) => (8, ex.len() * 16, 400 << 10),
        (true, true) => (8, ex.len() * 64, 400 << 10),
        (false, false) => (8, ex.len() * 4, 48 << 10),
        (false, true) => (8, ex.len() * 32, 96 << 10),
    }
}
fn grows(v: &[i64], slack: i64) -> bool { v[v.len() - 1] - v[v.len() / 2 - 1] > slack }

pub fn bounded(c: &Ctx) {
    let ex = super::examples(&c.model);
    c.par(OPS.len(), |th, k| {
        // the long histories first
        let op = &OPS[if k < 20 { 20 + k } else if k < 40 { k - 20 } else { k }];
        let (passes, per, slack) = size(&ex, op, c.thorough);
        th.states += (passes * per) as u64;
        th.transitions += (passes * per) as u64;
        th.traces += (passes * per) as u64;
        th.nontrivial += 1;
        let v = history(&ex, op, passes, per);
        if std::env::var("MC_MEM").is_ok() { eprintln!("{:<50} {:?}", op.0, v); }
        th.outcome(if v[passes - 1] == v[passes / 2 - 1] { "nothing kept in the second half" } else { "patterns grow within the slack" });
        if k % 12 == 0 { c.sample(J::obj(vec![("history", J::s(op.0)), ("new_arguments", J::Int((passes * per) as i128)), ("bytes_held_after_each_pass", J::Arr(v.iter().map(|x| J::Int(*x as i128)).collect()))])); }
        if grows(&v, slack) { c.violate_memory(op.0, format!("{:?}", v)); }
    });
    c.note("histories", J::Int(OPS.len() as i128));
}
pub fn replay(name: &str, m: &Model) -> i32 {
    let ex = super::examples(m);
    let op = OPS.iter().find(|o| o.0 == name).expect("history");
    let (passes, per, slack) = size(&ex, op, false);
    let v = history(&ex, op, passes, per);
    println!("history   {} ({} new arguments per pass)\nbytes held after each pass {:?}", name, per, v);
    grows(&v, slack) as i32
}
