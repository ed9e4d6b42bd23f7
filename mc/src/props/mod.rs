//! One module function per property: the enumerated space and the oracle.
mod fmt;
mod hist;
pub mod mem;
pub use hist::{first, one};
mod number;
pub mod object;
mod parse;
use crate::engine::*;
use crate::explore::{self, Order, Space, ORDERS};
use crate::json::J;
use crate::model::*;
use crate::val::*;
use crate::val::Call::*;

pub fn assumptions() -> Vec<&'static str> {
    vec![
        "the reference model (mc/src/model.rs) and the numbering-plan reader over resources/PhoneNumberMetadata.xml state the intended behaviour",
        "exhaustive within the stated alphabets, digit orders and length bounds; nothing is claimed beyond them",
    ]
}
pub const ALL: [(&str, fn(&Ctx)); 30] = [
    ("C01", parse::totality), ("C02", number::totality), ("C03", parse::calling_code), ("C04", parse::national_prefix),
    ("C05", parse::decoration), ("C06", parse::extension), ("C07", parse::rfc3966), ("C08", parse::vanity), ("C09", parse::raw_source),
    ("C10", fmt::round_trip), ("C11", fmt::formats), ("C12", number::types), ("C13", number::regions), ("C14", number::lengths),
    ("C15", number::truncate), ("C16", number::matching), ("C17", number::maps), ("C18", number::examples), ("C19", fmt::out_of_country),
    ("C20", fmt::mobile), ("C21", fmt::original), ("C22", fmt::keep_alpha), ("C23", fmt::carrier), ("C24", number::ndc),
    ("C26", hist::history), ("C27", number::nsn), ("C28", number::geo_intl), ("C29", parse::acceptance), ("C30", mem::bounded), ("C34", object::objects),
];
pub fn run(c: &Ctx) {
    let f = ALL.iter().find(|x| x.0 == c.prop).unwrap_or_else(|| panic!("unknown property {}", c.prop)).1;
    f(c)
}

// ---------- shared enumerations ----------

pub fn regions(m: &Model) -> Vec<String> { let mut v: Vec<String> = m.meta.by_region.keys().cloned().collect(); v.sort(); v }
pub const ODD_REGIONS: [&str; 9] = ["ZZ", "001", "", "us", "U", "USA", "\u{FF35}\u{FF33}", "UN001", "AQ"];

pub struct Plan { pub cc: i32, pub sp: Space }
/// The product of the numbering-plan automata of every calling code.
pub fn plans(c: &Ctx, o: Order) -> Vec<Plan> {
    c.model.meta.by_cc.keys().map(|&cc| Plan { cc, sp: explore::explore(&explore::automata(&c.model.meta, cc), 18, o) }).collect()
}
/// Call f on every (calling code, national number) of the transition cover of the plan
/// product: the witness of every state, followed by every digit, followed by every suffix.
pub fn sweep<F: Fn(&mut Th, i32, &str) + Sync>(c: &Ctx, orders: &[Order], suffixes: &[&str], f: F) {
    for &o in orders {
        let ps = plans(c, o);
        let mut items: Vec<(usize, usize, usize)> = vec![];
        let mut stats: Vec<(i32, usize)> = vec![];
        for (i, p) in ps.iter().enumerate() {
            stats.push((p.cc, p.sp.states.len()));
            let mut a = 0;
            while a < p.sp.states.len() { let b = (a + 64).min(p.sp.states.len()); items.push((i, a, b)); a = b; }
        }
        c.par(items.len(), |th, k| {
            let (i, a, b) = items[k];
            let p = &ps[i];
            let mut w = String::new();
            for s in a..b {
                th.states += 1;
                let base = p.sp.word(s);
                for d in 0..10u8 {
                    th.transitions += 1;
                    for suf in suffixes {
                        w.clear();
                        w.push_str(&base);
                        w.push((b'0' + d) as char);
                        w.push_str(suf);
                        if w.len() > 19 { continue; }
                        f(th, p.cc, &w);
                    }
                }
            }
        });
    }
    c.note("digit_orders", J::Int(orders.len() as i128));
    c.note("suffixes", J::Int(suffixes.len() as i128));
}
/// As sweep, but only the states themselves (each product state visited once).
pub fn sweep_states<F: Fn(&mut Th, i32, &str) + Sync>(c: &Ctx, orders: &[Order], f: F) {
    for &o in orders {
        let ps = plans(c, o);
        let mut items: Vec<(usize, usize, usize)> = vec![];
        for (i, p) in ps.iter().enumerate() {
            let mut a = 1;
            while a < p.sp.states.len() { let b = (a + 16).min(p.sp.states.len()); items.push((i, a, b)); a = b; }
        }
        c.par(items.len(), |th, k| {
            let (i, a, b) = items[k];
            for s in a..b {
                th.states += 1;
                th.transitions += 1;
                let w = ps[i].sp.word(s);
                f(th, ps[i].cc, &w);
            }
        });
    }
}
pub fn orders(c: &Ctx, quick: usize, thorough: usize) -> &'static [Order] { &ORDERS[..if c.thorough { thorough } else { quick }] }
/// all words over an alphabet up to a length, by index
pub fn suffix_words(maxlen: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..maxlen {
        let mut n = vec![];
        for w in &last { for d in 0..10 { n.push(format!("{}{}", w, d)); } }
        v.extend(n.iter().cloned());
        last = n;
    }
    v
}
/// Every word of tokens of exactly length n, enumerated as base-|tokens| numbers.
pub fn nth_word<'a>(tokens: &[&'a str], n: usize, mut k: usize, out: &mut String) {
    for _ in 0..n { out.push_str(tokens[k % tokens.len()]); k /= tokens.len(); }
}
/// all token sequences of lengths 0..=hi, one after the other
pub fn words_list<F: FnMut(&str)>(tokens: &[&str], hi: usize, mut f: F) {
    let mut s = String::new();
    for n in 0..=hi { for k in 0..tokens.len().pow(n as u32) { s.clear(); nth_word(tokens, n, k, &mut s); f(&s); } }
}
/// all token sequences of lengths lo..=hi between each frame's prefix and suffix
pub fn words<F: Fn(&mut Th, &str) + Sync>(c: &Ctx, tokens: &[&str], lo: usize, hi: usize, frames: &[(&str, &str)], f: F) {
    for n in lo..=hi {
        let total = tokens.len().pow(n as u32);
        let chunk = 512usize.max(total / 4096);
        c.par((total + chunk - 1) / chunk, |th, i| {
            let mut s = String::new();
            for k in i * chunk..((i + 1) * chunk).min(total) {
                th.states += 1;
                for (a, b) in frames {
                    s.clear();
                    s.push_str(a);
                    nth_word(tokens, n, k, &mut s);
                    s.push_str(b);
                    th.transitions += 1;
                    f(th, &s);
                }
            }
        });
    }
    c.note("alphabet", J::Arr(tokens.iter().map(|t| J::s(*t)).collect()));
    c.note("word_length_bound", J::Int(hi as i128));
}
/// every Unicode scalar value
pub fn every_char<F: Fn(&mut Th, char) + Sync>(c: &Ctx, f: F) {
    c.par(0x1100, |th, i| {
        for k in 0..0x100u32 {
            let Some(ch) = char::from_u32(i as u32 * 0x100 + k) else { continue };
            th.states += 1;
            f(th, ch);
        }
    });
    c.note("characters", J::s("every Unicode scalar value"));
}
/// Valid (and nearly valid) representative national numbers of each calling code: the
/// example numbers of every territory and type.
pub fn examples(m: &Model) -> Vec<(i32, String, String)> {
    let mut v = vec![];
    for t in &m.meta.terrs {
        let mut seen = std::collections::HashSet::new();
        for (_, d) in &t.types {
            if let Some(e) = &d.example { if seen.insert(e.clone()) { v.push((t.cc, t.id.clone(), e.clone())); } }
        }
    }
    v
}
/// The same number with the fields that play no part in most answers set, unset or
/// empty, and with its zero fields written in every other way that means the same.
pub fn decorations(p: &Pn, w: &str) -> Vec<Pn> {
    let mut v = vec![];
    let mut add = |f: &dyn Fn(&mut Pn)| { let mut q = p.clone(); f(&mut q); v.push(q) };
    add(&|q| q.ext = Some("42".into()));
    add(&|q| q.ext = Some(String::new()));
    add(&|q| q.raw = Some(w.into()));
    add(&|q| q.raw = Some("+999 1 x2".into()));
    add(&|q| q.raw = Some(String::new()));
    // what a caller may have typed for it, in groups of the caller's own
    let cs: Vec<char> = w.chars().collect();
    let groups = |k: usize| cs.chunks(k).map(|c| c.iter().collect::<String>()).collect::<Vec<_>>();
    let cc = p.cc();
    add(&|q| { q.raw = Some(format!("+{} {}", cc, groups(2).join(" "))); q.src = Some(SrcW(Src::Plus)) });
    add(&|q| { q.raw = Some(format!("+{}-{}", cc, groups(1).join("-"))); q.ext = Some("42".into()); });
    add(&|q| { q.raw = Some(format!("011 {} {}", cc, groups(4).join("-"))); q.src = Some(SrcW(Src::Idd)) });
    add(&|q| { q.raw = Some(format!("{}{}", cc, w)); q.src = Some(SrcW(Src::NoPlus)) });
    add(&|q| { q.raw = Some(format!("0 ({}) x7", groups(3).join(") "))); q.src = Some(SrcW(Src::Default)) });
    add(&|q| q.carrier = Some("15".into()));
    add(&|q| q.carrier = Some(String::new()));
    for s in [Src::Unspecified, Src::Plus, Src::Idd, Src::NoPlus, Src::Default] { add(&|q| q.src = Some(SrcW(s))); }
    add(&|q| { q.ext = Some("0".into()); q.raw = Some("0".into()); q.carrier = Some("7".into()); q.src = Some(SrcW(Src::Default)); });
    if p.ilz() {
        if p.nlz() == 1 { add(&|q| q.nlz = Some(1)); }
    } else {
        add(&|q| q.ilz = Some(false));
        add(&|q| q.nlz = Some(1));
        add(&|q| q.nlz = Some(3));
        add(&|q| { q.ilz = Some(false); q.nlz = Some(2) });
    }
    v
}
/// every state of every plan, as a number with each decoration
pub fn decorated<F: Fn(&mut Th, &Num, &str) + Sync>(c: &Ctx, quick_orders: usize, f: F) {
    sweep_states(c, orders(c, quick_orders, 4), |th, cc, w| {
        for p in decorations(&Pn::of(cc, w), w) { th.transitions += 1; let n = Num::new(p); f(th, &n, w); }
    });
}
/// counts of leading zeros around every size at which a narrower integer would wrap
pub const ZERO_COUNTS: [i32; 30] = [0, 1, 2, 3, 8, 16, 17, 18, 40, 100, 127, 128, 129, 200, 246, 250, 255, 256, 257, 261, 265, 266, 300, 500, 512, 521, 1000, 32767, 65536, 65546];

/// A small set of calling regions that differ in how they dial out.
pub fn caller_classes(m: &Model) -> Vec<String> {
    let mut seen = std::collections::HashSet::new();
    let mut out = vec![];
    for r in regions(m) {
        let t = m.region(&r).unwrap();
        if seen.insert((t.idd.clone(), t.pref_idd.clone(), t.cc == 1)) { out.push(r); }
    }
    out.extend(ODD_REGIONS.iter().map(|s| s.to_string()));
    out
}
