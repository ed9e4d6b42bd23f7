//! Parsing properties.
use super::*;
use crate::val::Call::*;

const ALPHA: [&str; 30] = ["0", "1", "9", "+", "\u{FF0B}", "-", " ", "(", ")", ".", "/", "\\", "x", "X", "#", "~", ",", ";", "*", "e", "t", "n", "=", ":", "A", "\u{0663}", "\u{301}", "\n", "\u{FF58}", "%"];
const TOKENS: [&str; 40] = ["1", "0", "12", "123", "650253", "0000000", "+", "+1", "00", "011", "tel:", ";phone-context=", ";isub=", ";ext=", "ext", "ext.", "x", "#", ",", ";", "example.com", "+44", " ", "-", "(", ")", "/", "\\", "ABC", "FLOWERS", "\u{0661}\u{0662}\u{0663}", "\u{FF10}\u{FF11}", "\u{FF0B}", "*", "~", "int", "anexo", "\u{0434}\u{043E}\u{0431}", "o\u{0301}", "\u{1F4DE}"];

fn wellformed(th: &mut Th, s: &str, r: &str) {
    let m = th.m();
    let v = th.total(Parse(s, r, true));
    if let Val::Parsed(Ok(p)) = &v {
        th.nontrivial += 1;
        let n = m.nsn(p);
        let ok = m.meta.by_cc.contains_key(&p.cc()) && (2..=17).contains(&n.len()) && p.raw.as_deref() == Some(s) && p.src.is_some()
            && (p.ilz() == (n.len() > 1 && n.starts_with('0'))) && p.ext.as_ref().map_or(true, |e| !e.is_empty() && e.chars().all(|c| m.nd.contains_key(&c)))
            && p.carrier.as_ref().map_or(true, |c| c.bytes().all(|b| b.is_ascii_digit()));
        if !ok { th.fail(Parse(s, r, true), &Val::S("a supported calling code, 2 to 17 digits, consistent zero fields, digit extension, the raw input".into()), &v, "a parsed number is well formed"); }
        th.outcome("parsed");
    } else if let Val::Parsed(Err(e)) = &v {
        th.outcome(match e { PErr::NotANumber(_) => "not a number", PErr::InvalidCc => "invalid country code", PErr::ShortAfterIdd => "too short after idd", PErr::ShortNsn => "too short", PErr::LongNsn => "too long" });
    }
}

pub fn totality(c: &Ctx) {
    // once more with a logger installed that formats every message
    crate::engine::log_all(true);
    words(c, &ALPHA, 0, if c.thorough { 4 } else { 3 }, &[("", ""), ("1234", ""), ("+1650253", "0000"), ("12345;ext=", ""), ("tel:12345;phone-context=", "")], |th, s| { wellformed(th, s, "US"); wellformed(th, s, "\u{1F4DE}"); th.total(IsAlpha(s)); });
    words(c, &TOKENS, 1, 3, &[("", "")], |th, s| { wellformed(th, s, "BR"); });
    crate::engine::log_all(false);
    words(c, &ALPHA, 0, if c.thorough { 5 } else { 4 }, &[("", ""), ("1234", ""), ("+1650253", "0000"), ("12345;ext=", ""), ("tel:12345;phone-context=", "")], |th, s| {
        wellformed(th, s, "US");
        wellformed(th, s, "ZZ");
        th.total(IsAlpha(s));
        th.total(ConvAlpha(s));
    });
    words(c, &TOKENS, 1, if c.thorough { 5 } else { 4 }, &[("", "")], |th, s| { wellformed(th, s, if s.len() % 2 == 0 { "US" } else { "IT" }); });
    // every Unicode scalar value, alone and in the middle of a number
    c.par(0x110, |th, i| {
        for k in 0..0x1000u32 {
            let Some(ch) = char::from_u32(i as u32 * 0x1000 + k) else { continue };
            th.states += 1;
            for s in [format!("{}", ch), format!("{}1234567", ch), format!("650{}2530000", ch), format!("6502530000{}", ch), format!("6502530000 x{}", ch), format!("6502530000{}12", ch), format!("+{}16502530000", ch), format!("123;phone-context=+1{}", ch), format!("12345678;ext={}", ch)] {
                th.transitions += 1;
                wellformed(th, &s, "US");
            }
            let s = format!("1800{}FLOWERS", ch);
            th.total(IsAlpha(&s)); th.total(ConvAlpha(&s));
        }
    });
    // long inputs: every period-2 string over the alphabet, at growing lengths
    let al: Vec<&str> = ALPHA.iter().copied().chain(["ext", ";phone-context=", "tel:", "\u{1F4DE}"]).collect();
    let sizes: &[usize] = if c.thorough { &[17, 18, 19, 20, 21, 40, 249, 250, 251, 300, 4000, 20000] } else { &[17, 18, 19, 20, 21, 40, 251, 2000] };
    c.par(al.len() * al.len(), |th, i| {
        th.states += 1;
        let (a, b) = (al[i / al.len()], al[i % al.len()]);
        for &n in sizes {
            th.transitions += 1;
            let body: String = (0..n).map(|k| if k % 2 == 0 { a } else { b }).collect();
            for (p, q) in [("", ""), ("1234", "5"), ("+1", "")] { let s = format!("{}{}{}", p, body, q); wellformed(th, &s, "US"); th.total(IsAlpha(&s)); }
        }
    });
    // every region, odd region names included
    let rs: Vec<String> = regions(&c.model).into_iter().chain(ODD_REGIONS.iter().map(|s| s.to_string())).chain(["\u{1F4DE}", "ZZZZZZZZZZZZZZZZ", "\0", "$1"].iter().map(|s| s.to_string())).collect();
    let k = if c.thorough { 6 } else { 4 };
    c.par(rs.len(), |th, i| {
        for n in 0..10usize.pow(k) {
            th.states += 1; th.transitions += 1;
            let s = format!("{:0k$}", n, k = k as usize);
            wellformed(th, &s, &rs[i]);
            if n % 3 == 0 { wellformed(th, &format!("{}8005551234", s), &rs[i]); }
            if n % 4 == 0 { wellformed(th, &format!("00{}55512", s), &rs[i]); wellformed(th, &format!("+{}555123", s), &rs[i]); }
        }
    });
}

fn differ(th: &mut Th, s: &str, r: &str) {
    let v = th.diff(Parse(s, r, false));
    if matches!(v, Val::Parsed(Ok(_))) { th.nontrivial += 1; th.outcome("accepted"); }
    if let Val::Parsed(Err(e)) = &v { th.outcome(match e { PErr::NotANumber(_) => "not a number", PErr::InvalidCc => "invalid country code", PErr::ShortAfterIdd => "too short after idd", PErr::ShortNsn => "too short", PErr::LongNsn => "too long" }); }
}

/// acceptance and the kind of rejection
pub fn acceptance(c: &Ctx) {
    words(c, &ALPHA, 0, if c.thorough { 5 } else { 4 }, &[("", ""), ("12", "3"), ("+1650253", "0000"), ("(0", "650)")], |th, s| {
        for r in ["US", "ZZ", "IT"] { differ(th, s, r); }
    });
    words(c, &TOKENS, 1, if c.thorough { 5 } else { 4 }, &[("", "")], |th, s| differ(th, s, if s.len() % 3 == 0 { "ZZ" } else { "US" }));
    // length limits of every plan, in every spelling
    let rs = regions(&c.model);
    c.par(rs.len(), |th, i| {
        let r = &rs[i];
        let t = th.m().region(r).unwrap();
        let np = t.np.clone().unwrap_or_default();
        for len in 0..=22usize {
            for fill in ["0", "1", "2", "5", "9", "1234567890", "8005551234"] {
                th.states += 1;
                let fb = fill.as_bytes();
                let w: String = (0..len).map(|j| fb[j % fb.len()] as char).collect();
                for s in [w.clone(), format!("+{}{}", t.cc, w), format!("{}{}", t.cc, w), format!("{}{}", np, w), format!("00{}{}", t.cc, w), format!("011{}{}", t.cc, w), format!("+{}{}{}", t.cc, np, w), format!("+{}", w), format!("{} ext. 3", w), format!("+{} ;", w)] {
                    th.transitions += 1;
                    differ(th, &s, r);
                    differ(th, &s, "ZZ");
                }
            }
        }
    });
    // every default region, odd ones included, for every form of an example of every region
    let bs = bases(&c.model, 1);
    let all: Vec<String> = rs.iter().cloned().chain(ODD_REGIONS.iter().map(|s| s.to_string())).chain(["gb", "Us", " US", "US ", "US\0", "XX", "001 ", "1", "\u{1F4DE}"].iter().map(|s| s.to_string())).collect();
    c.par(bs.len(), |th, i| {
        th.states += 1;
        for r in &all { th.transitions += 1; differ(th, &bs[i].0, r); }
    });
    // and for every short text, so that every reason for refusing meets every region; longer ones for the odd regions
    words(c, &ALPHA, 0, if c.thorough { 3 } else { 2 }, &[("", ""), ("12", "3"), ("+1650253", "0000"), ("(0", "650)"), ("tel:1;phone-context=", ""), ("+", "44")], |th, s| {
        for r in &all { differ(th, s, r); }
    });
    words(c, &ALPHA, 3, 3, &[("", ""), ("12", "3")], |th, s| {
        for r in &all[rs.len()..] { differ(th, s, r); }
    });
    // long inputs: every period-2 string over the alphabet, at growing lengths
    let al: Vec<&str> = ALPHA.iter().copied().chain(["ext", ";phone-context=", "tel:", "\u{1F4DE}"]).collect();
    let sizes: &[usize] = if c.thorough { &[17, 18, 19, 20, 21, 40, 127, 128, 249, 250, 251, 256, 300, 1000] } else { &[17, 18, 20, 40, 128, 251, 300] };
    c.par(al.len() * al.len(), |th, i| {
        th.states += 1;
        let (a, b) = (al[i / al.len()], al[i % al.len()]);
        for &n in sizes {
            th.transitions += 1;
            let body: String = (0..n).map(|k| if k % 2 == 0 { a } else { b }).collect();
            for (p, q) in [("", ""), ("1234", "5"), ("+1", ""), ("650", "2530000")] { differ(th, &format!("{}{}{}", p, body, q), "US"); }
        }
    });
    // every scalar value in four positions
    c.par(0x110, |th, i| {
        for k in 0..0x1000u32 {
            let Some(ch) = char::from_u32(i as u32 * 0x1000 + k) else { continue };
            th.states += 1;
            for s in [format!("{}1234567", ch), format!("650{}2530000", ch), format!("6502530000{}", ch), format!("+{}16502530000", ch)] {
                th.transitions += 1;
                differ(th, &s, "US");
            }
        }
    });
    for f in [&EV_CODE[..], &EV_DECOR, &EV_EXT, &EV_RFC, &EV_ALPHA] { everywhere(c, f, &[false]); }
}

/// the accepted words of a prefix automaton: one per state and digit, up to a length
fn prefix_words(rx: &crate::rx::Rx, pre: &crate::rx::Dfa, max: usize, order: Order) -> Vec<String> {
    let sp = explore::explore(&[pre], max, order);
    let mut v = std::collections::BTreeSet::new();
    for s in 0..sp.states.len() {
        let w = sp.word(s);
        for d in 0..10 {
            let x = format!("{}{}", w, d);
            if x.len() <= max {
                // keep what the pattern consumes, and near misses
                match rx.match_start(&x) { Some(c) => { let e = c[0].unwrap().1; if e > 0 { v.insert(x[..e].to_string()); } v.insert(x); } None => { v.insert(x); } }
            }
        }
    }
    v.into_iter().collect()
}

pub fn calling_code(c: &Ctx) {
    let m = &c.model;
    let rs: Vec<String> = regions(m).into_iter().chain(ODD_REGIONS.iter().map(|s| s.to_string())).collect();
    // every leading 0-3 digit string after every form of prefix, in every region
    let go = |th: &mut Th, s: &str, r: &str| {
        let v = th.diff(Parse(s, r, true));
        if let Val::Parsed(Ok(p)) = &v {
            th.nontrivial += 1;
            th.outcome(match p.src { Some(SrcW(Src::Plus)) => "plus", Some(SrcW(Src::Idd)) => "idd", Some(SrcW(Src::NoPlus)) => "code without plus", _ => "national" });
        } else { th.outcome("rejected"); }
    };
    c.par(rs.len() * 10, |th, i| {
        let r = &rs[i / 10];
        let mut idds: Vec<String> = vec!["+".into(), "\u{FF0B}".into(), "00".into(), String::new(), "+ +".into()];
        if let Some(t) = m.region(r) {
            let p = t.idd_pat.as_ref().unwrap();
            let w = prefix_words(&p.rx, &p.pre, 6, ORDERS[0]);
            let acc: Vec<String> = w.into_iter().filter(|x| p.rx.match_start(x).map_or(false, |c| c[0].unwrap().1 == x.len())).collect();
            idds.extend(acc.into_iter().take(if th.c.thorough { 64 } else { 6 }));
        }
        for k in (i % 10) * 100..(i % 10) * 100 + 100 {
            th.states += 1;
            for idd in &idds {
                for tail in ["", "1", "23", "212345678", "6502530000", "02366183005", "23456789012345678"] {
                    th.transitions += 1;
                    go(th, &format!("{}{:03}{}", idd, k, tail), r);
                }
            }
            if k < 100 { for idd in &idds { go(th, &format!("{}{}", idd, k), r); go(th, &format!("{}{:02}", idd, k), r); } }
        }
    });
    // the calling code written without plus before every state of the plan, with and without
    // national prefix; and the same number written after plus and after the IDD
    dial(c, |th, t, w, np| {
        let r = t.id.as_str();
        for s in [format!("{}{}", t.cc, w), format!("{}{}{}", t.cc, np, w), format!("+{}{}", t.cc, w), format!("00{}{}", t.cc, w), format!("{}{}", w, t.cc)] { go(th, &s, r); }
        th.diff(Parse(&format!("+{}{}", t.cc, w), "ZZ", true));
    });
    // plus sign before something that is an IDD or a code without plus (second attempt)
    c.par(rs.len(), |th, i| {
        let r = &rs[i];
        let (cc, np) = m.region(r).map_or((0, String::new()), |t| (t.cc, t.np.clone().unwrap_or_default()));
        for (_, _, w) in super::examples(m).iter().filter(|e| e.1 == *r).chain([(0, String::new(), "6502530000".to_string()), (0, String::new(), "2070313000".to_string())].iter()) {
            th.states += 1;
            for p in ["+", "++", "+00", "+011", "+0011", "+810", "00+", "+0", "+ 0 ", "(+00) "] {
                for q in [format!("{}", cc), String::new(), format!("{}{}", cc, np), np.clone(), format!("{}00", cc)] {
                    th.transitions += 1;
                    go(th, &format!("{}{}{}", p, q, w), r);
                }
            }
        }
    });
    everywhere(c, &EV_CODE, &[true]);
}

/// Every dialled word of every region: the product of plan, national prefix and IDD.
fn dial<F: Fn(&mut Th, &crate::meta::Terr, &str, &str) + Sync>(c: &Ctx, f: F) {
    let m = &c.model;
    let ts: Vec<&crate::meta::Terr> = m.meta.terrs.iter().filter(|t| t.id != "001").collect();
    for &o in orders(c, 2, 6) {
        let plans: std::collections::HashMap<i32, Space> = plans(c, o).into_iter().map(|p| (p.cc, p.sp)).collect();
        c.par(ts.len(), |th, i| {
            let t = ts[i];
            let np = t.np.clone().unwrap_or_default().replace('~', "");
            let sp = explore::explore(&explore::dial_automata(&m.meta, t), 20, o);
            for s in 0..sp.states.len() {
                th.states += 1;
                let mut w = sp.word(s);
                for d in 0..10u8 { th.transitions += 1; w.push((b'0' + d) as char); f(th, t, &w, &np); w.pop(); }
            }
            let sp = &plans[&t.cc];
            for s in 1..sp.states.len() { th.states += 1; th.transitions += 1; let w = sp.word(s); f(th, t, &w, &np); }
        });
    }
}

pub fn national_prefix(c: &Ctx) {
    let m = &c.model;
    let go = |th: &mut Th, s: &str, r: &str| {
        let v = th.diff(Parse(s, r, true));
        th.diff(Parse(s, r, false));
        if let Val::Parsed(Ok(p)) = &v { if p.carrier.is_some() { th.outcome("carrier code"); } th.nontrivial += 1; }
    };
    dial(c, |th, t, w, np| {
        go(th, w, &t.id);
        if !np.is_empty() { go(th, &format!("{}{}", np, w), &t.id); }
        go(th, &format!("+{}{}{}", t.cc, np, w), "ZZ");
    });
    // every word of the national-prefix pattern before every state of the plan
    let ts: Vec<&crate::meta::Terr> = m.meta.terrs.iter().filter(|t| t.id != "001" && t.np_parse.is_some()).collect();
    for &o in orders(c, 1, 4) {
        let plans: std::collections::HashMap<i32, Space> = plans(c, o).into_iter().map(|p| (p.cc, p.sp)).collect();
        let mut items = vec![];
        for (i, t) in ts.iter().enumerate() {
            let p = t.np_parse.as_ref().unwrap();
            let w = prefix_words(&p.rx, &p.pre, 12, o);
            let w2 = if th_more(c) { prefix_words(&p.rx, &p.pre, 12, ORDERS[3]) } else { vec![] };
            let mut w: Vec<String> = w.into_iter().chain(w2).collect();
            w.sort(); w.dedup();
            let n = plans[&t.cc].states.len();
            let mut a = 0;
            let step = 1.max(4000 / w.len().max(1));
            let w = std::sync::Arc::new(w);
            while a < n { items.push((i, w.clone(), a, (a + step).min(n))); a += step; }
        }
        c.par(items.len(), |th, k| {
            let (i, w, a, b) = &items[k];
            let t = ts[*i];
            for s in *a..*b {
                let n = plans[&t.cc].word(s);
                th.states += 1;
                for p in w.iter() {
                    th.transitions += 1;
                    th.diff(Parse(&format!("{}{}", p, n), &t.id, true));
                }
            }
        });
    }
    // every digit string up to a length, in every region
    let k = if c.thorough { 6 } else { 4 };
    let rs = regions(m);
    c.par(rs.len() * 10, |th, i| {
        let r = &rs[i / 10];
        let per = 10usize.pow(k);
        for n in (i % 10) * per / 10..(i % 10 + 1) * per / 10 {
            th.states += 1;
            let s = format!("{:0k$}", n, k = k as usize);
            for tail in ["", "2345", "1234567", "98765432"] { th.transitions += 1; th.diff(Parse(&format!("{}{}", s, tail), r, true)); }
        }
    });
    everywhere(c, &EV_CODE, &[true]);
}
fn th_more(c: &Ctx) -> bool { c.thorough }

/// base spellings: example numbers of every region in several forms
fn bases(m: &Model, per_region: usize) -> Vec<(String, String)> {
    let mut v = vec![];
    for r in regions(m) {
        let t = m.region(&r).unwrap();
        let mut k = 0;
        for (_, d) in &t.types {
            let Some(e) = &d.example else { continue };
            if k >= per_region { break; }
            k += 1;
            let p = Pn::of(t.cc, e);
            v.push((e.clone(), r.clone()));
            v.push((m.format(&p, Fm::Nat), r.clone()));
            v.push((m.format(&p, Fm::E164), r.clone()));
        }
    }
    v
}

pub fn decoration(c: &Ctx) {
    let m = &c.model;
    let bs = bases(m, if c.thorough { 8 } else { 3 });
    // every digit script
    let mut zeros: Vec<char> = m.nd.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
    zeros.sort();
    c.note("digit_scripts", J::Int(zeros.len() as i128));
    let punct: Vec<char> = "-\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}\u{FF0E}\u{FF0F} \u{A0}\u{AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}".chars().collect();
    let lead = ["", "call ", "Tel: ", "(", "[", "\u{1F4DE}", "a:", "#", "*", "\u{201C}", "---", " ", "\t\n", "/", "x", "ext", ";", "tel:"];
    let tail = ["", ".", " -", ")", "]", " !", "\u{1F4DE}", "\u{201D}", "?", "\n", " (", "~", ";", ",", "*", "\u{20AC}", "..", "\u{3002}", "/", " "];
    c.par(bs.len(), |th, i| {
        let (b, r) = &bs[i];
        th.states += 1;
        let plain = th.diff(Parse(b, r, false));
        let want = Val::Parsed(m.parse(b, r, false));
        if matches!(want, Val::Parsed(Ok(_))) { th.nontrivial += 1; }
        let same = |th: &mut Th, s: &str, why: &str| {
            th.transitions += 1;
            th.expect(Parse(s, r, false), plain.clone(), why);
        };
        // the digits in every script of Unicode; also mixed
        for (k, &z) in zeros.iter().enumerate() {
            let tr = |s: &str, every: usize| -> String { s.chars().enumerate().map(|(j, ch)| if ch.is_ascii_digit() && j % every == 0 { char::from_u32(z as u32 + ch as u32 - 48).unwrap() } else { ch }).collect() };
            same(th, &tr(b, 1), "digits of any script mean the same digit");
            same(th, &tr(b, 2 + k % 3), "digits of any script mean the same digit");
        }
        let fw: String = b.replace('+', "\u{FF0B}");
        same(th, &fw, "a full-width plus is a plus");
        // punctuation at every gap between digits
        let cs: Vec<char> = b.chars().collect();
        let digit_gap: Vec<usize> = (1..cs.len()).filter(|&g| cs[g].is_ascii_digit() && cs[..g].iter().any(|c| c.is_ascii_digit())).collect();
        for &g in &digit_gap {
            for (k, &p) in punct.iter().enumerate() {
                let ins = |t: &str| -> String { cs[..g].iter().collect::<String>() + t + &cs[g..].iter().collect::<String>() };
                // three digits must remain together somewhere after at most punctuation: always true for the allowed punctuation
                let s = ins(&p.to_string());
                let exp = th.diff(Parse(&s, r, false));
                if !"~[]".contains(p) && exp != plain { th.fail(Parse(&s, r, false), &plain, &exp, "punctuation inside a number does not change it"); }
                if k % 5 == g % 5 {
                    let s = ins(&format!("{}{}", p, punct[(k * 7 + g) % punct.len()]));
                    th.diff(Parse(&s, r, false));
                }
            }
        }
        for l in lead {
            for t in tail {
                let s = format!("{}{}{}", l, b, t);
                th.transitions += 1;
                let v = th.diff(Parse(&s, r, false));
                // text before the first digit or plus, and after the last one, is no part of the number
                if !l.contains("tel:") && !t.contains('*') && v != plain && !(l.contains('#')) { th.fail(Parse(&s, r, false), &plain, &v, "surrounding text does not change the number"); }
            }
        }
        // long runs of the same decoration
        if i % 3 == 0 { for n in [17usize, 64, 250, 251, 300] {
            for p in [" ", "-", "\u{2013}", "(", ".", "x"] {
                let s = format!("{}{}", p.repeat(n), b);
                th.transitions += 1;
                let v = th.diff(Parse(&s, r, false));
                if v != plain { th.fail(Parse(&s, r, false), &plain, &v, "surrounding text does not change the number"); }
                if p != "x" {
                    same(th, &format!("{}{}", b, p.repeat(n)), "surrounding text does not change the number");
                    if let Some(&g) = digit_gap.get(digit_gap.len() / 2) {
                        let s = cs[..g].iter().collect::<String>() + &p.repeat(n) + &cs[g..].iter().collect::<String>();
                        same(th, &s, "punctuation inside a number does not change it");
                    }
                }
            }
            same(th, &format!("{}{}", "call now: ".repeat(n), b), "surrounding text does not change the number");
        } }
        // a second number after a slash is ignored
        for t in [" / x 456", "/x2", "\\ x1", "/   x", "\\x9 8", " /x/x", "/ x 12345678"] { let s = format!("{}{}", b, t); th.diff(Parse(&s, r, false)); }
    });
    // every character at every place of a number
    every_char(c, |th, ch| { for s in [format!("{}+16502530000", ch), format!("+{}16502530000", ch), format!("+1{}6502530000", ch), format!("+1650253{}0000", ch), format!("+16502530000{}", ch), format!("{}6502530000", ch), format!("+1 650{}{}2530000", ch, ch), format!("650253000{}", ch), format!("+1 6502530000/{}x1", ch), format!("6{}5{}0{}2530000", ch, ch, ch)] { th.transitions += 1; differ(th, &s, "US"); } });
    // all decorations of length 2-3 at four places of one number
    let toks: Vec<String> = punct.iter().map(|c| c.to_string()).chain(["x", "X", "\u{FF58}", "#", ",", ";", "*", "+", "\n", "e"].iter().map(|s| s.to_string())).collect();
    let toks: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
    words(c, &toks, 1, if c.thorough { 5 } else { 4 }, &[("650", "2530000"), ("", "6502530000"), ("+", "16502530000"), ("6502530000", "")], |th, s| { differ(th, s, "US"); });
    everywhere(c, &EV_DECOR, &[false]);
}

pub fn extension(c: &Ctx) {
    let m = &c.model;
    let seps_all = ["", " ", ",", ", ", "\u{A0}", "\t", "  ", " - ", "-", ";", " ;", ",,", ", ,", ",,,", "- ", " ,"];
    let labels = ["ext", "ext.", "extn", "extension", "extensi\u{f3}n", "extensio\u{301}n", "extensio", "extens", "xt", "xtn", "ex", "e", "EXT", "Extn", "EXTENSI\u{d3}N", "\u{FF45}\u{FF58}\u{FF54}", "\u{FF45}\u{FF58}\u{FF54}\u{FF4E}", "\u{FF58}\u{FF54}\u{FF4E}", "\u{FF58}\u{FF54}", "\u{0434}\u{043E}\u{0431}", "\u{0414}\u{041E}\u{0411}", "anexo", "ANEXO", "anex", "x", "X", "\u{FF58}", "#", "\u{FF03}", "~", "\u{FF5E}", "int", "Int", "\u{FF49}\u{FF4E}\u{FF54}", "in", "", "xx", "##", ";ext=", ";ext", ";EXT=", ";ext=+", ";ex=", "ext=", "tel"];
    let after = ["", ":", ".", "\u{FF0E}", " ", ": ", ". ", "-", " - ", ".-", "::", ",", "\t", "\u{A0}", "#"];
    let suff = ["", "#", "##", " ", "."];
    let fill = |n: usize, f: usize| -> String { (0..n).map(|k| match f { 0 => char::from(b'0' + ((k + 1) % 10) as u8), 1 => '0', _ => char::from_u32(0x0660 + ((k * 3 + 1) % 10) as u32).unwrap() }).collect() };
    let bases = [("6502530000", "US"), ("+1 650 253 0000", "ZZ"), ("03 331 6005", "NZ"), ("123", "US"), ("12", "US"), ("+390236618300", "US"), ("(0)20-7031 3000", "GB"), ("800 SIX-FLAG", "US"), ("tel:03-331-6005;phone-context=+64", "NZ")];
    let lens: Vec<usize> = if c.thorough { (0..=24).collect() } else { vec![0, 1, 2, 5, 6, 7, 8, 9, 10, 14, 15, 16, 19, 20, 21, 22] };
    c.par(labels.len() * seps_all.len(), |th, i| {
        let (lab, sep) = (labels[i / seps_all.len()], seps_all[i % seps_all.len()]);
        for (bi, (b, r)) in bases.iter().enumerate() {
            for af in after {
                for &n in &lens {
                    for (si, sf) in suff.iter().enumerate() {
                        for f in 0..3 {
                            if f > 0 && (n + bi + si) % 3 != 0 { continue; }
                            if !th.c.thorough && bi >= 3 && (n + si) % 4 != 0 { continue; }
                            th.transitions += 1;
                            let s = format!("{}{}{}{}{}{}", b, sep, lab, af, fill(n, f), sf);
                            let v = th.diff(Parse(&s, r, false));
                            if let Val::Parsed(Ok(p)) = &v { if p.ext.is_some() { th.nontrivial += 1; th.outcome("extension found"); } else { th.outcome("no extension"); } } else { th.outcome("rejected"); }
                        }
                    }
                }
            }
        }
        th.states += 1;
    });
    // anything of the extension alphabet after a number
    let toks = ["1", "0", "23", "x", "X", "#", "e", "ext", "int", ",", ";", " ", "-", ".", ":", "~", "=", "ext=", "\u{FF58}", "\u{0434}\u{043E}\u{0431}", "anexo", "o\u{301}n", "\u{A0}", "\t"];
    words(c, &toks, 1, if c.thorough { 6 } else { 5 }, &[("6502530000", ""), ("650253", "5"), ("12", "7#"), ("650253", "12345678901")], |th, s| { differ(th, s, "US"); });
    // every character at every place of an extension
    every_char(c, |th, ch| { for s in [format!("6502530000{}123", ch), format!("6502530000 ext{}7", ch), format!("6502530000 x{}4", ch), format!("6502530000{}x12", ch), format!("6502530000;ext=1{}2", ch), format!("6502530000 e{}t 5", ch), format!("6502530000 x77{}", ch), format!("6502530000 -{}123#", ch)] { th.transitions += 1; differ(th, &s, "US"); } });
    // every region keeps its number when an extension follows
    let ex = super::examples(m);
    c.par(ex.len(), |th, i| {
        th.states += 1;
        let (cc, r, w) = &ex[i];
        let r = if r == "001" { "ZZ" } else { r };
        let plain = th.diff(Parse(&format!("+{}{}", cc, w), r, false));
        for (e, ok) in [(" ext. 123", "123"), ("x1", "1"), (";ext=00000000000000000000", "00000000000000000000"), (",,1234567", "1234567"), (" - 987654#", "987654"), (" anexo 12", "12"), ("#5", "5")] {
            th.transitions += 1;
            let s = format!("+{}{}{}", cc, w, e);
            let want = match &plain { Val::Parsed(Ok(p)) => { let mut p = p.clone(); p.ext = Some(ok.into()); Val::Parsed(Ok(p)) } x => x.clone() };
            th.expect(Parse(&s, r, false), want, "an extension is split off and leaves the number alone");
        }
    });
    everywhere(c, &EV_EXT, &[false, true]);
}

pub fn rfc3966(c: &Ctx) {
    let toks = ["tel:", "+", "1", "44", "650253", "2070313000", "-", ";phone-context=", ";isub=", ";ext=", ";", "a.com", "a-b", ".", "+1", "+44", "x", "(0)", "=", "\u{0661}", "A"];
    words(c, &toks, 1, if c.thorough { 6 } else { 5 }, &[("", ""), ("tel:", ""), ("tel:6502530000;phone-context=", ""), ("", ";phone-context=+1"), ("tel:2070313000", ";phone-context=+44")], |th, s| {
        differ(th, s, if s.len() % 2 == 0 { "US" } else { "ZZ" });
    });
    // contexts as words over their own alphabet
    let al = ["a", "Z", "0", "9", "-", ".", "+", "(", ")", " ", "_", "\u{e9}", "\u{0661}", "/", "x", "%", "\n", "\u{FF0B}"];
    words(c, &al, 0, if c.thorough { 6 } else { 5 }, &[("tel:2070313000;phone-context=", ""), ("12345678;phone-context=", ";ext=3")], |th, s| { differ(th, s, "GB"); });
    words(c, &al, 0, if c.thorough { 5 } else { 4 }, &[("7031300;phone-context=+4420", ""), ("tel:7031300;isub=1;phone-context=", ";a=b"), ("7031300;isub=", ""), ("", "tel:7031300;phone-context=+44"), ("tel:70313;ext=", ";phone-context=+44")], |th, s| { differ(th, s, "ZZ"); });
    // every character at every place of a context and its surroundings
    every_char(c, |th, ch| { for s in [format!("tel:7031300;phone-context=+4420{}", ch), format!("tel:7031300;phone-context={}", ch), format!("tel:7031300;phone-context=a{}b.c", ch), format!("tel:7031300;phone-context=a.{}", ch), format!("tel:703{}1300;phone-context=+4420", ch), format!("tel:7031300;phone-context={}44", ch), format!("tel{}7031300;phone-context=+4420", ch), format!("tel:7031300;isub={}1;phone-context=+4420", ch)] { th.transitions += 1; differ(th, &s, "GB"); } });
    // every calling code as a context, every example as the number
    let m = &c.model;
    let ex = super::examples(m);
    c.par(ex.len(), |th, i| {
        th.states += 1;
        let (cc, r, w) = &ex[i];
        let direct = th.diff(Parse(&format!("+{}{}", cc, w), "ZZ", false));
        let r2 = if r == "001" { "ZZ" } else { r };
        for (s, reg) in [(format!("tel:{};phone-context=+{}", w, cc), "ZZ"), (format!("{};phone-context=+{}", w, cc), r2), (format!("tel:{};phone-context=+{};a=1", w, cc), "US"), (format!("tel:{};isub=12;phone-context=+{}", w, cc), "ZZ"), (format!("tel:+{}{};isub=12345", cc, w), "ZZ"), (format!("tel:+{}-{}", cc, w), "ZZ"), (format!("x tel:{};phone-context=+{}", w, cc), "ZZ"), (format!("tel:{};phone-context=+{}-", &w[1..], format!("{}-{}", cc, &w[..1])), "ZZ")] {
            th.transitions += 1; th.nontrivial += 1;
            th.expect(Parse(&s, reg, false), direct.clone(), "a global phone-context supplies the calling code");
        }
        if r != "001" {
            let local = th.diff(Parse(w, r, false));
            for d in ["example.com", "a", "www.google.com", "9.co", "a-b.c-d", "x."] {
                th.transitions += 1;
                th.expect(Parse(&format!("tel:{};phone-context={}", w, d), r, false), local.clone(), "a domain phone-context leaves the number local");
            }
            for d in ["", "64", "+", "+1+", "a..b", "-a", "a-", "+1a", "_", "1.2", ".", " "] {
                th.transitions += 1;
                th.expect(Parse(&format!("tel:{};phone-context={}", w, d), r, false), Val::Parsed(Err(PErr::NotANumber(Nan::Context))), "an ill-formed phone-context is refused");
            }
        }
    });
    everywhere(c, &EV_RFC, &[false, true]);
}

pub fn vanity(c: &Ctx) {
    let go = |th: &mut Th, s: &str| {
        let v = th.diff(IsAlpha(s));
        if v == Val::B(true) { th.nontrivial += 1; th.outcome("vanity"); } else { th.outcome("not vanity"); }
        th.diff(ConvAlpha(s));
    };
    let al = ["a", "Z", "q", "m", "x", "0", "8", "+", "-", " ", "\u{0661}", "\u{FF21}", "\u{e9}", "#", "(", "\n", "ext", "\u{FF15}"];
    words(c, &al, 0, if c.thorough { 7 } else { 6 }, &[("", "")], |th, s| go(th, s));
    words(c, &al, 0, if c.thorough { 6 } else { 5 }, &[("1800", ""), ("1 800 ", "LOWERS"), ("ABC", "12"), ("1800 FLO", " x12")], |th, s| { go(th, s); differ(th, s, "US"); });
    // every letter at every place of a number, both cases, and every other scalar value
    c.par(0x110, |th, i| {
        for k in 0..0x1000u32 {
            let Some(ch) = char::from_u32(i as u32 * 0x1000 + k) else { continue };
            th.states += 1;
            for s in [format!("{}", ch), format!("1800{}LOWERS", ch), format!("1800 FL{}2345", ch), format!("{}800123ABC", ch)] { th.transitions += 1; go(th, &s); }
        }
    });
    let m = &c.model;
    let ex = super::examples(m);
    let keys: Vec<&str> = vec!["0", "1", "ABCabc", "DEFdef", "GHIghi", "JKLjkl", "MNOmno", "PQRSpqrs", "TUVtuv", "WXYZwxyz"];
    c.par(ex.len(), |th, i| {
        th.states += 1;
        let (cc, r, w) = &ex[i];
        let r = if r == "001" { "ZZ" } else { r };
        for from in 0..w.len() {
            for var in 0..8usize {
                th.transitions += 1;
                let sp: String = w.bytes().enumerate().map(|(j, b)| if j >= from && j < from + 3 + var % 5 { let k = keys[(b - 48) as usize].as_bytes(); k[(var * 3 + j) % k.len()] as char } else { b as char }).collect();
                let s = format!("+{} {}", cc, sp);
                // letters stand for their keypad digits
                th.expect(ConvAlpha(&sp), Val::S(w.clone()), "letters convert to their keypad digits");
                let letters = sp.chars().filter(|c| c.is_ascii_alphabetic()).count();
                th.diff(IsAlpha(&s));
                let v = th.diff(Parse(&s, r, false));
                if letters >= 3 && m.viable(&s) && !sp.to_lowercase().contains('x') && !sp.to_lowercase().contains("int") { let d = th.run(&Parse(&format!("+{} {}", cc, w), r, false)); if v != d { th.fail(Parse(&s, r, false), &d, &v, "a vanity number parses as its keypad digits"); } }
            }
        }
    });
    everywhere(c, &EV_ALPHA, &[false]);
}

pub fn raw_source(c: &Ctx) {
    let m = &c.model;
    let check = |th: &mut Th, s: &str, r: &str| {
        let a = th.run(&Parse(s, r, false));
        let b = th.diff(Parse(s, r, true));
        th.transitions += 1;
        // keeping the raw input changes nothing else
        let ok = match (&a, &b) {
            (Val::Parsed(Ok(x)), Val::Parsed(Ok(y))) => {
                th.nontrivial += 1;
                th.outcome(match y.src { Some(SrcW(Src::Plus)) => "plus", Some(SrcW(Src::Idd)) => "idd", Some(SrcW(Src::NoPlus)) => "code without plus", _ => "national" });
                let mut z = y.clone();
                z.raw = None; z.src = None; z.carrier = None;
                *x == z && y.raw.as_deref() == Some(s) && y.src.is_some() && x.raw.is_none() && x.src.is_none() && x.carrier.is_none()
            }
            (x, y) => x == y,
        };
        if !ok { th.fail(Parse(s, r, true), &a, &b, "keeping the raw input adds raw input, source and carrier and changes nothing else"); }
    };
    dial(c, |th, t, w, np| {
        check(th, w, &t.id);
        check(th, &format!("{}{}", np, w), &t.id);
        check(th, &format!("{}{}", t.cc, w), &t.id);
        check(th, &format!("+{} {}", t.cc, w), &t.id);
    });
    words(c, &ALPHA, 0, if c.thorough { 4 } else { 3 }, &[("", ""), ("650253", "0000"), (" +1 ", "6502530000"), ("6502530000", "1")], |th, s| { check(th, s, "US"); check(th, s, "ZZ"); });
    words(c, &TOKENS, 1, if c.thorough { 4 } else { 3 }, &[("", ""), ("\u{1F4DE} ", "1234567")], |th, s| { check(th, s, "US"); });
    every_char(c, |th, ch| { for s in [format!("{}6502530000", ch), format!("650{}2530000{}", ch, ch), format!("0{}11 44 2070313000", ch), format!("1{}6502530000{}7", ch, ch)] { check(th, &s, "US"); } });
    let rs = regions(m);
    let ex = super::examples(m);
    c.par(ex.len(), |th, i| {
        th.states += 1;
        let (cc, _, w) = &ex[i];
        for r in rs.iter().map(|s| s.as_str()).chain(["ZZ", "001"]) {
            let idd = m.region(r).map(|t| t.pref_idd.clone().unwrap_or(t.idd.clone())).unwrap_or("00".into());
            for s in [format!("+{}{}", cc, w), format!("{}{}{}", idd, cc, w), format!("{}{}", cc, w), w.clone(), format!("0{}", w)] { check(th, &s, r); }
        }
    });
    for f in [&EV_CODE[..], &EV_DECOR, &EV_EXT, &EV_RFC, &EV_ALPHA] { everywhere(c, f, &[true]); }
    // short texts with the regions that there are not
    words(c, &ALPHA, 0, if c.thorough { 3 } else { 2 }, &[("", ""), ("650253", "0000"), ("+1 650253", "0000")], |th, s| { for r in ODD_REGIONS { check(th, s, r); } });
}

/// the same forms of a text with every region there is, and with those there are not: N stands for a number of the
/// region (or of another one), C for its calling code, P for its national prefix
fn everywhere(c: &Ctx, forms: &[&str], keep: &[bool]) {
    let m = &c.model;
    let rs: Vec<String> = regions(m).into_iter().chain(ODD_REGIONS.iter().map(|s| s.to_string())).chain(["gb", "US ", "XX", "\u{1F4DE}", "us-US", "EN"].iter().map(|s| s.to_string())).collect();
    let ex = super::examples(m);
    c.par(rs.len(), |th, i| {
        let r = rs[i].as_str();
        th.states += 1;
        let t = m.region(r);
        let mut own: Vec<(i32, &str)> = ex.iter().filter(|e| e.1 == r).map(|e| (e.0, e.2.as_str())).collect();
        own.extend([(1, "6502530000"), (39, "0236618300"), (54, "91123456789"), (800, "12345678"), (44, "12")]);
        let np = t.and_then(|t| t.np.clone()).unwrap_or_else(|| "0".into());
        for (cc, w) in own {
            for f in forms {
                let s = f.replace('N', w).replace('C', &cc.to_string()).replace('P', &np);
                for &k in keep {
                    th.transitions += 1;
                    if let Val::Parsed(Ok(_)) = th.diff(Parse(&s, r, k)) { th.nontrivial += 1; }
                }
            }
        }
    });
}
const EV_CODE: [&str; 14] = ["N", "PN", "CN", "CPN", "+CN", "+C PN", "00CN", "011CN", "++CN", "+00CN", "+0N", "+N", "+", "C"];
const EV_DECOR: [&str; 12] = ["(N)", "N.", "\u{FF0B}C N", " - N", "N/12", "tel N", "[N]", "+C-(N)", "N\u{2060}", "\u{661}N", "N\u{662}", "abc+CN def"];
const EV_EXT: [&str; 14] = ["N x1", "N ext. 123456789", "+CN#7", "PN - 12#", "N;ext=5", "N,,3", "+CN \u{434}\u{43E}\u{431} 4", "N anexo 9", "N x", "N ext", "x1 N", "C x1", "CN;ext=0", "N x12345678901"];
const EV_RFC: [&str; 17] = ["tel:N;phone-context=+C", "tel:N;phone-context=example.com", "N;phone-context=+C", "tel:+CN;isub=1", "tel:N;isub=1;phone-context=+C", "tel:N;phone-context=", "tel:N;phone-context=+", "tel:N;phone-context=+C;ext=3", "tel:N;ext=3;phone-context=+C", "tel:N;phone-context=C", "tel:N;phone-context=a..b", "tel:N;phone-context=+0", "tel:+C-N", "tel:PN;phone-context=+C", "tel:;phone-context=+C", "a;phone-context=+C", "N;isub=2"];
const EV_ALPHA: [&str; 10] = ["NABC", "+C N DEF", "N A", "N AB", "ABCN", "+C abcN", "PNxyz", "aNbc", "N ghi x1", "ABC DEF GHIJ"];
