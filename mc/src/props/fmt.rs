//! Formatting properties.
use super::*;
use crate::val::Call::*;

const FMS: [Fm; 4] = [Fm::E164, Fm::Intl, Fm::Nat, Fm::Rfc];
fn nums(cc: i32, w: &str) -> Num { Num::new(Pn::of(cc, w)) }
fn with_ext(n: &Num, e: &str) -> Num { let mut p = n.pn.clone(); p.ext = Some(e.into()); Num::new(p) }

pub fn formats(c: &Ctx) {
    let suf = suffix_words(if c.thorough { 2 } else { 1 });
    let suf: Vec<&str> = suf.iter().map(|s| s.as_str()).collect();
    sweep(c, orders(c, 3, 6), &suf, |th, cc, w| {
        let n = nums(cc, w);
        for f in FMS {
            let v = th.diff(Format(&n, f));
            if let Val::S(s) = &v {
                if f == Fm::E164 { if s.len() != 1 + cc.to_string().len() + w.len() { th.fail(Format(&n, f), &Val::U(w.len()), &v, "E164 is plus, code and national number"); } }
                else if s.len() > w.len() + 8 { th.nontrivial += 1; }
            }
        }
        if w.len() % 3 == 1 {
            for e in ["1", "0123456", ""] { let n = with_ext(&n, e); for f in FMS { th.diff(Format(&n, f)); } }
        }
    });
    decorated(c, 1, |th, n, _| { for f in FMS { th.diff(Format(n, f)); } });
    zero_runs(c, |th, n| { for f in FMS { th.diff(Format(n, f)); } });
    let odd = odd(c);
    c.par(odd.len(), |th, i| {
        th.states += 1;
        for raw in [None, Some(""), Some("raw 1"), Some("+39 06")] { for e in [None, Some(""), Some("9")] {
            th.transitions += 1;
            let mut p = odd[i].clone(); p.raw = raw.map(|s| s.to_string()); p.ext = e.map(|s| s.to_string());
            let n = Num::new(p);
            for f in FMS { th.diff(Format(&n, f)); }
        } }
    });
}
/// long runs of leading zeros before a few bodies under every calling code
fn zero_runs<F: Fn(&mut Th, &Num) + Sync>(c: &Ctx, f: F) {
    let ccs: Vec<i32> = c.model.meta.by_cc.keys().copied().chain([999]).collect();
    c.par(ccs.len(), |th, i| {
        th.states += 1;
        for z in ZERO_COUNTS {
            if z > 600 && i % 16 != 0 { continue; }
            for nn in [0u64, 7, 12345, 12345678, 9123456789] {
                for (ext, raw) in [(None, None), (Some("5"), Some("0 r4w"))] {
                    th.transitions += 1;
                    let n = Num::new(Pn { cc: Some(ccs[i]), nn: Some(nn), ilz: Some(true), nlz: Some(z), ext: ext.map(|s: &str| s.to_string()), raw: raw.map(|s: &str| s.to_string()), ..Default::default() });
                    f(th, &n);
                }
            }
        }
    });
}
fn odd(c: &Ctx) -> Vec<Pn> {
    let mut v = vec![];
    for cc in c.model.meta.by_cc.keys().copied().chain([0, 2, 999, -1, i32::MIN]) {
        for nn in [None, Some(0u64), Some(1), Some(650), Some(6502530000), Some(10_000_000_000_000_000_000)] {
            for (ilz, nlz) in [(None, None), (Some(true), None), (Some(true), Some(3)), (Some(false), Some(2)), (Some(true), Some(0))] {
                v.push(Pn { cc: if cc == 0 { None } else { Some(cc) }, nn, ilz, nlz, ..Default::default() });
            }
        }
    }
    v
}

pub fn carrier(c: &Ctx) {
    let suf = suffix_words(if c.thorough { 1 } else { 0 });
    let suf: Vec<&str> = suf.iter().map(|s| s.as_str()).collect();
    sweep(c, orders(c, 2, 6), &suf, |th, cc, w| {
        let n = nums(cc, w);
        let mut last = Val::Any;
        for k in ["", "15", "015", "1", "31", "A b", "$1", "$0x", "1$2", "${a}", "$$", "\\1", "$CC", "$FG"] {
            let v = th.diff(Carrier(&n, k));
            if v != last { th.nontrivial += 1; }
            last = v;
        }
        let e = with_ext(&n, "77");
        th.diff(Carrier(&e, "15"));
        th.diff(Carrier(&e, ""));
        // without a carrier this is the national format
        let want = th.run(&Format(&n, Fm::Nat));
        th.expect(Carrier(&n, ""), want, "without a carrier code the national format is used");
    });
    decorated(c, 1, |th, n, _| { for k in ["", "15", "$1"] { th.diff(Carrier(n, k)); } });
    zero_runs(c, |th, n| { for k in ["", "15"] { th.diff(Carrier(n, k)); } });
    // longer and stranger carrier texts
    let ex = super::examples(&c.model);
    c.par(ex.len(), |th, i| {
        th.states += 1;
        let n = nums(ex[i].0, &ex[i].2);
        let e = with_ext(&n, "77");
        words_list(&["$", "0", "1", "C", "{", "}", "\\", " ", "x", "\u{661}"], if th.c.thorough { 3 } else { 2 }, |k| { th.transitions += 1; th.diff(Carrier(&n, k)); th.diff(Carrier(&e, k)); });
        for k in ["01234567890123456789", "\u{1F4DE}", "$1 $2 $3", "$10", "${1}", "$FG$NP$CC", " ", "\0", "(15)"] { th.transitions += 1; th.diff(Carrier(&n, k)); th.diff(Carrier(&e, k)); }
    });
    let odd = odd(c);
    c.par(odd.len(), |th, i| { th.states += 1; let n = Num::new(odd[i].clone()); for k in ["", "15", "$1"] { th.transitions += 1; th.diff(Carrier(&n, k)); } });
}

pub fn out_of_country(c: &Ctx) {
    let m = &c.model;
    let all = super::regions(m);
    let all: Vec<&str> = all.iter().map(|s| s.as_str()).chain(ODD_REGIONS).collect();
    let classes = caller_classes(m);
    let go = |th: &mut Th, n: &Num, r: &str| {
        let v = th.diff(OutOf(n, r));
        if let Val::S(s) = v { th.outcome(if s.starts_with('+') { "plus" } else if s.starts_with("1 ") { "nanpa" } else { "idd or national" }); }
    };
    // every calling code from every region
    let ex = super::examples(m);
    c.par(ex.len(), |th, i| {
        th.states += 1;
        let (cc, _, w) = &ex[i];
        let n = nums(*cc, w);
        let e = with_ext(&n, "42");
        for r in &all { th.transitions += 1; th.nontrivial += 1; go(th, &n, r); th.diff(OutOf(&e, r)); }
    });
    sweep_states(c, orders(c, 2, 6), |th, cc, w| {
        let n = nums(cc, w);
        if th.c.thorough { for r in &all { th.diff(OutOf(&n, r)); } } else { for r in &classes { th.diff(OutOf(&n, r)); } }
        for r in m.regions_of(cc).unwrap() { th.diff(OutOf(&n, r)); }
    });
    sweep(c, orders(c, 2, 4), &[""], |th, cc, w| {
        let n = nums(cc, w);
        for r in ["US", "DE", "AU", "UZ", "ZZ", m.region_for_cc(cc)] { th.diff(OutOf(&n, r)); }
    });
    decorated(c, 1, |th, n, _| { let cc = n.pn.cc(); for r in ["US", "DE", "AU", "ZZ", m.region_for_cc(cc)] { th.diff(OutOf(n, r)); } });
    zero_runs(c, |th, n| { for r in ["US", "DE", "RU", "ZZ", m.region_for_cc(n.pn.cc())] { th.diff(OutOf(n, r)); } });
    let odd = odd(c);
    c.par(odd.len(), |th, i| {
        th.states += 1;
        for raw in [None, Some("r4w 5")] {
            let mut p = odd[i].clone(); p.raw = raw.map(|s| s.to_string()); p.ext = Some("5".into());
            let n = Num::new(p);
            for r in &classes { th.transitions += 1; th.diff(OutOf(&n, r)); }
        }
    });
}

pub fn mobile(c: &Ctx) {
    let m = &c.model;
    let all = super::regions(m);
    let all: Vec<&str> = all.iter().map(|s| s.as_str()).chain(ODD_REGIONS).collect();
    let go = |th: &mut Th, n: &Num, r: &str| {
        th.diff(Mobile(n, r, true));
        if let Val::S(s) = th.diff(Mobile(n, r, false)) {
            th.outcome(if s.is_empty() { "not diallable" } else if s.starts_with('+') { "international" } else { "national" });
            if !s.is_empty() { th.nontrivial += 1; }
        }
    };
    let ex = super::examples(m);
    c.par(ex.len(), |th, i| {
        th.states += 1;
        let (cc, _, w) = &ex[i];
        let n = nums(*cc, w);
        for r in &all { th.transitions += 1; go(th, &n, r); }
    });
    let suf = suffix_words(if c.thorough { 1 } else { 0 });
    let suf: Vec<&str> = suf.iter().map(|s| s.as_str()).collect();
    sweep(c, orders(c, 2, 6), &suf, |th, cc, w| {
        let n = nums(cc, w);
        for r in ["US", "BR", "DE"] { go(th, &n, r); }
        let own = m.regions_of(cc).unwrap();
        for r in own.iter().take(3) { go(th, &n, r); }
        go(th, &n, m.region_for_number(&n.pn));
        if cc == 55 || w.len() % 5 == 0 {
            for (car, e, raw) in [("15", "", ""), ("", "3", "x"), ("$1", "44", "0 12")] {
                let mut p = n.pn.clone();
                p.carrier = Some(car.into()); if !e.is_empty() { p.ext = Some(e.into()); } p.raw = Some(raw.into());
                let n = Num::new(p);
                for r in [own[0], "US"] { go(th, &n, r); }
            }
        }
    });
    decorated(c, 1, |th, n, _| { let cc = n.pn.cc(); for r in ["US", "DE", m.region_for_cc(cc)] { go(th, n, r); } });
    zero_runs(c, |th, n| { for r in ["US", "ZZ", m.region_for_cc(n.pn.cc())] { go(th, n, r); } });
    // what an unassigned code gives back is the raw input; nothing else ever carries the extension
    c.par(ex.len(), |th, i| {
        th.states += 1;
        let (cc, _, w) = &ex[i];
        for (ext, raw, car) in [("1", "", ""), ("42", "0 123 x42", "15"), ("00", "+1 2", "21"), ("", "*#", "12")] {
            let mut p = Pn::of(*cc, w); p.ext = Some(ext.into()); p.raw = Some(raw.into()); p.carrier = Some(car.into());
            let n = Num::new(p);
            for r in m.regions_of(*cc).unwrap().into_iter().chain(["US", "DE", "ZZ", "001", "BR"]) { th.transitions += 1; go(th, &n, r); }
        }
    });
    let odd = odd(c);
    c.par(odd.len(), |th, i| {
        th.states += 1;
        for raw in [None, Some(""), Some("r4w +5*#"), Some("0")] {
            let mut p = odd[i].clone(); p.raw = raw.map(|s| s.to_string()); p.carrier = Some("21".into());
            let n = Num::new(p);
            for r in ["US", "BR", "IT", "ZZ", "001", m.region_for_cc(n.pn.cc())] { th.transitions += 1; go(th, &n, r); }
        }
    });
}

/// Spellings of a number as a user of region r might type it.
fn spellings(m: &Model, cc: i32, r: &str, w: &str) -> Vec<(String, String)> {
    let n = Pn::of(cc, w);
    let nat = m.format(&n, Fm::Nat);
    let intl = m.format(&n, Fm::Intl);
    let mut v: Vec<(String, String)> = vec![];
    let home = if r == "001" { "ZZ" } else { r };
    for s in [w.to_string(), nat.clone(), m.format_nsn(w, m.main_terr(cc).unwrap(), Fm::Nat, ""), intl.clone(), m.format(&n, Fm::E164), intl[1..].to_string(), format!("{}{}", cc, w), format!("{}-{}", &w[..w.len() / 2], &w[w.len() / 2..]), format!("{} ext. 5", nat), format!("{} x5", intl)] {
        v.push((s, home.to_string()));
    }
    if let Some(t) = m.region(home) {
        if let Some(np) = &t.np { v.push((format!("{}{}", np.replace('~', ""), w), home.into())); v.push((format!("({}) {}", np.replace('~', ""), w), home.into())); v.push((format!("{}{}{}", cc, np.replace('~', ""), w), home.into())); }
    }
    v.push((format!("011 {} {}", cc, w), "US".into()));
    v.push((format!("00{}{}", cc, w), "DE".into()));
    v.push((format!("011{}", &intl[1..]), "US".into()));
    v.push((format!("8~10{}", &intl[1..]), "RU".into()));
    v.push((format!("0011{}", &intl[1..]), "AU".into()));
    v
}

/// What a user might type: words over dialling characters before, inside and after the
/// examples of regions with different prefix and formatting rules.
fn typed<F: Fn(&mut Th, &str, &str) + Sync>(c: &Ctx, f: F) {
    let m = &c.model;
    let mut bases: Vec<(String, String)> = vec![];
    for r in ["US", "GB", "IT", "AR", "BR", "MX", "RU", "AU", "FR", "SG", "CN", "HU", "NZ", "JP"] {
        let t = m.region(r).unwrap();
        for ty in [crate::meta::Ty::Fixed, crate::meta::Ty::Mobile, crate::meta::Ty::TollFree] {
            if let Some(e) = t.ty(ty).and_then(|d| d.example.clone()) { if !bases.iter().any(|b| b.1 == e) { bases.push((r.to_string(), e)); } }
        }
    }
    let toks = ["0", "1", "8", "+", "00", "011", "-", " ", "(", ")", "/", "x", "#", "*", "A", "bCd", "\u{0661}", "\u{2013}", " ext 5", "15"];
    let n = if c.thorough { 3usize } else { 2 };
    let total: usize = (0..=n).map(|k| toks.len().pow(k as u32)).sum();
    c.par(bases.len() * 8, |th, i| {
        let (r, e) = &bases[i / 8];
        let cc = m.region(r).unwrap().cc;
        let half = e.len() / 2;
        let mut k = 0;
        words_list(&toks, n, |w| {
            k += 1;
            if k % 8 != i % 8 { return; }
            th.states += 1;
            for s in [format!("{}{}", w, e), format!("{}{}{}", &e[..half], w, &e[half..]), format!("{}{}", e, w), format!("+{}{}{}", cc, w, e), format!("{}{}{}", cc, w, e), format!("{}{}{}", w, cc, e)] {
                th.transitions += 1;
                f(th, &s, r);
            }
        });
    });
    c.note("typed_words", J::Int((total * bases.len() * 6) as i128));
}

pub fn original(c: &Ctx) {
    let m = &c.model;
    typed(c, |th, s, r| {
        if let Val::Parsed(Ok(p)) = th.run(&Parse(s, r, true)) {
            let n = Num::new(p);
            for f in [r, "US", "DE"] {
                let v = th.diff(Original(&n, f));
                if let Val::S(o) = &v {
                    th.nontrivial += 1;
                    if o != s && diallable(o) != diallable(s) { th.fail(Original(&n, f), &Val::S(s.into()), &v, "the original format dials what was typed"); }
                }
            }
        }
    });
    sweep_states(c, orders(c, 1, 4), |th, cc, w| {
        if w.len() < 2 || w.len() > 17 { return; }
        let rs = m.regions_of(cc).unwrap();
        let nreg = m.region_for_number(&Pn::of(cc, w));
        let mut regs = vec![rs[0]];
        if nreg != "ZZ" && nreg != rs[0] { regs.push(nreg); }
        for r in regs {
            for (s, from) in spellings(m, cc, r, w) {
                if let Val::Parsed(Ok(p)) = th.run(&Parse(&s, &from, true)) {
                    let n = Num::new(p);
                    for f in [from.as_str(), "US", "ZZ"] {
                        let v = th.diff(Original(&n, f));
                        if let Val::S(o) = &v {
                            th.nontrivial += 1;
                            // never another number: the diallable characters are those typed
                            if diallable(o) != diallable(&s) { th.fail(Original(&n, f), &Val::S(s.clone()), &v, "the original format dials what was typed"); }
                        }
                    }
                }
            }
        }
    });
    // user-made numbers: every combination of source and raw input
    let ex = super::examples(m);
    c.par(ex.len(), |th, i| {
        th.states += 1;
        let (cc, r, w) = &ex[i];
        let base = Pn::of(*cc, w);
        let (nat, intl) = (m.format(&base, Fm::Nat), m.format(&base, Fm::Intl));
        for raw in [None, Some(""), Some(w.as_str()), Some(nat.as_str()), Some(intl.as_str()), Some(&intl[1..]), Some("0"), Some("000"), Some("junk")] {
            for src in [None, Some(Src::Unspecified), Some(Src::Plus), Some(Src::Idd), Some(Src::NoPlus), Some(Src::Default)] {
                for ext in [None, Some("8")] {
                    th.transitions += 1;
                    let mut p = base.clone();
                    p.raw = raw.map(|s| s.to_string()); p.src = src.map(SrcW); p.ext = ext.map(|s| s.to_string());
                    let n = Num::new(p);
                    for f in [r.as_str(), "US", "DE", "AU", "ZZ", "001"] { th.diff(Original(&n, f)); }
                }
            }
        }
    });
    // every character at every kind of place of a raw input
    every_char(c, |th, ch| {
        for (cc, nn, raw) in [(1, 6502530000u64, format!("650{}253 0000", ch)), (1, 6502530000, format!("1{}650 2530000", ch)), (44, 2070313000, format!("{}0{}2070313000", ch, ch)), (44, 2070313000, format!("2070313000{}", ch)), (39, 236618300, format!("{}", ch))] {
            for src in [Src::NoPlus, Src::Default, Src::Plus] {
                th.transitions += 1;
                let n = Num::new(Pn { cc: Some(cc), nn: Some(nn), raw: Some(raw.clone()), src: Some(SrcW(src)), ..Default::default() });
                th.diff(Original(&n, if cc == 1 { "US" } else { "GB" }));
            }
        }
    });
    decorated(c, 1, |th, n, _| { let cc = n.pn.cc(); for r in ["US", "DE", m.region_for_cc(cc)] { th.diff(Original(n, r)); } });
    zero_runs(c, |th, n| { for r in ["US", "IT"] { th.diff(Original(n, r)); } });
    let odd = odd(c);
    c.par(odd.len(), |th, i| {
        th.states += 1;
        for raw in [None, Some(""), Some("0"), Some("1"), Some("\u{FF0B}1"), Some("\u{0661}")] {
            for src in [None, Some(Src::Unspecified), Some(Src::Plus), Some(Src::Idd), Some(Src::NoPlus), Some(Src::Default)] {
                th.transitions += 1;
                let mut p = odd[i].clone(); p.raw = raw.map(|s| s.to_string()); p.src = src.map(SrcW);
                let n = Num::new(p);
                for f in ["US", "IT", "ZZ"] { th.diff(Original(&n, f)); }
            }
        }
    });
}

pub fn keep_alpha(c: &Ctx) {
    let m = &c.model;
    typed(c, |th, s, r| {
        if let Val::Parsed(Ok(p)) = th.run(&Parse(s, r, true)) {
            let n = Num::new(p);
            th.nontrivial += 1;
            for f in [r, "US", "DE", "AU", "UZ"] { th.diff(KeepAlpha(&n, f)); }
        }
    });
    let all = super::regions(m);
    let classes = caller_classes(m);
    let all: Vec<&str> = all.iter().map(|s| s.as_str()).chain(ODD_REGIONS).collect();
    let vanity = |w: &str, k: usize| -> String {
        // spell the last digits with letters
        let n = w.len();
        w.chars().enumerate().map(|(i, ch)| if i + k >= n { match ch { '2' => 'A', '3' => 'e', '4' => 'G', '5' => 'K', '6' => 'm', '7' => 'S', '8' => 'T', '9' => 'z', x => x } } else { ch }).collect()
    };
    let ex = super::examples(m);
    c.par(ex.len(), |th, i| {
        th.states += 1;
        let (cc, r, w) = &ex[i];
        let base = Pn::of(*cc, w);
        let np = m.region(r).and_then(|t| t.np.clone()).unwrap_or_default();
        let half = w.len() / 2;
        let raws = [
            vanity(w, 4), format!("{}-{}", &w[..3.min(w.len())], vanity(&w[3.min(w.len())..], 5)), format!("{}{}", np, vanity(w, 3)), format!("+{} {}", cc, vanity(w, 6)),
            format!("({}) {}/{}", &w[..half], &w[half..], "x"), format!("{}.{}", &w[..half], vanity(&w[half..], 3)), format!("{} ext. 7", vanity(w, 4)), format!("{}\u{2013}{}\u{3000}{}", np, &w[..half], vanity(&w[half..], 9)),
            "abc".to_string(), "1".into(), vanity(w, 99), format!("{} FLOWERS x12", w), String::new(), "$1".into(), format!("{}{}", &w[..2.min(w.len())], "TAXI"), format!("#{}*", w), format!("\u{FF41}{}", w), format!("\u{0661}{}", w),
        ];
        for (k, raw) in raws.iter().enumerate() {
            for ext in [None, Some("12")] {
                th.transitions += 1;
                let mut p = base.clone(); p.raw = Some(raw.clone()); p.ext = ext.map(|s| s.to_string());
                let n = Num::new(p);
                th.nontrivial += 1;
                if k < 4 || th.c.thorough { for f in &all { th.diff(KeepAlpha(&n, f)); } } else { for f in &classes { th.diff(KeepAlpha(&n, f)); } }
                th.diff(KeepAlpha(&n, r));
                th.diff(KeepAlpha(&n, m.region_for_cc(*cc)));
            }
        }
        let n = Num::new(base);
        for f in &all { th.diff(KeepAlpha(&n, f)); }
    });
    // raw inputs as words over the characters the grouping treats differently
    words(c, &["6", "5", "0", "A", "z", "-", " ", "(", "/", ".", "x", "\u{2212}", "#", "\u{FF0F}"], 1, if c.thorough { 5 } else { 4 }, &[("", ""), ("650", "B"), ("", " ext 3")], |th, s| {
        for (cc, nn) in [(1, 6505065050u64), (44, 650506506), (39, 6505), (800, 65065065)] {
            let mut p = Pn { cc: Some(cc), nn: Some(nn), raw: Some(s.into()), ..Default::default() };
            if s.len() % 2 == 0 { p.ext = Some("3".into()); }
            let n = Num::new(p);
            for f in ["US", "GB", "IT", "ZZ"] { th.diff(KeepAlpha(&n, f)); }
        }
    });
    // every character at every kind of place of a raw input
    every_char(c, |th, ch| {
        for (cc, nn, raw) in [(1, 6502530000u64, format!("650{}253{}0000", ch, ch)), (1, 6502530000, format!("{}650FLOWERS{}", ch, ch)), (44, 2070313000, format!("0{}20 7031{}3000", ch, ch)), (49, 30123456, format!("0{}30", ch)), (1, 6502530000, format!("{}", ch))] {
            th.transitions += 1;
            let n = Num::new(Pn { cc: Some(cc), nn: Some(nn), raw: Some(raw), ..Default::default() });
            for f in ["US", "GB", "AU"] { th.diff(KeepAlpha(&n, f)); }
        }
    });
    decorated(c, 1, |th, n, _| { let cc = n.pn.cc(); for r in ["US", "DE", "AU", "ZZ", m.region_for_cc(cc)] { th.diff(KeepAlpha(n, r)); } });
    zero_runs(c, |th, n| { for r in ["US", "IT", "ZZ"] { th.diff(KeepAlpha(n, r)); } });
    let odd = odd(c);
    c.par(odd.len(), |th, i| {
        th.states += 1;
        for raw in ["", "6502530000", "1 650 AB", "0"] {
            th.transitions += 1;
            let mut p = odd[i].clone(); p.raw = Some(raw.into());
            let n = Num::new(p);
            for f in ["US", "IT", "UZ", "ZZ", "AU"] { th.diff(KeepAlpha(&n, f)); }
        }
    });
}

pub fn round_trip(c: &Ctx) {
    let m = &c.model;
    rt_ext(c);
    let suf = suffix_words(1);
    let suf: Vec<&str> = suf.iter().map(|s| s.as_str()).collect();
    sweep(c, orders(c, 2, 6), &suf, |th, cc, w| {
        let p = Pn::of(cc, w);
        if !m.valid(&p) { return; }
        rt(th, p.clone());
        if w.len() % 2 == 0 { let mut q = p; q.ext = Some(if w.len() % 4 == 0 { "0123".into() } else { w[..w.len().min(7)].to_string() }); rt(th, q); }
    });
}
/// every extension length a number can carry
fn rt_ext(c: &Ctx) {
    let m = &c.model;
    let ex = super::examples(m);
    c.par(ex.len(), |th, i| {
        th.states += 1;
        let (cc, _, w) = &ex[i];
        let p = Pn::of(*cc, w);
        if !m.valid(&p) { return; }
        for l in 1..=20usize { for f in ["0", "1234567890", "9"] {
            th.transitions += 1;
            let mut q = p.clone();
            q.ext = Some((0..l).map(|j| f.as_bytes()[j % f.len()] as char).collect());
            rt(th, q);
        } }
        // what else the number carries does not matter
        for mut q in decorations(&p, w) { th.transitions += 1; if q.ext.as_deref() == Some("") { continue; } q.nlz = p.nlz; q.ilz = p.ilz; rt(th, q); }
    });
}
fn rt(th: &mut Th, p: Pn) {
    let m = th.m();
    let n = Num::new(p);
    let cc = n.pn.cc();
    th.nontrivial += 1;
    let nsn = m.nsn(&n.pn);
    let t = m.main_terr(cc).unwrap();
    let region = m.region_for_number(&n.pn);
    for f in FMS {
        let Val::S(s) = th.run(&Format(&n, f)) else { th.total(Format(&n, f)); continue };
        let home = if f == Fm::Nat { if region == "001" { continue } else { region } } else { "ZZ" };
        let mut want = Pn { raw: None, src: None, carrier: None, ..n.pn.clone() };
        if f == Fm::E164 { want.ext = None; }
        if f == Fm::Nat {
            // national format is for people; it reads back where the plan itself is unambiguous
            if m.parse(&s, home, false) != Ok(want.clone()) { th.outcome("national: ambiguous by plan"); continue; }
        } else if m.strip_np(&nsn, t).0 != nsn {
            // the national number itself begins with the plan's national prefix
            th.outcome("national number begins with its prefix");
            th.diff(Parse(&s, home, false));
            continue;
        }
        // the extension is longer than the notation the plan prescribes can hold
        if f != Fm::Rfc && f != Fm::E164 && n.pn.ext().len() > 9 && t.ext_prefix.is_some() { th.outcome("extension too long for the plan's notation"); th.diff(Parse(&s, home, false)); continue; }
        th.outcome("read back");
        th.expect(Parse(&s, home, false), Val::Parsed(Ok(want)), "what is formatted reads back as the same number");
    }
}
