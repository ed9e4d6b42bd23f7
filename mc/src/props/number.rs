//! Properties of number objects: plan conformance, regions, lengths, matching, maps.
use super::*;
use crate::meta::Ty;
use crate::val::Call::*;

fn nums(cc: i32, w: &str) -> Num { Num::new(Pn::of(cc, w)) }

pub fn types(c: &Ctx) {
    let suf = suffix_words(if c.thorough { 2 } else { 1 });
    let suf: Vec<&str> = suf.iter().map(|s| s.as_str()).collect();
    sweep(c, orders(c, 3, 6), &suf, |th, cc, w| {
        let n = nums(cc, w);
        let t = th.diff(Type(&n));
        let v = th.diff(Valid(&n));
        if t != Val::T(Ty::Unknown) { th.nontrivial += 1; th.outcome("classified"); } else { th.outcome("unclassified"); }
        // validity is exactly "has a type in its region"
        if (v == Val::B(true)) != (t != Val::T(Ty::Unknown)) { th.fail(Valid(&n), &Val::B(t != Val::T(Ty::Unknown)), &v, "a number is valid exactly when its type is known"); }
    });
    prefix_grid(c, |th, cc, w| { let n = nums(cc, w); th.diff(Type(&n)); th.diff(Valid(&n)); });
    unassigned(c, |th, n| { th.diff(Type(n)); th.diff(Valid(n)); });
    decorated(c, 1, |th, n, _| { th.diff(Type(n)); th.diff(Valid(n)); });
    zeros(c, |th, n| { th.diff(Type(n)); th.diff(Valid(n)); });
}

/// every digit prefix of 3 (thorough 4) digits, every total length up to 17, several fillers
fn prefix_grid<F: Fn(&mut Th, i32, &str) + Sync>(c: &Ctx, f: F) {
    let ccs: Vec<i32> = c.model.meta.by_cc.keys().copied().collect();
    let k = if c.thorough { 5 } else { 3 };
    let per = 10usize.pow(k as u32);
    c.par(ccs.len() * 10, |th, i| {
        let (cc, part) = (ccs[i / 10], i % 10);
        let mut w = String::new();
        for p in part * per / 10..(part + 1) * per / 10 {
            th.states += 1;
            for len in k..=17 {
                for fill in ["0", "1234567890", "9", "5827461039"] {
                    th.transitions += 1;
                    w.clear();
                    w.push_str(&format!("{:0k$}", p, k = k));
                    let fb = fill.as_bytes();
                    for j in 0..len - k { w.push(fb[j % fb.len()] as char); }
                    f(th, cc, &w);
                }
            }
        }
    });
}

fn odd_numbers() -> Vec<Pn> {
    let mut v = vec![Pn::default()];
    for cc in [None, Some(0), Some(2), Some(999), Some(210), Some(-1), Some(-39), Some(i32::MAX), Some(i32::MIN), Some(1), Some(39), Some(44), Some(54), Some(55), Some(800), Some(979), Some(7), Some(599)] {
        for nn in [None, Some(0), Some(1), Some(12), Some(650253), Some(6502530000), Some(236618300), Some(80012345678), Some(12345678), Some(u64::MAX), Some(10_000_000_000_000_000_000), Some(99999999999999999), Some(123456789012345)] {
            for (ilz, nlz) in [(None, None), (Some(false), Some(3)), (Some(true), None), (Some(true), Some(1)), (Some(true), Some(2)), (Some(true), Some(0)), (Some(true), Some(-5)), (Some(true), Some(i32::MIN)), (Some(true), Some(40)), (None, Some(7))] {
                v.push(Pn { cc, nn, ilz, nlz, ..Default::default() });
            }
        }
    }
    v
}
/// real numbers of every calling code behind long runs of leading zeros
fn zeros<F: Fn(&mut Th, &Num) + Sync>(c: &Ctx, f: F) {
    let ccs: Vec<i32> = c.model.meta.by_cc.keys().copied().chain([0, 999]).collect();
    let ex = super::examples(&c.model);
    c.par(ccs.len(), |th, i| {
        let cc = ccs[i];
        th.states += 1;
        let e = ex.iter().find(|e| e.0 == cc).map_or("12345678", |e| e.2.trim_start_matches('0'));
        for z in ZERO_COUNTS {
            for body in ["0", "7", "12345", e] {
                for ilz in [Some(true), Some(false), None] {
                    if ilz != Some(true) && z % 5 != 0 { continue; }
                    th.transitions += 1;
                    let n = Num::new(Pn { cc: Some(cc), nn: body.parse().ok(), ilz, nlz: Some(z), ..Default::default() });
                    f(th, &n);
                }
            }
        }
    });
}
fn unassigned<F: Fn(&mut Th, &Num) + Sync>(c: &Ctx, f: F) {
    let v = odd_numbers();
    c.par(v.len(), |th, i| {
        th.states += 1; th.transitions += 1;
        let n = Num::new(v[i].clone());
        f(th, &n);
    });
}

pub fn regions(c: &Ctx) {
    let m = &c.model;
    let all = super::regions(m);
    let suf = suffix_words(1);
    let suf: Vec<&str> = suf.iter().map(|s| s.as_str()).collect();
    sweep(c, orders(c, 3, 6), &suf, |th, cc, w| {
        let n = nums(cc, w);
        let r = th.diff(Region(&n));
        for r in m.regions_of(cc).unwrap() { th.diff(ValidFor(&n, r)); }
        for r in ["US", "ZZ", "001", "RU"] { th.diff(ValidFor(&n, r)); }
        if let Val::S(r) = &r { if r != "ZZ" { th.nontrivial += 1; } }
    });
    // every number state against every region in the world
    sweep_states(c, orders(c, 1, 3), |th, cc, w| {
        let n = nums(cc, w);
        for r in &all { th.diff(ValidFor(&n, r)); }
        for r in ODD_REGIONS { th.diff(ValidFor(&n, r)); }
    });
    prefix_grid(c, |th, cc, w| { if m.regions_of(cc).unwrap().len() > 1 { let n = nums(cc, w); th.diff(Region(&n)); } });
    decorated(c, 1, |th, n, _| { th.diff(Region(n)); for r in m.regions_of(n.pn.cc()).unwrap().into_iter().take(3) { th.diff(ValidFor(n, r)); } th.diff(ValidFor(n, "US")); });
    zeros(c, |th, n| { th.diff(Region(n)); for r in ["US", "IT", "001"] { th.diff(ValidFor(n, r)); } });
    // being valid and being valid for one's own region are the same
    sweep_states(c, orders(c, 2, 6), |th, cc, w| {
        let n = nums(cc, w);
        if let Val::S(r) = th.run(&Region(&n)) { let v = th.run(&Valid(&n)); th.expect(ValidFor(&n, &r), v, "being valid and being valid for one's own region are the same"); }
    });
    unassigned(c, |th, n| { th.diff(Region(n)); for r in &all { th.diff(ValidFor(n, r)); } for r in ODD_REGIONS { th.diff(ValidFor(n, r)); } });
}

pub fn lengths(c: &Ctx) {
    let m = &c.model;
    // possibility depends on the length alone: every calling code, every length, many digit contents
    let mut ccs: Vec<i32> = (-3..=1100).collect();
    ccs.extend([i32::MAX, i32::MIN, 10000, 12345]);
    c.par(ccs.len(), |th, i| {
        let cc = ccs[i];
        th.states += 1;
        for len in 1..=19usize {
            for fill in ["0", "1", "9", "1234567890", "8005551234", "0123456789", "0076543210"] {
                th.transitions += 1;
                let fb = fill.as_bytes();
                let w: String = (0..len).map(|j| fb[j % fb.len()] as char).collect();
                let n = nums(cc, &w);
                let p = th.diff(Possible(&n));
                let b = th.diff(IsPossible(&n));
                if b != Val::B(matches!(p, Val::P(Poss::Possible | Poss::LocalOnly))) { th.fail(IsPossible(&n), &p, &b, "possible means no reason against it"); }
                if let Val::P(p) = p { th.outcome(match p { Poss::Possible => "possible", Poss::LocalOnly => "local only", Poss::BadCc => "invalid code", Poss::Short => "too short", Poss::InvalidLen => "invalid length", Poss::Long => "too long" }); }
                // leading zeros count as digits, whatever the mixture
                for z in 0..=(20 - len.min(19)) {
                    let mut p = Pn::of(cc, w.trim_start_matches('0').to_string().as_str().get(..).filter(|s| !s.is_empty()).unwrap_or("0"));
                    p.ilz = Some(true); p.nlz = Some(z as i32);
                    let n = Num::new(p);
                    th.diff(Possible(&n)); th.diff(IsPossible(&n));
                }
            }
        }
    });
    sweep(c, orders(c, 2, 6), &[""], |th, cc, w| {
        let n = nums(cc, w);
        let p = th.diff(Possible(&n));
        th.diff(IsPossible(&n));
        // a valid number is a possible number
        if m.valid(&n.pn) { th.nontrivial += 1; if !matches!(p, Val::P(Poss::Possible | Poss::LocalOnly)) { th.fail(Possible(&n), &Val::P(Poss::Possible), &p, "every valid number is possible"); } }
    });
    unassigned(c, |th, n| { th.diff(Possible(n)); th.diff(IsPossible(n)); });
    // every count of leading zeros a number object can carry, and lengths around every
    // size at which a narrower integer would wrap
    let ccs: Vec<i32> = m.meta.by_cc.keys().copied().collect();
    c.par(ccs.len(), |th, i| {
        th.states += 1;
        for z in (0..=600).chain([1000, 4096, 32767, 32768, 65530, 65536, 65541, 65546, 65550]) {
            for nn in [0u64, 7, 123456, 1234567890] {
                if z > 600 && nn != 7 && i % 8 != 0 { continue; }
                th.transitions += 1;
                let n = Num::new(Pn { cc: Some(ccs[i]), nn: Some(nn), ilz: Some(true), nlz: Some(z), ..Default::default() });
                th.diff(Possible(&n)); th.diff(IsPossible(&n));
            }
        }
    });
    decorated(c, 1, |th, n, _| { th.diff(Possible(n)); th.diff(IsPossible(n)); });
}

pub fn truncate(c: &Ctx) {
    let mut suf: Vec<String> = suffix_words(1);
    for l in 2..=9 { for f in ["0", "9", "31415926535", "8675309"] { let b = f.as_bytes(); suf.push((0..l).map(|j| b[j % b.len()] as char).collect()); } }
    let suf: Vec<&str> = suf.iter().map(|s| s.as_str()).collect();
    sweep(c, orders(c, 1, 6), &suf, |th, cc, w| {
        let mut n = nums(cc, w);
        let r = th.diff(Trunc(&n));
        if let Val::Trunc(b, _) = &r {
            th.outcome(if *b { "valid after" } else { "left alone" });
            if *b { th.nontrivial += 1; }
        }
        if w.len() % 4 == 0 {
            // the other fields of the number survive
            n.pn.ext = Some("42".into()); n.pn.raw = Some(w.to_string()); n.pn.carrier = Some("7".into()); n.pn.src = Some(SrcW(Src::Plus));
            let n = Num::new(n.pn);
            th.diff(Trunc(&n));
        }
    });
    unassigned(c, |th, n| { th.diff(Trunc(n)); });
    decorated(c, 1, |th, n, _| { th.diff(Trunc(n)); });
    zeros(c, |th, n| { if n.pn.nlz() < 2000 { th.diff(Trunc(n)); } });
    // every example behind leading zeros and before further digits
    let ex = super::examples(&c.model);
    c.par(ex.len(), |th, i| {
        th.states += 1;
        let (cc, _, w) = &ex[i];
        for z in 0..6 { for tail in ["", "0", "7", "00", "42", "000", "123456", "0000000", "98765432"] {
            let s = format!("{}{}", w.trim_start_matches('0'), tail);
            if s.len() > 19 { continue; }
            for ilz in [Some(true), Some(false), None] {
                th.transitions += 1;
                let n = Num::new(Pn { cc: Some(*cc), nn: s.parse().ok(), ilz, nlz: Some(z), ..Default::default() });
                th.diff(Trunc(&n));
                for p in decorations(&n.pn, w) { th.diff(Trunc(&Num::new(p))); }
            }
        } }
    });
}

pub fn ndc(c: &Ctx) {
    let suf = suffix_words(if c.thorough { 1 } else { 0 });
    let suf: Vec<&str> = suf.iter().map(|s| s.as_str()).collect();
    sweep(c, orders(c, 3, 6), &suf, |th, cc, w| {
        let mut n = nums(cc, w);
        let a = th.diff(Ndc(&n));
        let g = th.diff(Area(&n));
        if let Val::U(x) = a { if x > 0 { th.nontrivial += 1; } if x > w.len() { th.fail(Ndc(&n), &Val::U(w.len()), &a, "a destination code is part of the number"); } }
        if let (Val::U(g), Val::U(a)) = (&g, &a) { if *g != 0 && g != a { th.fail(Area(&n), &Val::U(*a), &Val::U(*g), "an area code, when there is one, is the destination code"); } }
        if w.len() % 3 == 0 {
            n.pn.ext = Some("123".into());
            let n = Num::new(n.pn);
            th.expect(Ndc(&n), a, "the extension is no part of the destination code");
            th.expect(Area(&n), g, "the extension is no part of the area code");
        }
    });
    unassigned(c, |th, n| { th.diff(Ndc(n)); th.diff(Area(n)); });
    decorated(c, 1, |th, n, _| { th.diff(Ndc(n)); th.diff(Area(n)); });
    zeros(c, |th, n| { th.diff(Ndc(n)); th.diff(Area(n)); });
}

pub fn geo_intl(c: &Ctx) {
    let suf = suffix_words(1);
    let suf: Vec<&str> = suf.iter().map(|s| s.as_str()).collect();
    sweep(c, orders(c, 3, 6), &suf, |th, cc, w| {
        let n = nums(cc, w);
        if th.diff(Geo(&n)) == Val::B(true) { th.nontrivial += 1; th.outcome("geographical"); }
        if th.diff(Intl(&n)) == Val::B(false) { th.outcome("not diallable from abroad"); }
    });
    prefix_grid(c, |th, cc, w| { let n = nums(cc, w); th.diff(Intl(&n)); th.diff(Geo(&n)); });
    unassigned(c, |th, n| { th.diff(Geo(n)); th.diff(Intl(n)); });
    decorated(c, 1, |th, n, _| { th.diff(Geo(n)); th.diff(Intl(n)); });
    zeros(c, |th, n| { th.diff(Geo(n)); th.diff(Intl(n)); });
}

pub fn nsn(c: &Ctx) {
    // what a number object says, for every combination of zero fields
    unassigned(c, |th, n| { th.diff(Nsn(n)); });
    zeros(c, |th, n| { th.diff(Nsn(n)); });
    decorated(c, 1, |th, n, w| { th.expect(Nsn(n), Val::S(w.into()), "only the leading zeros and the national number matter"); });
    let ccs: Vec<i32> = c.model.meta.by_cc.keys().copied().collect();
    c.par(ccs.len(), |th, i| {
        let cc = ccs[i];
        let m = th.m();
        let reg = m.region_for_cc(cc);
        for zeros in 0..=16usize {
            for body in ["", "1", "7", "12", "90", "123", "5020", "12345", "236618", "1234567", "65025300", "236618300", "1000000001", "12345678901", "123456789012", "1234567890123", "12345678901234", "987654321098765"] {
                let w = format!("{}{}", "0".repeat(zeros), body);
                if w.is_empty() || w.len() > 17 { continue; }
                th.states += 1;
                let n = nums(cc, &w);
                th.transitions += 1;
                th.expect(Nsn(&n), Val::S(w.clone()), "a number keeps every digit of its national number, leading zeros included");
                let s = format!("+{}{}", cc, w);
                let p = th.diff(Parse(&s, "ZZ", false));
                if let Val::Parsed(Ok(p)) = p { th.nontrivial += 1; let n = Num::new(p); th.diff(Nsn(&n)); }
                if reg != "001" && reg != "ZZ" { if let Val::Parsed(Ok(p)) = th.diff(Parse(&w, reg, false)) { let n = Num::new(p); th.diff(Nsn(&n)); } }
            }
        }
    });
    // parsing in international form keeps the digits of every plan state
    sweep(c, orders(c, 2, 6), &["", "0", "17"], |th, cc, w| {
        if w.len() > 18 { return; }
        let s = format!("+{}{}", cc, w);
        if let Val::Parsed(Ok(p)) = th.diff(Parse(&s, "ZZ", false)) {
            th.nontrivial += 1;
            let n = Num::new(p);
            th.diff(Nsn(&n));
        }
    });
}

pub fn matching(c: &Ctx) {
    let mut v: Vec<Pn> = vec![];
    for cc in [None, Some(0), Some(1), Some(39), Some(7), Some(-1)] {
        for nn in [None, Some(0u64), Some(1), Some(10), Some(11), Some(12), Some(2), Some(112), Some(1234), Some(234), Some(4294967297), Some(6502530000), Some(2530000), Some(u64::MAX)] {
            for ext in [None, Some(""), Some("1"), Some("12"), Some("01")] {
                for (ilz, nlz) in [(None, None), (Some(false), None), (Some(true), None), (Some(true), Some(1)), (Some(true), Some(2)), (None, Some(2)), (Some(true), Some(0)), (Some(true), Some(257)), (Some(false), Some(1))] {
                    v.push(Pn { cc, nn, ext: ext.map(|s| s.to_string()), ilz, nlz, ..Default::default() });
                }
            }
        }
    }
    let ns: Vec<Num> = v.into_iter().map(Num::new).collect();
    let deco = |p: &Pn, k: usize| { let mut p = p.clone(); match k % 4 { 0 => p.raw = Some("x".into()), 1 => p.src = Some(SrcW(Src::Plus)), 2 => p.carrier = Some("15".into()), _ => { p.raw = Some("+1".into()); p.carrier = Some(String::new()); p.src = Some(SrcW(Src::Default)); } } Num::new(p) };
    c.par(ns.len(), |th, i| {
        th.states += 1;
        let d = deco(&ns[i].pn, i);
        for (j, b) in ns.iter().enumerate() {
            th.transitions += 1;
            let x = th.diff(Match(&ns[i], b));
            let y = th.run(&Match(b, &ns[i]));
            if x != y { th.fail(Match(b, &ns[i]), &x, &y, "matching is symmetric"); }
            if x != Val::M(Mt::No) { th.nontrivial += 1; }
            if let Val::M(m) = x { th.outcome(match m { Mt::No => "no match", Mt::Short => "short nsn", Mt::Nsn => "nsn", Mt::Exact => "exact" }); }
            if (i + j) % 7 == 0 || i == j {
                th.expect(Match(&d, b), x.clone(), "raw input, its source and the carrier code play no part in matching");
            }
            if i == j { let want = if b.pn.cc() == 0 { Mt::Nsn } else { Mt::Exact }; th.expect(Match(&ns[i], b), Val::M(want), "a number matches itself"); }
        }
    });
    // suffix relations over real numbers
    let ex = super::examples(&c.model);
    c.par(ex.len(), |th, i| {
        let (cc, _, w) = &ex[i];
        th.states += 1;
        let full = nums(*cc, w);
        for k in 0..w.len() {
            for drop_cc in [false, true] {
                th.transitions += 1;
                let mut p = Pn::of(*cc, &w[k..]);
                if drop_cc { p.cc = if k % 2 == 0 { None } else { Some(0) }; }
                let q = Num::new(p);
                th.diff(Match(&full, &q)); th.diff(Match(&q, &full));
            }
            let mut p = Pn::of(*cc, &w[..w.len() - k]);
            let q = Num::new(p.clone());
            th.diff(Match(&full, &q)); th.diff(Match(&q, &full));
            p.ext = Some(w[k..].to_string());
            let q = Num::new(p);
            th.diff(Match(&full, &q)); th.diff(Match(&q, &full));
        }
    });
}

pub fn maps(c: &Ctx) {
    let m = &c.model;
    let hi: i64 = if c.thorough { 20_000_000 } else { 2_000_000 };
    let lo: i64 = -hi / 4;
    let n = 64i64;
    c.par(n as usize, |th, i| {
        let step = (hi - lo) / n;
        for x in lo + step * i as i64..lo + step * (i as i64 + 1) {
            th.states += 1; th.transitions += 1;
            th.diff(RegionForCc(x as i32));
            th.diff(RegionsForCc(x as i32));
        }
        for x in [i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1] { th.diff(RegionForCc(x)); th.diff(RegionsForCc(x)); }
    });
    let mut rs: Vec<String> = vec![String::new()];
    let al: Vec<char> = ('A'..='Z').chain('a'..='z').chain("019 -_".chars()).collect();
    for &a in &al { rs.push(a.to_string()); for &b in &al { rs.push(format!("{}{}", a, b)); } }
    for a in 0..1000 { rs.push(format!("{:03}", a)); }
    for a in 'A'..='Z' { for b in 'A'..='Z' { for s in ["A", "S", "\0", " ", "\u{301}"] { rs.push(format!("{}{}{}", a, b, s)); rs.push(format!("{}{}{}", s, a, b)); } } }
    rs.extend(ODD_REGIONS.iter().map(|s| s.to_string()));
    let chunk = 64;
    c.par((rs.len() + chunk - 1) / chunk, |th, i| {
        for r in &rs[i * chunk..((i + 1) * chunk).min(rs.len())] {
            th.states += 1; th.transitions += 1;
            let cc = th.diff(CcForRegion(r));
            th.diff(Nanpa(r));
            if let Val::Cc(Some(cc)) = cc {
                th.nontrivial += 1;
                // the maps are inverse to each other
                let l = th.run(&RegionsForCc(cc));
                if !matches!(&l, Val::L(Some(v)) if v.contains(r)) { th.fail(RegionsForCc(cc), &Val::L(Some(vec![r.clone()])), &l, "a region is listed under its own calling code"); }
                th.expect(Nanpa(r), Val::B(cc == 1), "NANPA regions are those with calling code 1");
            }
        }
    });
    // no region code is matched by any other spelling of it
    every_char(c, |th, ch| { for r in [format!("{}", ch), format!("U{}", ch), format!("{}S", ch), format!("US{}", ch), format!("{}GB", ch)] { th.transitions += 1; th.diff(CcForRegion(&r)); th.diff(Nanpa(&r)); } });
    c.par(16, |th, _| { th.states += 1; th.diff(Supported); });
    let _ = m;
}

pub fn examples(c: &Ctx) {
    let m = &c.model;
    let mut rs = super::regions(m);
    rs.extend(ODD_REGIONS.iter().map(|s| s.to_string()));
    let chunk = 8;
    c.par((rs.len() + chunk - 1) / chunk, |th, i| {
        for r in &rs[i * chunk..((i + 1) * chunk).min(rs.len())] {
            th.states += 1; th.transitions += 1;
            let e = th.diff(Example(r));
            if let Val::Ex(Ok(p)) = e {
                th.nontrivial += 1;
                let n = Num::new(p);
                th.expect(ValidFor(&n, r), Val::B(true), "an example number is valid for its region");
                let t = th.run(&Type(&n));
                if !matches!(t, Val::T(Ty::Fixed | Ty::FixedOrMobile)) { th.fail(Type(&n), &Val::T(Ty::Fixed), &t, "the example is a fixed-line number"); }
            } else if m.region(r).is_some() { th.fail(Example(r), &Val::B(true), &e, "every supported region has an example"); }
            let e = th.diff(InvalidExample(r));
            if let Val::Ex(Ok(p)) = e {
                let n = Num::new(p);
                th.expect(Valid(&n), Val::B(false), "an invalid example is not valid");
                let cc = m.region(r).map_or(0, |t| t.cc);
                if n.pn.cc() != cc { th.fail(InvalidExample(r), &Val::U(cc as usize), &Val::U(n.pn.cc() as usize), "an invalid example belongs to its region"); }
            } else if m.region(r).is_some() { th.fail(InvalidExample(r), &Val::B(true), &e, "every supported region has an invalid example"); }
        }
    });
    // examples by type: whichever territory is chosen, the number is one of the plan's examples
    let rounds = if c.thorough { 400 } else { 48 };
    c.par(rounds, |th, i| {
        let u = rlibphonenumber::PhoneNumberUtil::new();
        for (it, ty) in crate::imp::ALL_TYPES {
            th.states += 1; th.transitions += 1; th.traces += 1;
            let want: Vec<Pn> = m.meta.terrs.iter().filter_map(|t| {
                let d = match ty { Ty::Unknown => return None, Ty::FixedOrMobile => t.ty(Ty::Fixed), x => t.ty(x) }?;
                let e = d.example.as_ref()?;
                if t.id == "001" { m.parse(&format!("+{}{}", t.cc, e), "ZZ", false).ok() } else { m.parse(e, &t.id, false).ok() }
            }).collect();
            let _ = it;
            let got = th.run_on(&ExampleOf(ty), &u);
            let (ok, text) = match &got {
                Val::Ex(Ok(p)) => {
                    let t = m.number_type(p);
                    let tyok = t == ty || (t == Ty::FixedOrMobile && matches!(ty, Ty::Fixed | Ty::Mobile)) || (ty == Ty::FixedOrMobile && t == Ty::Fixed);
                    (want.contains(p) && m.valid(p) && tyok, got.clone())
                }
                // the general description carries no examples
                Val::Ex(Err(_)) => (want.is_empty(), got.clone()),
                _ => (false, got.clone()),
            };
            if !ok {
                th.fail(ExampleOf(ty), &Val::B(true), &text, "an example number by type is a valid number of that type from some territory");
            }
            if i == 0 { c.sample(J::s(format!("{:?} -> {:?}", ty, text))); }
        }
    });
}

/// Every function on every combination of fields.
pub fn totality(c: &Ctx) {
    let m = &c.model;
    let exts = [None, Some(""), Some("1"), Some("\u{0}\u{FFFD}"), Some("$1"), Some("ext. 99999999999999999999999999999"), Some(";ext=4")];
    let raws = [None, Some(""), Some("0"), Some("+"), Some("\u{0661}\u{1F4DE}"), Some("\u{FF0B}\u{FF11}\u{1E950}"), Some("1-800-FLOWERS"), Some("tel:+1;ext=;ext=1"), Some("6502530000 x\u{301}"), Some("$0$1${x}"), Some("00\u{a0}1")];
    let srcs = [None, Some(Src::Unspecified), Some(Src::Plus), Some(Src::Idd), Some(Src::NoPlus), Some(Src::Default)];
    let carriers = [None, Some(""), Some("15"), Some("$1$CC"), Some("\u{1F4DE}")];
    let base = odd_numbers();
    let froms = ["US", "ZZ", "001", "BR", "IT", "AR", "GB", "RU", "MX", "SG", "AU", "", "\u{1F4DE}"];
    let carriers_arg = ["", "15", "$1", "$0${a}", "\\1", "\u{1F4DE}"];
    let stride = 1;
    c.par(base.len(), |th, i| {
        th.states += 1;
        let mut k = i;
        for ext in exts { for raw in raws { for src in srcs { for car in carriers {
            k += 1;
            if k % stride != 0 { continue; }
            th.transitions += 1;
            let mut p = base[i].clone();
            p.ext = ext.map(|s| s.to_string()); p.raw = raw.map(|s| s.to_string()); p.src = src.map(SrcW); p.carrier = car.map(|s| s.to_string());
            let n = Num::new(p);
            all_calls(th, &n, &[froms[k / stride % froms.len()], froms[(k / stride / 7 + 3) % froms.len()]], &[carriers_arg[k / stride % 6]]);
        } } } }
    });
    // once more with a logger installed that formats every message
    crate::engine::log_all(true);
    c.par(base.len(), |th, i| {
        th.states += 1;
        for (k, (ext, raw)) in [(None, None), (Some("\u{1F4DE}"), Some("\u{FF0B}\u{FF11}")), (Some(""), Some("0"))].into_iter().enumerate() {
            th.transitions += 1;
            let mut p = base[i].clone();
            p.ext = ext.map(|s: &str| s.to_string()); p.raw = raw.map(|s: &str| s.to_string()); p.src = Some(SrcW([Src::Default, Src::Plus, Src::NoPlus][k]));
            let n = Num::new(p);
            all_calls(th, &n, &["US", "\u{1F4DE}", "IT"], &["\u{1F4DE}"]);
        }
    });
    c.par(ODD_REGIONS.len(), |th, i| { for r in [ODD_REGIONS[i], "US", "\u{1F4DE}"] { th.total(Example(r)); th.total(InvalidExample(r)); th.total(CcForRegion(r)); th.total(Nanpa(r)); } });
    crate::engine::log_all(false);
    // long runs of leading zeros
    c.par(base.len() / 10, |th, i| {
        th.states += 1;
        for z in ZERO_COUNTS {
            if z > 600 && i % 8 != 0 { continue; }
            th.transitions += 1;
            let mut p = base[i * 10].clone();
            p.ilz = Some(true); p.nlz = Some(z); p.raw = Some("00012 34".into()); p.src = Some(SrcW(Src::Default));
            let n = Num::new(p);
            all_calls(th, &n, &["US", "IT"], &["1"]);
        }
    });
    // every calling code with every calling region
    let rs: Vec<String> = super::regions(m).into_iter().chain(ODD_REGIONS.iter().map(|s| s.to_string())).collect();
    let rr: Vec<&str> = rs.iter().map(|s| s.as_str()).collect();
    let ccs: Vec<i32> = m.meta.by_cc.keys().copied().chain([0, 2, -1, 999]).collect();
    c.par(ccs.len(), |th, i| {
        th.states += 1;
        for w in ["0", "1", "00", "0000000", "12", "123456", "80012345", "650253000", "6502530000", "23661830012", "012345678901234567", "9999999999999999999"] {
            for (raw, src) in [(None, None), (Some("0"), Some(Src::Default)), (Some("+1 65025"), Some(Src::Plus)), (Some("011"), Some(Src::Idd)), (Some("1ABC"), Some(Src::NoPlus))] {
                th.transitions += 1;
                let mut p = Pn::of(ccs[i], w);
                p.raw = raw.map(|s| s.to_string()); p.src = src.map(SrcW);
                let n = Num::new(p);
                all_calls(th, &n, &rr, &["12"]);
            }
        }
    });
    sweep(c, orders(c, 1, 4), &[""], |th, cc, w| {
        let n = nums(cc, w);
        let r = th.m().region_for_cc(cc);
        all_calls(th, &n, &["US", "DE", r], &["3"]);
    });
}
fn all_calls(th: &mut Th, n: &Num, from: &[&str], carriers: &[&str]) {
    for f in [Fm::E164, Fm::Intl, Fm::Nat, Fm::Rfc] { th.total(Format(n, f)); }
    for c in carriers { th.total(Carrier(n, c)); }
    for r in from {
        th.total(OutOf(n, r)); th.total(Mobile(n, r, true)); th.total(Mobile(n, r, false)); th.total(Original(n, r)); th.total(KeepAlpha(n, r)); th.total(ValidFor(n, r));
    }
    th.total(Nsn(n)); th.total(Type(n)); th.total(Region(n)); th.total(Valid(n)); th.total(Possible(n)); th.total(IsPossible(n)); th.total(Intl(n));
    th.total(Geo(n)); th.total(Ndc(n)); th.total(Area(n)); th.total(Trunc(n)); th.total(Match(n, n));
    th.nontrivial += 1;
}
