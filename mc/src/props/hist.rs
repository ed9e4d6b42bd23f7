//! History and instance independence: every operation sequence over an alphabet of
//! calls that share strings, numbers, regions and patterns, on fresh, warm and
//! lazily built instances. The oracle is the library itself: the answer a fresh
//! instance gives to the same call with no history.
use super::*;
use crate::meta::Ty;
use crate::val::Call::*;
use rlibphonenumber::{PhoneNumberUtil, PHONE_NUMBER_UTIL};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn leak_num(p: Pn) -> &'static Num { Box::leak(Box::new(Num::new(p))) }
fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }

/// The calls, grouped so that neighbours differ in one argument only.
pub fn alphabet() -> Vec<Call<'static>> {
    let us = leak_num(Pn::of(1, "6502530000"));
    let bs = leak_num(Pn::of(1, "2423651234"));
    let it = leak_num(Pn::of(39, "0236618300"));
    let itm = leak_num(Pn::of(39, "312345678"));
    let gb = leak_num(Pn::of(44, "2070313000"));
    let je = leak_num(Pn::of(44, "1534456789"));
    let ar = leak_num(Pn::of(54, "91187654321"));
    let br = { let mut p = Pn::of(55, "1123456789"); p.carrier = Some("15".into()); leak_num(p) };
    let tf = leak_num(Pn::of(800, "12345678"));
    let long = leak_num(Pn::of(1, "65025300001"));
    let bad = leak_num(Pn::of(999, "12345678"));
    let usx = { let mut p = Pn::of(1, "6502530000"); p.ext = Some("42".into()); p.raw = Some("650 253 0000 x42".into()); p.src = Some(SrcW(Src::Default)); leak_num(p) };
    let raw = { let mut p = Pn::of(1, "8003569377"); p.raw = Some("1800 FLOWERS".into()); p.src = Some(SrcW(Src::NoPlus)); leak_num(p) };
    let idd = { let mut p = Pn::of(44, "2070313000"); p.raw = Some("011 44 20 7031 3000".into()); p.src = Some(SrcW(Src::Idd)); leak_num(p) };
    vec![
        // one text, many regions; one region, many texts; errors among them
        Parse("044 668 18 00", "CH", false), Parse("044 668 18 00", "US", false), Parse("044 668 18 00", "IT", false), Parse("044 668 18 00", "ZZ", false),
        Parse("650 253 0000", "US", false), Parse("650 253 0000", "US", true), Parse("650 253 0000", "BS", true), Parse("1 800 FLOWERS", "US", true),
        Parse("+390236618300", "", false), Parse("0236618300", "IT", true), Parse("+39", "IT", false), Parse("abc", "US", false),
        Parse("tel:863-1234;phone-context=+1-914-555", "US", false), Parse("011 44 20 7031 3000 ext. 7", "US", true), Parse("0343715512345678", "AR", true), Parse("0 15 11 2345-6789", "BR", true),
        IsAlpha("1800 FLOWERS"), IsAlpha("1800 123"), ConvAlpha("1800 FLOWERS"),
        // one number, every format; one format, many numbers
        Format(us, Fm::E164), Format(us, Fm::Intl), Format(us, Fm::Nat), Format(us, Fm::Rfc), Format(usx, Fm::Nat), Format(usx, Fm::Rfc),
        Format(it, Fm::Nat), Format(it, Fm::Intl), Format(ar, Fm::Nat), Format(ar, Fm::Intl), Format(gb, Fm::Nat), Format(tf, Fm::Intl), Format(bad, Fm::Nat),
        Carrier(ar, "14"), Carrier(ar, ""), Carrier(br, "31"), Carrier(us, "15"),
        OutOf(us, "US"), OutOf(us, "BS"), OutOf(us, "IT"), OutOf(gb, "US"), OutOf(gb, "AU"), OutOf(gb, "ZZ"),
        Mobile(us, "US", true), Mobile(us, "US", false), Mobile(br, "BR", true), Mobile(br, "US", false), Mobile(it, "IT", false),
        Original(usx, "US"), Original(raw, "US"), Original(idd, "US"), Original(idd, "IT"), KeepAlpha(raw, "US"), KeepAlpha(raw, "IT"), KeepAlpha(raw, "AU"),
        // classification: one number seen from several regions, several numbers of one code
        Nsn(us), Nsn(it), Type(us), Type(bs), Type(it), Type(itm), Type(tf), Type(bad), Region(us), Region(bs), Region(gb), Region(je), Region(tf), Region(bad),
        Valid(us), Valid(bs), Valid(long), Valid(it), ValidFor(us, "US"), ValidFor(us, "BS"), ValidFor(bs, "BS"), ValidFor(bs, "US"), ValidFor(je, "GB"), ValidFor(tf, "001"),
        Possible(us), Possible(long), Possible(bad), IsPossible(long), Intl(us), Intl(tf), Geo(us), Geo(itm), Geo(it), Ndc(us), Ndc(ar), Ndc(itm), Area(us), Area(ar), Area(it),
        Trunc(us), Trunc(long), Trunc(bad), Match(us, usx), Match(us, us), Match(us, bs), Match(it, itm),
        CcForRegion("US"), CcForRegion("ZZ"), RegionForCc(1), RegionForCc(999), RegionsForCc(1), RegionsForCc(44), Nanpa("US"), Nanpa("BS"), Nanpa("IT"), Supported,
        Example("US"), Example("BS"), Example("ZZ"), InvalidExample("US"), InvalidExample("IT"),
        ExampleOf(Ty::Fixed), ExampleOf(Ty::Mobile), ExampleOf(Ty::Uan), ExampleOf(Ty::Unknown),
    ]
}
/// One number and its neighbours: every field alone changed, unset, emptied or moved to
/// a value that a careless key (truncated, concatenated, incomplete) would confuse with it.
pub fn neighbours(p: &Pn) -> Vec<Pn> {
    let mut v = vec![p.clone()];
    let mut add = |f: &dyn Fn(&mut Pn)| { let mut q = p.clone(); f(&mut q); if !v.contains(&q) { v.push(q); } };
    let (cc, nn) = (p.cc(), p.nn());
    for c in [Some(1), Some(39), Some(44), Some(7), Some(55), Some(999), Some(cc + 256), Some(-cc), None] { add(&|q| q.cc = c); }
    for n in [nn + 1, nn ^ 1, nn / 10, nn.wrapping_mul(10), nn + (1 << 32), nn | (1 << 63), nn + 1000, nn % 10_000_000, 0] { add(&|q| q.nn = Some(n)); }
    add(&|q| q.nn = None);
    // the same digits divided otherwise between code and number
    let d = nn.to_string();
    if let (Ok(c), Ok(n)) = (format!("{}{}", cc, &d[..1]).parse::<i32>(), d[1..].parse::<u64>()) { add(&|q| { q.cc = Some(c); q.nn = Some(n); }); }
    if cc > 9 { let c = cc.to_string(); if let Ok(n) = format!("{}{}", &c[1..], d).parse::<u64>() { add(&|q| { q.cc = Some((c.as_bytes()[0] - 48) as i32); q.nn = Some(n); }); } }
    for (i, z) in [(None, None), (Some(true), None), (Some(true), Some(2)), (Some(true), Some(3)), (Some(false), Some(2)), (Some(true), Some(0)), (Some(true), Some(258))] { add(&|q| { q.ilz = i; q.nlz = z; }); }
    for e in [None, Some(""), Some("1"), Some("2"), Some("01")] { add(&|q| q.ext = e.map(|s| s.to_string())); }
    for r in [None, Some(""), Some("0 650"), Some("+1 650"), Some("1 650 FLOWERS")] { add(&|q| q.raw = r.map(|s| s.to_string())); }
    for c in [None, Some(""), Some("15"), Some("31")] { add(&|q| q.carrier = c.map(|s| s.to_string())); }
    for x in [None, Some(Src::Unspecified), Some(Src::Plus), Some(Src::Idd), Some(Src::NoPlus), Some(Src::Default)] { add(&|q| q.src = x.map(SrcW)); }
    v
}
/// every call that takes one number
pub fn number_ops(n: &'static Num) -> Vec<Call<'static>> {
    let mut v = vec![];
    for f in [Fm::E164, Fm::Intl, Fm::Nat, Fm::Rfc] { v.push(Format(n, f)); }
    for k in ["", "15", "31"] { v.push(Carrier(n, k)); }
    for r in ["US", "IT", "BR"] { v.extend([OutOf(n, r), Mobile(n, r, true), Mobile(n, r, false), Original(n, r), KeepAlpha(n, r), ValidFor(n, r)]); }
    v.extend([Nsn(n), Type(n), Region(n), Valid(n), Possible(n), IsPossible(n), Intl(n), Geo(n), Ndc(n), Area(n), Trunc(n), Match(n, n)]);
    v
}
/// neighbouring numbers, one after the other on one instance
fn fields(c: &Ctx) {
    let full = |cc, w: &str, raw: &str| { let mut p = Pn::of(cc, w); p.ext = Some("7".into()); p.raw = Some(raw.into()); p.src = Some(SrcW(Src::Default)); p.carrier = Some("21".into()); p };
    let bases = vec![Pn::of(1, "6502530000"), Pn::of(39, "0236618300"), full(55, "1123456789", "0 21 11 2345-6789"), Pn::of(44, "2070313000"), Pn::of(54, "91187654321"), Pn::of(800, "12345678"), full(1, "2423651234", "242-365-1234 x7"), Pn::of(7, "9161234567")];
    let fresh = PhoneNumberUtil::new;
    let bases = if c.thorough { bases } else { bases[..6].to_vec() };
    let ops: Vec<Vec<Vec<Call<'static>>>> = bases.iter().map(|b| neighbours(b).into_iter().map(|p| number_ops(leak_num(p))).collect()).collect();
    let items: Vec<(usize, usize)> = ops.iter().enumerate().flat_map(|(b, v)| (0..v.len()).map(move |i| (b, i))).collect();
    // with no history: one new instance per number and call for the first base, one per number else
    let base: Vec<std::sync::Mutex<Vec<Val>>> = (0..items.len()).map(|_| Default::default()).collect();
    c.par(items.len(), |_, x| { let (b, i) = items[x]; let one = fresh();
        *base[x].lock().unwrap() = ops[b][i].iter().map(|o| if b == 0 && i % 2 == 0 || c.thorough { on(o, &fresh()) } else { on(o, &one) }).collect(); });
    let base: Vec<Vec<Val>> = base.into_iter().map(|m| m.into_inner().unwrap()).collect();
    let at = |b: usize, i: usize| items.iter().position(|x| *x == (b, i)).unwrap();
    c.note("neighbour_numbers", J::Int(items.len() as i128));
    c.note("calls_per_number", J::Int(ops[0][0].len() as i128));
    // 1. the same call for every ordered pair of neighbours; 2. every ordered pair of calls
    // for the number itself and each neighbour, in both orders
    c.par(items.len(), |th, x| {
        let (b, i) = items[x];
        let u = th.u.clone();
        th.states += 1;
        let k = ops[b][i].len();
        let step = |th: &mut Th, x: usize, o: &Call<'static>, q: usize, prev: Option<&Call<'static>>| {
            let got = norm(th.run_on(o, &u));
            th.traces += 1; th.transitions += 1;
            if got != base[x][q] { c.violate_seq(prev.into_iter().map(|p| p.json()).chain([o.json()]).collect(), &base[x][q], &got, "another answer after a call for a neighbouring number"); }
        };
        for j in 0..ops[b].len() {
            let y = at(b, j);
            for q in 0..k { let (o1, o2) = (&ops[b][i][q], &ops[b][j][q]); step(th, x, o1, q, None); step(th, y, o2, q, Some(o1)); }
        }
        let y = at(b, 0);
        for q in 0..k { for r in 0..k {
            let (o1, o2) = (&ops[b][i][q], &ops[b][0][r]);
            step(th, x, o1, q, None); step(th, y, o2, r, Some(o1)); step(th, x, o1, q, Some(o2));
        } }
    });
    // two neighbours under is_number_match: all pairs, after all pairs of another number
    // 3. regions: the same call for the same number under every ordered pair of regions
    let rs: Vec<&'static str> = super::regions(&c.model).into_iter().chain(ODD_REGIONS.iter().map(|s| s.to_string())).map(leak).collect();
    let us = leak_num(full(1, "6502530000", "650 253 0000"));
    let it = leak_num(Pn::of(39, "0236618300"));
    let mk: Vec<Box<dyn Fn(&'static str) -> Call<'static> + Sync>> = vec![
        Box::new(move |r| OutOf(us, r)), Box::new(move |r| Mobile(us, r, false)), Box::new(move |r| Original(us, r)), Box::new(move |r| KeepAlpha(us, r)), Box::new(move |r| ValidFor(us, r)), Box::new(move |r| OutOf(it, r)),
        Box::new(|r| Parse("044 668 18 00", r, false)), Box::new(|r| Parse("+442070313000", r, true)), Box::new(|r| Parse("00442070313000", r, true)), Box::new(CcForRegion), Box::new(Nanpa), Box::new(Example), Box::new(InvalidExample),
    ];
    let rb: Vec<Vec<std::sync::Mutex<Val>>> = mk.iter().map(|_| rs.iter().map(|_| std::sync::Mutex::new(Val::Any)).collect()).collect();
    c.par(rs.len(), |_, i| { let one = fresh(); for (k, f) in mk.iter().enumerate() { *rb[k][i].lock().unwrap() = if c.thorough { on(&f(rs[i]), &fresh()) } else { on(&f(rs[i]), &one) }; } });
    let rb: Vec<Vec<Val>> = rb.into_iter().map(|v| v.into_iter().map(|m| m.into_inner().unwrap()).collect()).collect();
    c.par(rs.len(), |th, i| {
        let u = th.u.clone();
        th.states += 1;
        for (k, f) in mk.iter().enumerate() {
            if !c.thorough && k >= 11 && i % 8 != 0 { continue; }
            for j in 0..rs.len() {
                for z in [i, j] {
                    let o = f(rs[z]);
                    let got = norm(th.run_on(&o, &u));
                    th.traces += 1; th.transitions += 1;
                    if got != rb[k][z] { c.violate_seq(vec![f(rs[i]).json(), o.json()], &rb[k][z], &got, "another answer after the same call for another region"); }
                }
            }
        }
    });
    // 4. texts: every ordered pair of neighbouring texts, regions and flags
    let texts = ["6502530000", "650 253 0000", "+16502530000", "+1 650 253 0000", "16502530000", "0116502530000", "6502530000 x1", "6502530000 x2", "6502530000x12", "650253000", "65025300001", "06502530000", "tel:6502530000;phone-context=+1", "tel:6502530000;phone-context=+39", "tel:6502530000;phone-context=a.b", "650 ALE 0000", "650AKE0000", "+396502530000", "+4916502530000", "\u{FF16}502530000", "\u{0666}502530000", "(650) 253/0000 x1/x2", "6502530000;isub=1", "+011442070313000", "+00442070313000", "+0442070313000", "abc", "", "65025300006502530000", "6502530000 x123456789012345678901", "12", "1", "+1 2", "+39 0", "tel:650;phone-context=", "tel:650;phone-context=12", "tel:1;phone-context=+1a", "650;phone-context=-;isub=3", "+9996502530000", "0 0 0", "911/x2"];
    let mut ps: Vec<Call<'static>> = vec![];
    for t in texts { for r in ["US", "IT", "BS", "ZZ"] { for k in [false, true] { ps.push(Parse(t, r, k)); } } ps.push(IsAlpha(t)); ps.push(ConvAlpha(t)); }
    let pb: Vec<Val> = ps.iter().map(|o| on(o, &fresh())).collect();
    c.par(ps.len(), |th, i| {
        let u = th.u.clone();
        th.states += 1;
        for j in 0..ps.len() { for z in [i, j] {
            let got = norm(th.run_on(&ps[z], &u));
            th.traces += 1; th.transitions += 1;
            if got != pb[z] { c.violate_seq(vec![ps[i].json(), ps[z].json()], &pb[z], &got, "another answer after a neighbouring text"); }
        } }
    });
    // 5. numbers that a packed key would confuse: code and digits folded into one integer
    // at every width, for every calling code, before and after the number they collide with
    let ccs: Vec<i32> = c.model.meta.by_cc.keys().copied().chain([0, 2, 999, 801]).collect();
    let mut far: Vec<(usize, Pn)> = vec![];
    let nb = if c.thorough { bases.len() } else { 3 };
    for (b, base) in bases[..nb].iter().enumerate() {
        let mut seen = std::collections::HashSet::new();
        let (cc, nn) = (base.cc(), base.nn());
        for &k in &ccs { if k == cc { continue; }
            let mut add = |n: i128| { if n >= 0 && n <= u64::MAX as i128 && seen.insert((k, n)) { far.push((b, Pn { cc: Some(k), nn: Some(n as u64), ..base.clone() })); } };
            add(nn as i128);
            for s in [10u32, 16, 24, 32, 34, 36, 40, 44, 48, 50, 52, 53, 54, 56, 60] {
                add((nn ^ ((cc ^ k) as i64 as u64).wrapping_shl(s)) as i128);
                add(nn as i128 + ((cc - k) as i128) * (1i128 << s));
            }
            for d in [10u32, 11, 12, 13, 14, 15, 16, 17, 18] { add(nn as i128 + (cc - k) as i128 * 10i128.pow(d)); }
            add((nn ^ cc as u64 ^ k as u64) as i128);
            add(nn as i128 + (cc - k) as i128);
            add(nn as i128 + 31 * (cc - k) as i128);
            if nn as i128 * cc as i128 % k.max(1) as i128 == 0 { add(nn as i128 * cc as i128 / k.max(1) as i128); }
            // the digits divided otherwise
            let all = format!("{}{}", cc, nn);
            if let Some(Ok(n)) = all.strip_prefix(&k.to_string()).map(|r| r.parse::<u64>()) { add(n as i128); }
        }
    }
    c.note("packed_key_neighbours", J::Int(far.len() as i128));
    c.par(far.len(), |th, x| {
        let (b, p) = &far[x];
        let u = th.u.clone();
        th.states += 1;
        let (n0, n1) = (Num::new(bases[*b].clone()), Num::new(p.clone()));
        // the calls borrow the numbers: they are gone when the item ends
        let (r0, r1): (&'static Num, &'static Num) = unsafe { (std::mem::transmute(&n0), std::mem::transmute(&n1)) };
        let (o0, o1) = (number_ops(r0), number_ops(r1));
        for q in 0..o1.len() {
            for (o, z) in [(&o0[q], 0), (&o1[q], 1), (&o0[q], 0)] {
                let got = norm(th.run_on(o, &u));
                th.transitions += 1; th.traces += 1;
                let want = if z == 0 { base[at(*b, 0)][q].clone() } else { o.model(&c.model) };
                if got != want {
                    // only a difference from a process that has made no other call is one of history
                    let alone = alone(o);
                    if alone != format!("{:?}", got) { c.violate_seq(vec![o0[q].json(), o1[q].json(), o.json()], &Val::S(alone), &got, "another answer after a call for a number with a colliding key"); }
                }
            }
        }
    });
    // 6. pairs of numbers under matching
    let ms: Vec<&'static Num> = neighbours(&bases[0]).into_iter().map(leak_num).collect();
    let n = ms.len();
    let mb: Vec<Val> = { let u = fresh(); (0..n * n).map(|x| on(&Match(ms[x / n], ms[x % n]), &u)).collect() };
    c.par(n * n, |th, x| {
        let u = th.u.clone();
        th.states += 1;
        for y in 0..n { for z in [x, (x / n) * n + y, y * n + x % n, x] {
            let o = Match(ms[z / n], ms[z % n]);
            let got = norm(th.run_on(&o, &u));
            th.traces += 1; th.transitions += 1;
            if got != mb[z] { c.violate_seq(vec![Match(ms[x / n], ms[x % n]).json(), o.json()], &mb[z], &got, "another answer after matching a neighbouring pair"); }
        } }
    });
}
/// a smaller alphabet for the deeper sequences: the calls that touch most shared patterns
fn core_ops(al: &[Call<'static>], thorough: bool) -> Vec<usize> {
    let want: &[&str] = &["044 668 18 00", "650 253 0000", "0236618300", "0343715512345678", "0 15 11 2345-6789", "863-1234", "FLOWERS"];
    let mut v: Vec<usize> = vec![];
    for (i, c) in al.iter().enumerate() {
        let keep = match c { Parse(s, r, k) => want.iter().any(|w| s.contains(w)) && (thorough || !*k || *r == "BR"), Carrier(..) | Type(_) | Region(_) | Trunc(_) => thorough, Original(..) | KeepAlpha(..) | InvalidExample(_) => true, Format(_, Fm::Nat | Fm::Rfc) => true, _ => false };
        if keep { v.push(i); }
    }
    v
}
fn norm(v: Val) -> Val { if let Val::Panic(_) = v { Val::Panic("panic".into()) } else { v } }
fn on(c: &Call, u: &PhoneNumberUtil) -> Val {
    match catch_unwind(AssertUnwindSafe(|| c.imp(u))) { Ok(v) => v, Err(_) => Val::Panic("panic".into()) }
}

fn seq(c: &Ctx, al: &[Call<'static>], base: &[Val], hist: &[usize], got: &Val) {
    let calls: Vec<J> = hist.iter().map(|&i| al[i].json()).collect();
    let i = *hist.last().unwrap();
    c.violate_seq(calls, &base[i], got, "the same call gives another answer on a fresh instance");
}

/// One call, then a long run of others, then a call a note of the first would be mistaken
/// for: generations, rings and counters of eight or sixteen bits come round in between.
fn distances(c: &Ctx) {
    let n = |cc, w: &str| leak_num(Pn::of(cc, w));
    let with = |cc, w: &str, f: &dyn Fn(&mut Pn)| { let mut p = Pn::of(cc, w); f(&mut p); leak_num(p) };
    let pairs: Vec<(&'static Num, &'static Num)> = vec![
        (n(1, "2079460018"), n(44, "2079460018")), (n(44, "2079460018"), n(1, "2079460018")), (n(39, "0236618300"), n(39, "236618300")), (n(39, "236618300"), n(39, "0236618300")),
        (n(1, "6502530000"), n(1, "2423651234")), (n(54, "1187654321"), n(54, "91187654321")), (n(800, "12345678"), n(808, "12345678")), (n(44, "1534456789"), n(44, "1624756789")),
        (n(1, "6502530000"), with(1, "6502530000", &|p| p.ext = Some("42".into()))), (with(55, "1123456789", &|p| p.carrier = Some("15".into())), n(55, "1123456789")),
        (with(1, "6502530000", &|p| p.raw = Some("1 650 253 0000".into())), with(1, "6502530000", &|p| p.raw = Some("650-253-0000".into()))),
    ];
    // what lies between: two numbers in turn, so that every call is a change, or new ones every time
    let between: Vec<Vec<&'static Num>> = vec![vec![n(33, "5"), n(34, "5")], (0..97u64).map(|i| n(49, &(15123456789 + 1009 * i).to_string())).collect(), vec![n(7, "9161234567"), n(7, "7012345678"), n(999, "12")]];
    let mut ds: Vec<usize> = (84..=88).chain(124..=131).chain(250..=259).chain(508..=515).collect();
    let wide: Vec<usize> = if c.thorough { (65530..=65540).collect() } else { (65533..=65537).collect() };
    if c.thorough { ds = (1..=520).chain(1020..=1030).collect(); }
    let k = number_ops(pairs[0].0).len();
    let core: [usize; 6] = [1, 2, 22, 24, 25, 26];
    let mut items: Vec<(usize, usize, usize)> = vec![];
    for p in 0..pairs.len() { for b in 0..between.len() { for q in 0..k { items.push((p, b, q)); } } }
    c.par(items.len(), |th, x| {
        let (p, b, q) = items[x];
        let (first, then) = (number_ops(pairs[p].0)[q], number_ops(pairs[p].1)[q]);
        let fill: Vec<Call<'static>> = between[b].iter().map(|f| number_ops(f)[q]).collect();
        let u = PhoneNumberUtil::new();
        let want = [norm(first.model(&c.model)), norm(then.model(&c.model))];
        th.states += 1;
        let far = if core.contains(&q) { &wide[..] } else { &[] };
        for &d in ds.iter().chain(far) {
            let got0 = norm(th.run_on(&first, &u));
            for i in 0..d { std::hint::black_box(on(&fill[i % fill.len()], &u)); }
            let got = norm(th.run_on(&then, &u));
            th.traces += 2; th.transitions += d as u64 + 2;
            for (g, w, o) in [(&got0, &want[0], &first), (&got, &want[1], &then)] {
                if g != w && alone(o) != format!("{:?}", g) {
                    let h = if std::ptr::eq(o, &first) { vec![o.json()] } else { std::iter::once(first.json()).chain((0..d).map(|i| fill[i % fill.len()].json())).chain([then.json()]).collect() };
                    c.violate_seq(h, w, g, "another answer some calls after a call for another number");
                }
            }
        }
    });
    // the same for texts: another region, another text, another flag
    let texts: Vec<(Call<'static>, Call<'static>)> = vec![
        (Parse("044 668 18 00", "CH", false), Parse("044 668 18 00", "US", false)), (Parse("044 668 18 00", "IT", true), Parse("044 668 18 00", "CH", true)), (Parse("650 253 0000", "US", true), Parse("650 253 0000", "US", false)),
        (Parse("0 15 11 2345-6789", "BR", true), Parse("0 15 11 2345-6789", "AR", true)), (Parse("650 253 0000", "US", false), Parse("650 253 0000 x1", "US", false)), (Parse("1 800 FLOWERS", "US", true), Parse("1 800 FLOWERS x", "US", true)),
        (Parse("650 253 0000", "ZZ", false), Parse("650 253 0000", "US", false)), (Parse("+39 0236618300", "US", false), Parse("+39 236618300", "US", false)),
    ];
    let tween: Vec<Vec<Call<'static>>> = vec![vec![Parse("911", "GB", false), Parse("112", "FR", false)], vec![Parse("12", "US", true), Parse("abc", "US", true), Parse("+1", "DE", false)], (0..89u64).map(|i| Parse(leak(format!("20 {}", 79460018 + i)), "GB", true)).collect()];
    let mut items: Vec<(usize, usize)> = vec![];
    for p in 0..texts.len() { for b in 0..tween.len() { items.push((p, b)); } }
    c.par(items.len(), |th, x| {
        let ((first, then), fill) = (&texts[items[x].0], &tween[items[x].1]);
        let u = PhoneNumberUtil::new();
        let want = norm(then.model(&c.model));
        th.states += 1;
        for &d in ds.iter().chain(&wide) {
            th.run_on(first, &u);
            for i in 0..d { std::hint::black_box(on(&fill[i % fill.len()], &u)); }
            let got = norm(th.run_on(then, &u));
            th.traces += 1; th.transitions += d as u64 + 2;
            if got != want && alone(then) != format!("{:?}", got) { c.violate_seq(std::iter::once(first.json()).chain((0..d).map(|i| fill[i % fill.len()].json())).chain([then.json()]).collect(), &want, &got, "another answer some calls after another text"); }
        }
    });
    c.note("distances", J::s(format!("{} up to {}, {} around 65536", ds.len(), ds.last().unwrap(), wide.len())));
}
pub fn history(c: &Ctx) {
    fields(c);
    distances(c);
    let al = alphabet();
    let k = al.len();
    // what each call answers with no history at all
    let base: Vec<Val> = (0..k).map(|i| on(&al[i], &PhoneNumberUtil::new())).collect();
    for (i, b) in base.iter().enumerate() { if let Val::Panic(_) = b { c.note("panics_without_history", al[i].json()); } }
    let check = |th: &mut Th, u: &PhoneNumberUtil, hist: &[usize]| {
        let i = *hist.last().unwrap();
        let got = norm(th.run_on(&al[i], u));
        th.transitions += 1;
        th.traces += 1;
        if got != base[i] { seq(c, &al, &base, hist, &got); } else { th.outcome("same as fresh"); }
    };
    // 1. every ordered pair of calls (and the call after itself), each pair on its own fresh instance
    // (quick: the pairs whose sum is divisible by 7, so that every call is first and second of many)
    let pairs: Vec<usize> = (0..k * k).filter(|x| c.thorough || (x / k + x % k) % 7 == 0).collect();
    c.note("fresh_pairs", J::Int(pairs.len() as i128));
    c.par(pairs.len(), |th, x| {
        let x = pairs[x];
        let u = PhoneNumberUtil::new();
        th.states += 1;
        check(th, &u, &[x / k]);
        check(th, &u, &[x / k, x % k]);
        // and the first again: the second must not have disturbed it
        check(th, &u, &[x / k, x % k, x / k]);
    });
    // 2. every sequence of three (four when thorough) over the core alphabet, on fresh instances
    let mut core = core_ops(&al, c.thorough);
    if !c.thorough { core = core.into_iter().step_by(2).collect(); }
    let n = core.len();
    let depth = 3;
    c.note("core_alphabet", J::Int(n as i128));
    c.par(n.pow(depth), |th, x| {
        let u = PhoneNumberUtil::new();
        th.states += 1;
        let mut h = vec![];
        let mut y = x;
        for _ in 0..depth { h.push(core[y % n]); y /= n; check(th, &u, &h); }
    });
    // every call first on a fresh instance, then all the others in both orders
    c.par(k, |th, x| {
        th.states += 1;
        for rev in [false, true] {
            let u = PhoneNumberUtil::new();
            check(th, &u, &[x]);
            for z in 0..k { let z = if rev { k - 1 - z } else { z }; check(th, &u, &[x, z]); }
        }
    });
    // 3. every ordered triple of the whole alphabet on one warm instance per thread
    c.par(k * k, |th, x| {
        let u = th.u.clone();
        th.states += 1;
        for z in 0..k { for h in [x / k, x % k, z] { let got = norm(th.run_on(&al[h], &u)); th.traces += 1; th.transitions += 1; if got != base[h] { seq(c, &al, &base, &[x / k, x % k, z, h], &got); } } }
    });
    // 4. every ordered pair of territories: the calls of one after the calls of the other
    let m = &c.model;
    let mut ops: Vec<Vec<Call<'static>>> = vec![];
    for t in &m.meta.terrs {
        let r = if t.id == "001" { "ZZ".to_string() } else { t.id.clone() };
        let e = t.types.iter().find_map(|(_, d)| d.example.clone()).unwrap_or("12345678".into());
        let e2 = t.types.iter().filter_map(|(_, d)| d.example.clone()).last().unwrap();
        let n1 = leak_num(Pn::of(t.cc, &e));
        let n2 = leak_num(Pn::of(t.cc, &e2));
        let lr = leak(r);
        ops.push(vec![Parse(leak(e.clone()), lr, true), Parse(leak(format!("+{}{}", t.cc, e2)), lr, true), Parse(leak(format!("{}{}", t.cc, e)), lr, false), Parse(leak(format!("0{}", e)), lr, true),
            Format(n1, Fm::Nat), Format(n2, Fm::Intl), Carrier(n2, "14"), Type(n1), Type(n2), Region(n1), Region(n2), Mobile(n2, lr, false), OutOf(n1, lr), Ndc(n2), Example(lr)]);
    }
    let tn = ops.len();
    let tb: Vec<Vec<Val>> = {
        let out: Vec<std::sync::Mutex<Vec<Val>>> = (0..tn).map(|_| Default::default()).collect();
        c.par(tn, |_, i| { *out[i].lock().unwrap() = ops[i].iter().map(|o| on(o, &PhoneNumberUtil::new())).collect(); });
        out.into_iter().map(|m| m.into_inner().unwrap()).collect()
    };
    c.par(tn * tn, |th, x| {
        th.states += 1;
        let u = th.u.clone();
        for t in [x / tn, x % tn] {
            for (o, b) in ops[t].iter().zip(&tb[t]) {
                let got = norm(th.run_on(o, &u));
                th.traces += 1;
                th.transitions += 1;
                if got != *b { c.violate_seq(vec![ops[x / tn][0].json(), o.json()], b, &got, "another answer after calls for another territory"); }
            }
        }
    });
    // the same, the second territory right after the first on an otherwise unused instance
    let step = if c.thorough { 1 } else { 61 };
    c.par(tn * tn / step, |th, y| {
        let x = y * step;
        th.states += 1;
        let u = PhoneNumberUtil::new();
        for t in [x / tn, x % tn] { for (o, b) in ops[t].iter().zip(&tb[t]) {
            let got = norm(th.run_on(o, &u)); th.traces += 1; th.transitions += 1;
            if got != *b { c.violate_seq(ops[x / tn].iter().map(|o| o.json()).chain([o.json()]).collect(), b, &got, "another answer after calls for another territory"); }
        } }
    });
    // 5. the process-wide instance, with each call as the very first one of its process
    c.par(k, |th, i| {
        th.states += 1;
        th.transitions += k as u64 + 1;
        th.traces += k as u64 + 1;
        let exe = std::env::current_exe().unwrap();
        let out = std::process::Command::new(exe).args(["--first", &i.to_string()]).output().unwrap();
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let want: String = std::iter::once(i).chain(0..k).map(|j| format!("{:?}\n", base[j])).collect();
        if text != want {
            let at = text.lines().zip(want.lines()).position(|(a, b)| a != b);
            let j = match at { Some(0) | None => i, Some(p) => p - 1 };
            c.violate_seq(vec![al[i].json(), al[j].json()], &base[j], &Val::S(text.lines().nth(at.unwrap_or(0)).unwrap_or("no answer").to_string()), "the process-wide instance answers otherwise");
        }
    });
    c.note("alphabet", J::Int(k as i128));
    for i in [0, 7, 40, 77] { c.sample(J::obj(vec![("call", al[i].json()), ("answer", J::s(format!("{:?}", base[i])))])); }
}
/// what a new process answers to this one call
fn alone(o: &Call) -> String {
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["--one", &o.json().dump()]).output().unwrap();
    String::from_utf8_lossy(&out.stdout).trim_end().to_string()
}
pub fn one(text: &str) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let Some(c) = J::parse(text).ok().and_then(|j| Call::from_json(&j)) else { return 3 };
    println!("{:?}", norm(on(&c, &PhoneNumberUtil::new())));
    0
}
pub fn first(i: usize) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let al = alphabet();
    println!("{:?}", on(&al[i], &PHONE_NUMBER_UTIL));
    for c in &al { println!("{:?}", on(c, &PHONE_NUMBER_UTIL)); }
    0
}
