//! C34: number objects as values – accessors, equality, wire format.
//! A script is run on a real `PhoneNumber` and on a record of eight optional fields; what can
//! be seen of the object afterwards is written out by both and compared.
use super::*;
use crate::imp;
use protobuf::Message;
use rlibphonenumber::{CountryCodeSource, PhoneNumber};

pub const FIELDS: usize = 8;
const INTS: [i32; 12] = [0, 1, -1, 39, 127, 128, 16383, 16384, 1000, i32::MAX, i32::MIN, 2097152];
const NATS: [u64; 12] = [0, 1, 6502530000, 127, 128, 16384, u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX, 10_000_000_000_000_000_000, 99];
const TEXTS: [&str; 6] = ["", "12", "\u{661}\u{10FFFF}\0", "+1 650", "ext. 4", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"];
const SRCS: [(Src, CountryCodeSource, u64); 5] = [
    (Src::Plus, CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN, 1), (Src::Default, CountryCodeSource::FROM_DEFAULT_COUNTRY, 20), (Src::Unspecified, CountryCodeSource::UNSPECIFIED, 0),
    (Src::Idd, CountryCodeSource::FROM_NUMBER_WITH_IDD, 5), (Src::NoPlus, CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN, 10),
];
/// the field's number on the wire (resources/phonenumber.proto of every libphonenumber)
const WIRE: [u64; FIELDS] = [1, 2, 3, 4, 8, 5, 6, 7];
pub fn values(f: usize) -> usize { match f { 0 | 4 => INTS.len(), 1 => NATS.len(), 3 => 2, 6 => SRCS.len(), _ => TEXTS.len() } }

fn m_set(p: &mut Pn, f: usize, v: usize) {
    match f {
        0 => p.cc = Some(INTS[v]), 1 => p.nn = Some(NATS[v]), 2 => p.ext = Some(TEXTS[v].into()), 3 => p.ilz = Some(v == 1), 4 => p.nlz = Some(INTS[v]),
        5 => p.raw = Some(TEXTS[v].into()), 6 => p.src = Some(SrcW(SRCS[v].0)), _ => p.carrier = Some(TEXTS[v].into()),
    }
}
fn m_clear(p: &mut Pn, f: usize) {
    match f { 0 => p.cc = None, 1 => p.nn = None, 2 => p.ext = None, 3 => p.ilz = None, 4 => p.nlz = None, 5 => p.raw = None, 6 => p.src = None, _ => p.carrier = None }
}
fn m_text(p: &mut Pn, f: usize) -> &mut Option<String> { match f { 2 => &mut p.ext, 5 => &mut p.raw, _ => &mut p.carrier } }
fn i_set(n: &mut PhoneNumber, f: usize, v: usize) {
    match f {
        0 => n.set_country_code(INTS[v]), 1 => n.set_national_number(NATS[v]), 2 => n.set_extension(TEXTS[v].into()), 3 => n.set_italian_leading_zero(v == 1), 4 => n.set_number_of_leading_zeros(INTS[v]),
        5 => n.set_raw_input(TEXTS[v].into()), 6 => n.set_country_code_source(SRCS[v].1), _ => n.set_preferred_domestic_carrier_code(TEXTS[v].into()),
    }
}
fn i_clear(n: &mut PhoneNumber, f: usize) {
    match f {
        0 => n.clear_country_code(), 1 => n.clear_national_number(), 2 => n.clear_extension(), 3 => n.clear_italian_leading_zero(), 4 => n.clear_number_of_leading_zeros(),
        5 => n.clear_raw_input(), 6 => n.clear_country_code_source(), _ => n.clear_preferred_domestic_carrier_code(),
    }
}
fn i_mut(n: &mut PhoneNumber, f: usize) -> &mut String { match f { 2 => n.mut_extension(), 5 => n.mut_raw_input(), _ => n.mut_preferred_domestic_carrier_code() } }
fn i_take(n: &mut PhoneNumber, f: usize) -> String { match f { 2 => n.take_extension(), 5 => n.take_raw_input(), _ => n.take_preferred_domestic_carrier_code() } }

pub fn varint(mut x: u64, o: &mut Vec<u8>) { loop { let b = (x & 127) as u8; x >>= 7; if x == 0 { o.push(b); return; } o.push(b | 128); } }
fn wire_text(f: usize, s: &str, o: &mut Vec<u8>) { varint(WIRE[f] << 3 | 2, o); varint(s.len() as u64, o); o.extend(s.as_bytes()); }
/// one field on the wire, by the schema
fn wire_field(p: &Pn, f: usize, o: &mut Vec<u8>) {
    let int = |x: u64, o: &mut Vec<u8>| { varint(WIRE[f] << 3, o); varint(x, o); };
    match f {
        0 => if let Some(x) = p.cc { int(x as i64 as u64, o) }
        1 => if let Some(x) = p.nn { int(x, o) }
        2 => if let Some(s) = &p.ext { wire_text(f, s, o) }
        3 => if let Some(x) = p.ilz { int(x as u64, o) }
        4 => if let Some(x) = p.nlz { int(x as i64 as u64, o) }
        5 => if let Some(s) = &p.raw { wire_text(f, s, o) }
        6 => if let Some(SrcW(x)) = p.src { int(SRCS.iter().find(|s| s.0 == x).unwrap().2, o) }
        _ => if let Some(s) = &p.carrier { wire_text(f, s, o) }
    }
}
pub fn wire(p: &Pn, order: &[usize]) -> Vec<u8> { let mut o = vec![]; for &f in order { wire_field(p, f, &mut o); } o }
/// fields a later version of the schema might add, of every wire type
pub const UNKNOWN: [&[u8]; 5] = [&[0x48, 0x96, 1], &[0x51, 1, 2, 3, 4, 5, 6, 7, 8], &[0x5A, 2, b'h', b'i'], &[0x65, 1, 2, 3, 4], &[0x80, 0x7D, 1]];
/// reads a message of the schema: the last value of a field counts, unknown fields do not matter
fn read(b: &[u8]) -> Option<Pn> {
    let mut p = Pn::default();
    let mut i = 0;
    fn int(b: &[u8], i: &mut usize) -> Option<u64> { let mut x = 0u64; let mut s = 0; loop { let c = *b.get(*i)?; *i += 1; x |= ((c & 127) as u64).checked_shl(s).unwrap_or(0); s += 7; if c < 128 { return Some(x); } } }
    while i < b.len() {
        let t = int(b, &mut i)?;
        let f = WIRE.iter().position(|&w| w == t >> 3);
        match t & 7 {
            0 => { let x = int(b, &mut i)?; match f { Some(0) => p.cc = Some(x as i32), Some(1) => p.nn = Some(x), Some(3) => p.ilz = Some(x != 0), Some(4) => p.nlz = Some(x as i32), Some(6) => p.src = SRCS.iter().find(|s| s.2 == x).map(|s| SrcW(s.0)), None => {} _ => return None } }
            2 => { let l = int(b, &mut i)? as usize; let s = String::from_utf8(b.get(i..i + l)?.to_vec()).ok()?; i += l; match f { Some(f @ (2 | 5 | 7)) => *m_text(&mut p, f) = Some(s), None => {} _ => return None } }
            1 => { i += 8; if f.is_some() { return None; } }
            5 => { i += 4; if f.is_some() { return None; } }
            _ => return None,
        }
        if i > b.len() { return None; }
    }
    Some(p)
}
fn show(p: &Pn) -> String {
    // has, value or default of every field
    format!("{:?} {} {} {:?} {} {} {:?} {} {:?} full={}", p, p.cc(), p.nn(), p.ext(), p.ilz(), p.nlz(), p.raw(), p.src.map_or("Unspecified".into(), |s| format!("{:?}", s.0)), p.carrier(), p.cc.is_some() && p.nn.is_some())
}
fn show_real(n: &PhoneNumber) -> String {
    let s = SRCS.iter().find(|s| s.1 == n.country_code_source()).unwrap().0;
    format!("{:?} {} {} {:?} {} {} {:?} {:?} {:?} full={}", imp::from_proto(n), n.country_code(), n.national_number(), n.extension(), n.italian_leading_zero(), n.number_of_leading_zeros(), n.raw_input(), s, n.preferred_domestic_carrier_code(), n.is_initialized())
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
/// a canonical text of what was written, whatever the order of the fields
fn canon(b: Option<Vec<u8>>) -> String { match b { None => "refused".into(), Some(b) => match read(&b) { None => format!("unreadable {}", hex(&b)), Some(p) => format!("{} bytes {:?}", b.len(), p) } } }

/// Commands: `s<field>.<value>` set, `c<field>` clear, `m<field>` change the text in place,
/// `t<field>` take the text, `k` go on with a clone, `z` clear all, `w` write and read back,
/// `r<hex>` read, `a<hex>` merge.
pub fn on_model(script: &str) -> String {
    let mut p = Pn::default();
    let mut out = String::new();
    for c in script.split_ascii_whitespace() {
        let (op, arg) = c.split_at(1);
        let f = || arg.split('.').next().unwrap().parse::<usize>().unwrap();
        match op {
            "s" => m_set(&mut p, f(), arg[2..].parse().unwrap()),
            "c" => m_clear(&mut p, f()),
            "m" => m_text(&mut p, f()).get_or_insert_with(String::new).push('7'),
            "t" => { let s = m_text(&mut p, f()).take().unwrap_or_default(); out += &format!("took {s:?}; "); }
            "k" => {}
            "z" => p = Pn::default(),
            "w" => out += &format!("{}; ", canon((p.cc.is_some() && p.nn.is_some()).then(|| wire(&p, &[0, 1, 2, 3, 4, 5, 6, 7])))),
            "r" => { p = read(&unhex(arg)).unwrap(); if p.cc.is_none() || p.nn.is_none() { out += "refused; "; p = Pn::default(); } }
            _ => {
                let q = read(&unhex(arg)).unwrap();
                if q.cc.is_some() { p.cc = q.cc; } if q.nn.is_some() { p.nn = q.nn; } if q.ext.is_some() { p.ext = q.ext; } if q.ilz.is_some() { p.ilz = q.ilz; }
                if q.nlz.is_some() { p.nlz = q.nlz; } if q.raw.is_some() { p.raw = q.raw; } if q.src.is_some() { p.src = q.src; } if q.carrier.is_some() { p.carrier = q.carrier; }
            }
        }
    }
    out + &show(&p)
}
pub fn on_real(script: &str) -> String {
    let mut n = PhoneNumber::new();
    let mut out = String::new();
    let mut unknown = false;
    for c in script.split_ascii_whitespace() {
        let (op, arg) = c.split_at(1);
        let f = || arg.split('.').next().unwrap().parse::<usize>().unwrap();
        match op {
            "s" => i_set(&mut n, f(), arg[2..].parse().unwrap()),
            "c" => i_clear(&mut n, f()),
            "m" => i_mut(&mut n, f()).push('7'),
            "t" => { let s = i_take(&mut n, f()); out += &format!("took {s:?}; "); }
            "k" => { let k = n.clone(); assert!(k == n && n == k, "a clone is unequal"); n = k; }
            "z" => { n.clear(); unknown = false; }
            "w" => {
                let b = n.write_to_bytes().ok();
                out += &format!("{}; ", canon(b.clone()));
                if let Some(b) = b { let k = PhoneNumber::parse_from_bytes(&b).unwrap(); assert!(k == n, "what was written is read as something else"); n = k; }
            }
            "r" => { unknown = true; match PhoneNumber::parse_from_bytes(&unhex(arg)) { Ok(k) => n = k, Err(_) => { out += "refused; "; n = PhoneNumber::new(); } } }
            _ => { unknown = true; let mut s = protobuf::CodedInputStream::from_bytes(&[]); let b = unhex(arg); s = { drop(s); protobuf::CodedInputStream::from_bytes(Box::leak(b.into_boxed_slice())) }; n.merge_from(&mut s).unwrap(); }
        }
    }
    if !unknown { assert!(imp::to_proto(&imp::from_proto(&n)) == n, "an object with the same fields is unequal"); }
    assert!(!format!("{n:?}").is_empty());
    out + &show_real(&n)
}

fn state(mut i: usize, per: &[usize; FIELDS]) -> [usize; FIELDS] { let mut s = [0; FIELDS]; for f in 0..FIELDS { s[f] = i % per[f]; i /= per[f]; } s }
fn build(s: &[usize; FIELDS]) -> String { (0..FIELDS).filter(|&f| s[f] > 0).map(|f| format!("s{f}.{} ", s[f])).collect() }
/// value 0 stands for "unset" in a state
fn pn(s: &[usize; FIELDS]) -> Pn { let mut p = Pn::default(); for f in 0..FIELDS { if s[f] > 0 { m_set(&mut p, f, s[f] % values(f)); } } p }

pub fn objects(c: &Ctx) {
    // every state of an object with three (thorough: four) values per field, and every operation on it
    let k = if c.thorough { 4 } else { 3 };
    let mut per = [k; FIELDS];
    per[3] = 3;
    let total: usize = per.iter().product();
    let mut ops: Vec<String> = vec![];
    for f in 0..FIELDS {
        for v in 0..values(f) { ops.push(format!("s{f}.{v}")); }
        ops.push(format!("c{f}"));
        if matches!(f, 2 | 5 | 7) { ops.push(format!("m{f}")); ops.push(format!("t{f}")); }
    }
    for o in ["k", "z", "w", "k w", "w w", "z w"] { ops.push(o.into()); }
    for f in 0..FIELDS { let mut s = [0; FIELDS]; s[f] = 1; ops.push(format!("a{}", hex(&wire(&pn(&s), &[0, 1, 2, 3, 4, 5, 6, 7])))); }
    let chunk = 64;
    c.par(total.div_ceil(chunk), |th, i| {
        for x in i * chunk..((i + 1) * chunk).min(total) {
            th.states += 1;
            let mut s = state(x, &per);
            if s[3] == 2 { s[3] = 1; } // both values of a flag are reached by the operations
            let b = build(&s);
            for o in &ops {
                th.transitions += 1;
                let t = format!("{b}{o}");
                th.diff(Object(&t));
            }
            th.nontrivial += 1;
        }
    });
    c.note("operations_on_every_state", J::Int(ops.len() as i128));
    // equality: every state against every state that differs in at most two fields
    c.par(total.div_ceil(chunk), |th, i| {
        for x in i * chunk..((i + 1) * chunk).min(total) {
            let s = state(x, &per);
            let a = Num::new(pn(&s));
            th.transitions += 1;
            th.diff(Equal(&a, &Num::new(a.pn.clone())));
            for f in 0..FIELDS { for v in 0..per[f] { for g in f..FIELDS { for w in 0..per[g] {
                if (g == f && w != v) || (g > f && (w == s[g] || v == s[f])) { continue; }
                let mut t = s; t[f] = v; t[g] = w;
                if t <= s { continue; }
                let b = Num::new(pn(&t));
                th.transitions += 2;
                th.diff(Equal(&a, &b));
                th.diff(Equal(&b, &a));
            } } } }
        }
    });
    // the wire: every value of every field beside the required ones, in every order of up to
    // four fields, with repeated and unknown fields in every place
    let mut texts: Vec<String> = vec![];
    let full = |extra: &[(usize, usize)]| { let mut p = Pn { cc: Some(39), nn: Some(236618300), ..Default::default() }; for &(f, v) in extra { m_set(&mut p, f, v); } p };
    for f in 0..FIELDS { for v in 0..values(f) {
        let p = full(&[(f, v)]);
        let mut fs = vec![0, 1]; if f > 1 { fs.push(f); }
        for o in perms(&fs) { texts.push(format!("r{} w", hex(&wire(&p, &o)))); for u in UNKNOWN { for at in 0..=o.len() { let mut b = wire(&p, &o[..at]); b.extend(u); b.extend(wire(&p, &o[at..])); texts.push(format!("r{}", hex(&b))); } } }
        for w in 0..values(f) { let q = full(&[(f, w)]); let mut b = wire(&p, &[f]); b.extend(wire(&q, &fs)); texts.push(format!("r{} w", hex(&b))); let mut b = wire(&q, &fs); b.extend(wire(&p, &[f])); texts.push(format!("r{} w", hex(&b))); texts.push(format!("s{f}.{w} r{} a{}", hex(&wire(&q, &fs)), hex(&wire(&p, &[f])))); }
        for g in f + 1..FIELDS { for w in 0..values(g) {
            let p = full(&[(f, v), (g, w)]);
            let mut fs: Vec<usize> = vec![0, 1, f, g]; fs.sort(); fs.dedup();
            for o in perms(&fs) { texts.push(format!("r{} w", hex(&wire(&p, &o)))); }
        } }
    } }
    // without a required field nothing is read or written
    for x in 0..256usize { let s = state(x, &[2; FIELDS]); let b = hex(&wire(&pn(&s), &[0, 1, 2, 3, 4, 5, 6, 7])); texts.push(format!("r{b} w")); texts.push(format!("r{b} a{b} w")); texts.push(format!("{}w", build(&s))); }
    let deep: Vec<Vec<usize>> = perms(&[0, 1, 2, 3, 4, 5, 6, 7]);
    for (i, o) in deep.iter().enumerate() { let mut s = [0; FIELDS]; for f in 0..FIELDS { s[f] = 1 + (i + f) % (values(f) - 1); } texts.push(format!("r{} w k", hex(&wire(&pn(&s), o)))); }
    let chunk = 256;
    c.par(texts.len().div_ceil(chunk), |th, i| for t in &texts[i * chunk..((i + 1) * chunk).min(texts.len())] { th.states += 1; th.transitions += 1; th.diff(Object(t)); });
    // what parsing gives survives being written and read, and answers as before – also with fields of a later version in it
    let ex = examples(&c.model);
    let chunk = 8;
    c.par(ex.len().div_ceil(chunk), |th, i| {
        for (k, (cc, r, e)) in ex[i * chunk..((i + 1) * chunk).min(ex.len())].iter().enumerate() {
            let texts = [e.clone(), format!("+{cc} {e} ext. 12"), format!("tel:+{cc}{e}"), format!("00{cc}{e}")];
            for (j, t) in texts.iter().enumerate() {
                let Val::Parsed(Ok(p)) = th.diff(Parse(t, r, j != 2)) else { continue };
                th.states += 1;
                let mut b = wire(&p, &[7, 6, 5, 4, 3, 2, 1, 0]);
                th.transitions += 1;
                let s = format!("r{} w", hex(&b));
                th.diff(Object(&s));
                b.extend(UNKNOWN[(k + j) % UNKNOWN.len()]);
                let Ok(pr) = PhoneNumber::parse_from_bytes(&b) else { continue };
                let n = Num { pn: p.clone(), pr };
                let plain = Num::new(p);
                th.transitions += 26;
                for f in [Fm::E164, Fm::Intl, Fm::Nat, Fm::Rfc] { th.diff(Format(&n, f)); }
                th.diff(Original(&n, r)); th.diff(Original(&n, "US")); th.diff(KeepAlpha(&n, "FR")); th.diff(OutOf(&n, "GB")); th.diff(Mobile(&n, r, true)); th.diff(Carrier(&n, "15"));
                th.diff(Nsn(&n)); th.diff(Type(&n)); th.diff(Region(&n)); th.diff(Valid(&n)); th.diff(ValidFor(&n, r)); th.diff(Possible(&n)); th.diff(IsPossible(&n)); th.diff(Intl(&n)); th.diff(Geo(&n));
                th.diff(Ndc(&n)); th.diff(Area(&n)); th.diff(Trunc(&n)); th.diff(Match(&n, &n)); th.diff(Match(&n, &plain)); th.diff(Match(&plain, &n));
                th.nontrivial += 1;
            }
        }
    });
}
fn perms(v: &[usize]) -> Vec<Vec<usize>> {
    if v.len() <= 1 { return vec![v.to_vec()]; }
    let mut o = vec![];
    for i in 0..v.len() { let mut r = v.to_vec(); let x = r.remove(i); for mut p in perms(&r) { p.insert(0, x); o.push(p); } }
    o
}
