//! Costs: the steps a call takes (edges of the control flow and bytes moved, counted by the
//! instrumentation) on texts of a growing length, for every text of a bounded space.
//!   cost <tier> <worker> <workers>      explores a part of the space, a line per finding
//!   cost --replay <length> text <operation> <before> <repeated> <after>
//!   cost --replay <length> zeros <operation> <calling code>
use rlibphonenumber::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
extern "C" { static mut steps: u64; static mut budget: u64; }
type U = PhoneNumberUtil;

fn num(cc: i32, nn: u64) -> PhoneNumber { let mut n = PhoneNumber::new(); n.set_country_code(cc); n.set_national_number(nn); n }
fn us() -> PhoneNumber { num(1, 6502530000) }
fn raw(t: &str, s: CountryCodeSource) -> PhoneNumber { let mut n = us(); n.set_raw_input(t.into()); n.set_country_code_source(s); n }
fn ext(t: &str) -> PhoneNumber { let mut n = us(); n.set_extension(t.into()); n }
fn car(t: &str, cc: i32, nn: u64) -> PhoneNumber { let mut n = num(cc, nn); n.set_preferred_domestic_carrier_code(t.into()); n }
/// 0: the text is parsed or converted; 1: it is a field of a number or another argument
type Op = (&'static str, u8, fn(&U, &str));
const OPS: &[Op] = &[
    ("parse for US", 0, |u, t| { let _ = u.parse(t, "US"); }),
    ("parse for US and keep", 0, |u, t| { let _ = u.parse_and_keep_raw_input(t, "US"); }),
    ("parse for BR and keep", 0, |u, t| { let _ = u.parse_and_keep_raw_input(t, "BR"); }),
    ("parse for no region", 0, |u, t| { let _ = u.parse(t, "ZZ"); }),
    ("is alpha number", 0, |u, t| { u.is_alpha_number(t); }),
    ("convert letters", 0, |u, t| { u.convert_alpha_characters_in_number(t); }),
    ("original format, default region", 1, |u, t| { u.format_in_original_format(&raw(t, CountryCodeSource::FROM_DEFAULT_COUNTRY), "US"); }),
    ("original format, plus", 1, |u, t| { u.format_in_original_format(&raw(t, CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN), "GB"); }),
    ("original format, dialling prefix", 1, |u, t| { u.format_in_original_format(&raw(t, CountryCodeSource::FROM_NUMBER_WITH_IDD), "GB"); }),
    ("original format, no plus", 1, |u, t| { u.format_in_original_format(&raw(t, CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN), "US"); }),
    ("keep letters at home", 1, |u, t| { u.format_out_of_country_keeping_alpha_chars(&raw(t, CountryCodeSource::UNSPECIFIED), "US"); }),
    ("keep letters at home, by its plan", 1, |u, t| { let mut n = num(44, 2079460018); n.set_raw_input(t.to_string()); u.format_out_of_country_keeping_alpha_chars(&n, "GB"); }),
    ("keep letters where there is no dialling prefix", 1, |u, t| { u.format_out_of_country_keeping_alpha_chars(&raw(t, CountryCodeSource::UNSPECIFIED), "ZZ"); }),
    ("keep letters of a number with an extension", 1, |u, t| { let mut n = raw(t, CountryCodeSource::UNSPECIFIED); n.set_extension("12".into()); u.format_out_of_country_keeping_alpha_chars(&n, "GB"); }),
    ("original format by a plan with a national prefix", 1, |u, t| { let mut n = num(44, 2079460018); n.set_raw_input(t.to_string()); n.set_country_code_source(CountryCodeSource::FROM_DEFAULT_COUNTRY); u.format_in_original_format(&n, "GB"); }),
    ("match of another extension", 1, |u, t| { let _ = u.is_number_match(&ext(t), &ext(&format!("{t}1"))); let _ = u.is_number_match(&ext(t), &us()); }),
    ("match with raw input and carrier code", 1, |u, t| { let _ = u.is_number_match(&raw(t, CountryCodeSource::UNSPECIFIED), &car(t, 1, 6502530000)); }),
    ("keep letters abroad", 1, |u, t| { u.format_out_of_country_keeping_alpha_chars(&raw(t, CountryCodeSource::UNSPECIFIED), "GB"); }),
    ("mobile dialling of raw input", 1, |u, t| { let mut n = raw(t, CountryCodeSource::UNSPECIFIED); n.set_country_code(999); u.format_number_for_mobile_dialing(&n, "US", true); }),
    ("format of raw input", 1, |u, t| { let mut n = raw(t, CountryCodeSource::UNSPECIFIED); n.set_national_number(0); u.format(&n, PhoneNumberFormat::National); }),
    ("extension, E.164", 1, |u, t| { u.format(&ext(t), PhoneNumberFormat::E164); }),
    ("extension, international", 1, |u, t| { u.format(&ext(t), PhoneNumberFormat::International); }),
    ("extension, national", 1, |u, t| { u.format(&ext(t), PhoneNumberFormat::National); }),
    ("extension, RFC 3966", 1, |u, t| { u.format(&ext(t), PhoneNumberFormat::RFC3966); }),
    ("extension, out of country", 1, |u, t| { u.format_out_of_country_calling_number(&ext(t), "GB"); }),
    ("extension, mobile dialling", 1, |u, t| { u.format_number_for_mobile_dialing(&ext(t), "US", true); }),
    ("extension, destination code", 1, |u, t| { u.get_length_of_national_destination_code(&ext(t)); }),
    ("extension, area code", 1, |u, t| { u.get_length_of_geographical_area_code(&ext(t)); }),
    ("extension, type", 1, |u, t| { u.get_number_type(&ext(t)); }),
    ("extension, match", 1, |u, t| { let _ = u.is_number_match(&ext(t), &ext(t)); }),
    ("extension, truncate", 1, |u, t| { let mut n = ext(t); n.set_national_number(65025300001234); u.truncate_too_long_number(&mut n); }),
    ("carrier code", 1, |u, t| { u.format_national_number_with_carrier_code(&num(55, 1123456789), t); }),
    ("carrier code of a number, mobile dialling", 1, |u, t| { u.format_number_for_mobile_dialing(&car(t, 55, 11961234567), "BR", true); }),
    ("carrier code of a number, mobile dialling without formatting", 1, |u, t| { u.format_number_for_mobile_dialing(&car(t, 57, 6012345678), "CO", false); }),
    ("region, parse", 1, |u, t| { let _ = u.parse("6502530000", t); }),
    ("region, parse with plus", 1, |u, t| { let _ = u.parse_and_keep_raw_input("+16502530000", t); }),
    ("region, out of country", 1, |u, t| { u.format_out_of_country_calling_number(&us(), t); }),
    ("region, keep letters", 1, |u, t| { u.format_out_of_country_keeping_alpha_chars(&raw("650 253 0000", CountryCodeSource::UNSPECIFIED), t); }),
    ("region, mobile dialling", 1, |u, t| { u.format_number_for_mobile_dialing(&us(), t, true); }),
    ("region, original format", 1, |u, t| { u.format_in_original_format(&raw("650 253 0000", CountryCodeSource::FROM_DEFAULT_COUNTRY), t); }),
    ("region, valid", 1, |u, t| { u.is_valid_number_for_region(&us(), t); }),
    ("region, calling code", 1, |u, t| { u.get_country_code_for_region(t); u.is_nanpa_country(t); }),
    ("region, examples", 1, |u, t| { let _ = u.get_example_number(t); let _ = u.get_invalid_example_number(t); }),
];
/// with a number of some plan behind a growing count of leading zeros
const ZERO_OPS: &[(&str, fn(&U, &PhoneNumber))] = &[
    ("E.164", |u, n| { u.format(n, PhoneNumberFormat::E164); }),
    ("international", |u, n| { u.format(n, PhoneNumberFormat::International); }),
    ("national", |u, n| { u.format(n, PhoneNumberFormat::National); }),
    ("RFC 3966", |u, n| { u.format(n, PhoneNumberFormat::RFC3966); }),
    ("type", |u, n| { u.get_number_type(n); }),
    ("region", |u, n| { u.get_region_code_for_number(n); }),
    ("valid", |u, n| { u.is_valid_number(n); }),
    ("possible", |u, n| { let _ = u.is_possible_number_with_reason(n); }),
    ("national significant number", |u, n| { u.get_national_significant_number(n); }),
    ("geographical", |u, n| { u.is_number_geographical(n); }),
    ("internationally diallable", |u, n| { u.can_be_internationally_dialled(n); }),
    ("destination code", |u, n| { u.get_length_of_national_destination_code(n); }),
    ("area code", |u, n| { u.get_length_of_geographical_area_code(n); }),
    ("carrier code", |u, n| { u.format_national_number_with_carrier_code(n, "15"); }),
    ("out of country", |u, n| { u.format_out_of_country_calling_number(n, "GB"); }),
    ("mobile dialling", |u, n| { u.format_number_for_mobile_dialing(n, "US", true); }),
    ("match", |u, n| { let _ = u.is_number_match(n, &num(n.country_code(), n.national_number())); }),
    ("match of two with zeros", |u, n| { let _ = u.is_number_match(n, n); let mut m = n.clone(); m.set_number_of_leading_zeros(n.number_of_leading_zeros() - 1); let _ = u.is_number_match(n, &m); m.clear_country_code(); let _ = u.is_number_match(&m, n); }),
    ("valid for a region", |u, n| { for r in ["US", "IT", "001"] { u.is_valid_number_for_region(n, r); } }),
    ("original format", |u, n| { for s in [CountryCodeSource::FROM_DEFAULT_COUNTRY, CountryCodeSource::FROM_NUMBER_WITH_IDD, CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN] { let mut m = n.clone(); m.set_country_code_source(s); m.set_raw_input("0 12".into()); u.format_in_original_format(&m, "US"); } }),
    ("keep letters", |u, n| { let mut m = n.clone(); m.set_raw_input("0 12 FLOWERS".into()); u.format_out_of_country_keeping_alpha_chars(&m, "US"); }),
    ("truncate", |u, n| { let mut m = n.clone(); u.truncate_too_long_number(&mut m); }),
];
const CHARS: [&str; 26] = ["1", "0", "7", "a", "x", "M", "+", "\u{FF0B}", "-", " ", "(", ")", ".", "/", "~", ",", ";", "#", "*", "=", ":", "\u{FF10}", "\u{663}", "\u{AD}", "\u{E9}", "\n"];
const LONGER: [&str; 34] = ["tel:", ";ext=", ";ext=1", ";isub=", ";isub=1", ";phone-context=", ";phone-context=+1", ";phone-context=a", "ext", " ext. ", "ext1", "x1 ", "/x1", " / x", "доб", "anexo", "int1", "ｅｘｔ",
    ",,1", ",1#", "#1", "~1", "-a.", "a-1.", "1.a", "(1)", "+1(", "12-", "1 2", "$1", "$FG", "US", "１１", "650 253 0000"];
const FRAMES: [(&str, &str); 14] = [("", ""), ("+1 650 253 0000", ""), ("", "6502530000"), ("650", "2530000"), ("(650) 253-", "0000 x 1"), ("tel:6502530000;phone-context=", ""), ("tel:6502530000;phone-context=+1", ""), ("tel:6502530000;phone-context=a", "b"),
    ("6502530000 ext ", ""), ("6502530000 ext", "12"), ("tel:+16502530000;isub=", ""), ("6502530000 / x", "1"), ("1800 ", " FLOWERS"), ("011", "442079460000")];

fn words(deep: bool) -> Vec<String> {
    let mut v: Vec<String> = CHARS.iter().chain(LONGER.iter()).map(|s| s.to_string()).collect();
    for a in CHARS { for b in CHARS { if a != b { v.push(format!("{a}{b}")); } } }
    if deep { for a in CHARS { for b in CHARS { for c in CHARS { if !(a == b && b == c) { v.push(format!("{a}{b}{c}")); } } } } }
    v
}
fn text(u: &str, v: &str, w: &str, len: usize) -> String { format!("{}{}{}", u, v.repeat(len.div_ceil(v.len())), w) }
/// the call being measured, for the report should it never end
static mut NOW: String = String::new();
/// called by the counter when a call has used up its budget
#[no_mangle]
extern "C" fn over() {
    unsafe {
        budget = u64::MAX;
        println!("V\t{}\tmore than {} steps", *(&raw const NOW), BUDGET);
    }
}
const BUDGET: u64 = 4_000_000_000;
/// steps of a call
fn cost(f: impl Fn()) -> u64 {
    unsafe {
        let a = steps;
        budget = a + BUDGET;
        let _ = catch_unwind(AssertUnwindSafe(f));
        budget = u64::MAX;
        steps - a
    }
}
const SHORT: usize = 1000;
const FACTOR: usize = 4;
/// Four times the length may take six times the steps (a quadratic part that matters makes
/// it sixteen), beyond what a call takes on any text.
const ALLOWED: u64 = 6;
const ANYWAY: u64 = 2000;
fn out_of_proportion(s: u64, l: u64) -> bool { l > ALLOWED * (s + ANYWAY) }
struct Sum { calls: u64, cases: u64, steps: u64, worst: f64, at: String, flat: u64 }
/// None: in proportion. The costs at the short and at the long length are taken after
/// patterns have been compiled and their automata built; a jump is only reported when
/// it goes on at sixteen times the length (a pattern matcher may change its method once).
fn measure(what: &str, short: usize, sum: &mut Sum, f: impl Fn(usize)) -> Option<String> {
    unsafe { *(&raw mut NOW) = what.to_string(); }
    let at = |n: usize| { cost(|| f(n)); cost(|| f(n)) };
    let (s, l) = { cost(|| f(short)); cost(|| f(short * FACTOR)); (cost(|| f(short)), cost(|| f(short * FACTOR))) };
    sum.calls += 4; sum.cases += 1; sum.steps += s + l;
    let r = l as f64 / (s + ANYWAY) as f64;
    if r > sum.worst { sum.worst = r; sum.at = format!("{} ({} steps at {}, {} at {})", what, s, short, l, short * FACTOR); }
    if r < 1.0 { sum.flat += 1; }
    if !out_of_proportion(s, l) { return None; }
    let m = at(short * FACTOR * FACTOR);
    if !out_of_proportion(l, m) { return None; }
    Some(format!("{} steps for {} characters, {} for {}, {} for {}", s, short, l, short * FACTOR, m, short * FACTOR * FACTOR))
}
fn esc(s: &str) -> String { s.escape_default().to_string() }
fn plans(u: &U) -> Vec<(i32, u64)> {
    (1..1000).filter_map(|cc| {
        let r = u.get_regions_first(cc)?;
        Some((cc, u.get_example_number(&r).map(|n| n.national_number()).unwrap_or(123456)))
    }).collect()
}
trait First { fn get_regions_first(&self, cc: i32) -> Option<String>; }
impl First for U { fn get_regions_first(&self, cc: i32) -> Option<String> { self.get_region_codes_for_country_code(cc)?.next().map(|r| r.to_string()) } }
fn zeros(u: &U, k: usize, (cc, nn): (i32, u64), z: usize) {
    let mut n = num(cc, nn);
    n.set_italian_leading_zero(true);
    n.set_number_of_leading_zeros(z as i32);
    ZERO_OPS[k].1(u, &n);
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let u = U::new();
    let mut sum = Sum { calls: 0, cases: 0, steps: 0, worst: 0.0, at: String::new(), flat: 0 };
    if a[0] == "--replay" {
        let short: usize = a[1].parse().unwrap();
        let what = a[2..].join("\t");
        let got = if a[2] == "zeros" {
            let k = ZERO_OPS.iter().position(|o| o.0 == a[3]).expect("operation");
            let p = plans(&u).into_iter().find(|p| p.0.to_string() == a[4]).expect("plan");
            measure(&what, short, &mut sum, |z| zeros(&u, k, p, z))
        } else {
            let op = OPS.iter().find(|o| o.0 == a[3]).expect("operation");
            let (b, v, w) = (unescape(&a[4]), unescape(&a[5]), unescape(&a[6]));
            measure(&what, short, &mut sum, |n| op.2(&u, &text(&b, &v, &w, n)))
        };
        println!("{}", sum.at);
        println!("{}", got.as_deref().unwrap_or("in proportion"));
        std::process::exit(got.is_some() as i32);
    }
    let deep = a[0] == "thorough";
    let (me, of): (usize, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let mut found = 0;
    let mut tell = |what: &str, got: Option<String>| if let Some(g) = got { println!("V\t{}\t{}", what, g); found += 1; if found >= 3 { println!("STOP"); std::process::exit(0); } };
    let lengths: &[usize] = if deep { &[SHORT, 300, 5000] } else { &[SHORT] };
    let words = words(deep);
    for &short in lengths {
        if short != SHORT && deep && words.len() == 0 { break; }
        let many = if short == SHORT { words.len() } else { CHARS.len() + LONGER.len() + CHARS.len() * (CHARS.len() - 1) };
        for (i, v) in words[..many].iter().enumerate() {
            if i % of != me { continue; }
            for (name, kind, op) in OPS {
                let frames = if *kind == 0 { &FRAMES[..] } else { &FRAMES[..5] };
                for (b, w) in frames {
                    let what = format!("{}\ttext\t{}\t{}\t{}\t{}", short, name, esc(b), esc(v), esc(w));
                    let got = measure(&what, short, &mut sum, |n| op(&u, &text(b, v, w, n)));
                    tell(&what, got);
                }
            }
        }
        for (i, p) in plans(&u).into_iter().enumerate() {
            if i % of != me { continue; }
            for k in 0..ZERO_OPS.len() {
                let what = format!("{}\tzeros\t{}\t{}", short, ZERO_OPS[k].0, p.0);
                let got = measure(&what, short, &mut sum, |z| zeros(&u, k, p, z));
                tell(&what, got);
            }
        }
    }
    println!("S\t{}\t{}\t{}\t{:.3}\t{}\t{}", sum.cases, sum.calls, sum.steps, sum.worst, sum.flat, esc(&sum.at.replace('\t', " | ")));
}
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut c = s.chars();
    while let Some(x) = c.next() {
        if x != '\\' { o.push(x); continue; }
        match c.next() {
            Some('u') => { let h: String = c.by_ref().skip(1).take_while(|&x| x != '}').collect(); o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap()); }
            Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some('r') => o.push('\r'),
            Some(x) => o.push(x), None => {}
        }
    }
    o
}
