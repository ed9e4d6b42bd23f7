//! One call of the library's public API, evaluated on the implementation and on
//! the reference model, with a common result type.
use crate::imp;
use crate::json::J;
use crate::meta::Ty;
use crate::model::*;
use rlibphonenumber::{GetExampleNumberError, PhoneNumber, PhoneNumberUtil};

/// A phone number in both representations.
pub struct Num { pub pn: Pn, pub pr: PhoneNumber }
impl Num {
    pub fn new(pn: Pn) -> Num { let pr = imp::to_proto(&pn); Num { pn, pr } }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    S(String), B(bool), U(usize), T(Ty), P(Poss), M(Mt), Parsed(Parsed), Trunc(bool, Pn), Cc(Option<i32>),
    L(Option<Vec<String>>), Ex(Result<Pn, ExErr>),
    Panic(String),
    /// the specification leaves the result open
    Any,
    /// the text is left open, but must be one of these
    OneOf(Vec<String>),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ExErr { Parse, No, CouldNot, Region }

#[derive(Debug, Clone, Copy)]
pub enum Call<'a> {
    Parse(&'a str, &'a str, bool),
    IsAlpha(&'a str), ConvAlpha(&'a str),
    Format(&'a Num, Fm), Carrier(&'a Num, &'a str), OutOf(&'a Num, &'a str), Mobile(&'a Num, &'a str, bool),
    Original(&'a Num, &'a str), KeepAlpha(&'a Num, &'a str),
    Nsn(&'a Num), Type(&'a Num), Region(&'a Num), Valid(&'a Num), ValidFor(&'a Num, &'a str),
    Possible(&'a Num), IsPossible(&'a Num), Intl(&'a Num), Geo(&'a Num), Ndc(&'a Num), Area(&'a Num), Trunc(&'a Num),
    Match(&'a Num, &'a Num),
    CcForRegion(&'a str), RegionForCc(i32), RegionsForCc(i32), Nanpa(&'a str), Supported,
    Example(&'a str), InvalidExample(&'a str), ExampleOf(Ty),
    /// a script of operations on a number object (props/object.rs)
    Object(&'a str), Equal(&'a Num, &'a Num),
}
impl std::fmt::Debug for Num {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.pn) }
}

fn ex(r: Result<PhoneNumber, GetExampleNumberError>) -> Result<Pn, ExErr> {
    match r {
        Ok(n) => Ok(imp::from_proto(&n)),
        Err(GetExampleNumberError::FailedToParse(_)) => Err(ExErr::Parse),
        Err(GetExampleNumberError::NoExampleNumber) => Err(ExErr::No),
        Err(GetExampleNumberError::CouldNotGetNumber) => Err(ExErr::CouldNot),
        Err(GetExampleNumberError::InvalidRegionCode) => Err(ExErr::Region),
    }
}

impl<'a> Call<'a> {
    pub fn imp(&self, u: &PhoneNumberUtil) -> Val {
        use Call::*;
        match *self {
            Parse(s, r, k) => Val::Parsed(imp::parse(u, s, r, k)),
            IsAlpha(s) => Val::B(u.is_alpha_number(s)),
            ConvAlpha(s) => Val::S(u.convert_alpha_characters_in_number(s)),
            Format(n, f) => Val::S(u.format(&n.pr, imp::fm(f)).into_owned()),
            Carrier(n, c) => Val::S(u.format_national_number_with_carrier_code(&n.pr, c)),
            OutOf(n, r) => Val::S(u.format_out_of_country_calling_number(&n.pr, r).into_owned()),
            Mobile(n, r, w) => Val::S(u.format_number_for_mobile_dialing(&n.pr, r, w).into_owned()),
            Original(n, r) => Val::S(u.format_in_original_format(&n.pr, r).into_owned()),
            KeepAlpha(n, r) => Val::S(u.format_out_of_country_keeping_alpha_chars(&n.pr, r).into_owned()),
            Nsn(n) => Val::S(u.get_national_significant_number(&n.pr)),
            Type(n) => Val::T(imp::ty(u.get_number_type(&n.pr))),
            Region(n) => Val::S(u.get_region_code_for_number(&n.pr).to_string()),
            Valid(n) => Val::B(u.is_valid_number(&n.pr)),
            ValidFor(n, r) => Val::B(u.is_valid_number_for_region(&n.pr, r)),
            Possible(n) => Val::P(imp::poss(u.is_possible_number_with_reason(&n.pr))),
            IsPossible(n) => Val::B(u.is_possible_number(&n.pr)),
            Intl(n) => Val::B(u.can_be_internationally_dialled(&n.pr)),
            Geo(n) => Val::B(u.is_number_geographical(&n.pr)),
            Ndc(n) => Val::U(u.get_length_of_national_destination_code(&n.pr)),
            Area(n) => Val::U(u.get_length_of_geographical_area_code(&n.pr)),
            Trunc(n) => { let mut c = n.pr.clone(); let b = u.truncate_too_long_number(&mut c); Val::Trunc(b, imp::from_proto(&c)) }
            Match(a, b) => Val::M(imp::mt(u.is_number_match(&a.pr, &b.pr))),
            CcForRegion(r) => Val::Cc(u.get_country_code_for_region(r)),
            RegionForCc(c) => Val::S(u.get_region_code_for_country_code(c).to_string()),
            RegionsForCc(c) => Val::L(u.get_region_codes_for_country_code(c).map(|i| { let n = i.len(); listed(i, n, false) })),
            Nanpa(r) => Val::B(u.is_nanpa_country(r)),
            Supported => { let it = u.get_supported_regions(); let n = it.len(); Val::L(Some(listed(it, n, true))) }
            Example(r) => Val::Ex(ex(u.get_example_number(r))),
            InvalidExample(r) => Val::Ex(ex(u.get_invalid_example_number(r))),
            Object(t) => Val::S(crate::props::object::on_real(t)),
            Equal(a, b) => Val::B(a.pr == b.pr),
            ExampleOf(t) => Val::Ex(ex(u.get_example_number_for_type(imp::ALL_TYPES.iter().find(|x| x.1 == t).unwrap().0))),
        }
    }
    pub fn model(&self, m: &Model) -> Val {
        use Call::*;
        match *self {
            Parse(s, r, k) => Val::Parsed(m.parse(s, r, k)),
            IsAlpha(s) => Val::B(m.is_alpha(s)),
            ConvAlpha(s) => Val::S(m.convert_alpha(s)),
            Format(n, f) => Val::S(m.format(&n.pn, f)),
            Carrier(n, c) => Val::S(m.format_carrier(&n.pn, c)),
            OutOf(n, r) => Val::S(m.format_out_of_country(&n.pn, r)),
            Mobile(n, r, w) => Val::S(m.format_mobile(&n.pn, r, w)),
            Original(n, r) => Val::S(m.format_original(&n.pn, r)),
            KeepAlpha(n, r) => Val::S(m.format_keep_alpha(&n.pn, r)),
            Nsn(n) => Val::S(m.nsn(&n.pn)),
            Type(n) => Val::T(m.number_type(&n.pn)),
            Region(n) => Val::S(m.region_for_number(&n.pn).to_string()),
            Valid(n) => Val::B(m.valid(&n.pn)),
            ValidFor(n, r) => Val::B(m.valid_for_region(&n.pn, r)),
            Possible(n) => Val::P(m.possible(&n.pn)),
            IsPossible(n) => Val::B(matches!(m.possible(&n.pn), Poss::Possible | Poss::LocalOnly)),
            Intl(n) => Val::B(m.intl_diallable(&n.pn)),
            Geo(n) => Val::B(m.geographical(&n.pn)),
            Ndc(n) => Val::U(m.ndc_len(&n.pn)),
            Area(n) => Val::U(m.area_len(&n.pn)),
            Trunc(n) => { let (b, p) = m.truncate(&n.pn); Val::Trunc(b, p) }
            Match(a, b) => Val::M(m.is_match(&a.pn, &b.pn)),
            CcForRegion(r) => Val::Cc(m.region(r).map(|t| t.cc)),
            RegionForCc(c) => Val::S(m.region_for_cc(c).to_string()),
            RegionsForCc(c) => Val::L(m.regions_of(c).map(|v| v.iter().map(|s| s.to_string()).collect())),
            Nanpa(r) => Val::B(m.is_nanpa(r)),
            Supported => { let mut v: Vec<String> = m.meta.by_region.keys().cloned().collect(); v.sort(); Val::L(Some(v)) }
            Example(r) => Val::Ex(m.example(r)),
            InvalidExample(r) => Val::Ex(m.invalid_example(r)),
            Object(t) => Val::S(crate::props::object::on_model(t)),
            Equal(a, b) => Val::B(a.pn == b.pn),
            ExampleOf(_) => Val::Any,
        }
    }
    pub fn json(&self) -> J {
        use Call::*;
        let s = |o: &str, v: Vec<(&str, J)>| { let mut v = v; v.push(("op", J::s(o))); J::obj(v) };
        match *self {
            Parse(t, r, k) => s("parse", vec![("input", J::s(t)), ("region", J::s(r)), ("keep_raw", J::Bool(k))]),
            IsAlpha(t) => s("is_alpha_number", vec![("input", J::s(t))]),
            ConvAlpha(t) => s("convert_alpha_characters_in_number", vec![("input", J::s(t))]),
            Format(n, f) => s("format", vec![("number", pnj(&n.pn)), ("format", J::s(format!("{:?}", f)))]),
            Carrier(n, c) => s("format_national_number_with_carrier_code", vec![("number", pnj(&n.pn)), ("carrier", J::s(c))]),
            OutOf(n, r) => s("format_out_of_country_calling_number", vec![("number", pnj(&n.pn)), ("region", J::s(r))]),
            Mobile(n, r, w) => s("format_number_for_mobile_dialing", vec![("number", pnj(&n.pn)), ("region", J::s(r)), ("with_formatting", J::Bool(w))]),
            Original(n, r) => s("format_in_original_format", vec![("number", pnj(&n.pn)), ("region", J::s(r))]),
            KeepAlpha(n, r) => s("format_out_of_country_keeping_alpha_chars", vec![("number", pnj(&n.pn)), ("region", J::s(r))]),
            Nsn(n) => s("get_national_significant_number", vec![("number", pnj(&n.pn))]),
            Type(n) => s("get_number_type", vec![("number", pnj(&n.pn))]),
            Region(n) => s("get_region_code_for_number", vec![("number", pnj(&n.pn))]),
            Valid(n) => s("is_valid_number", vec![("number", pnj(&n.pn))]),
            ValidFor(n, r) => s("is_valid_number_for_region", vec![("number", pnj(&n.pn)), ("region", J::s(r))]),
            Possible(n) => s("is_possible_number_with_reason", vec![("number", pnj(&n.pn))]),
            IsPossible(n) => s("is_possible_number", vec![("number", pnj(&n.pn))]),
            Intl(n) => s("can_be_internationally_dialled", vec![("number", pnj(&n.pn))]),
            Geo(n) => s("is_number_geographical", vec![("number", pnj(&n.pn))]),
            Ndc(n) => s("get_length_of_national_destination_code", vec![("number", pnj(&n.pn))]),
            Area(n) => s("get_length_of_geographical_area_code", vec![("number", pnj(&n.pn))]),
            Trunc(n) => s("truncate_too_long_number", vec![("number", pnj(&n.pn))]),
            Match(a, b) => s("is_number_match", vec![("number", pnj(&a.pn)), ("number2", pnj(&b.pn))]),
            CcForRegion(r) => s("get_country_code_for_region", vec![("region", J::s(r))]),
            RegionForCc(c) => s("get_region_code_for_country_code", vec![("cc", J::Int(c as i128))]),
            RegionsForCc(c) => s("get_region_codes_for_country_code", vec![("cc", J::Int(c as i128))]),
            Nanpa(r) => s("is_nanpa_country", vec![("region", J::s(r))]),
            Supported => s("get_supported_regions", vec![]),
            Example(r) => s("get_example_number", vec![("region", J::s(r))]),
            InvalidExample(r) => s("get_invalid_example_number", vec![("region", J::s(r))]),
            Object(t) => s("number_object", vec![("script", J::s(t))]),
            Equal(a, b) => s("equal", vec![("number", pnj(&a.pn)), ("number2", pnj(&b.pn))]),
            ExampleOf(t) => s("get_example_number_for_type", vec![("type", J::s(format!("{:?}", t)))]),
        }
    }
    pub fn from_json(j: &J) -> Option<Call<'static>> {
        use Call::*;
        let st = |k: &str| -> Option<&'static str> { j.get(k).str().map(|s| &*Box::leak(s.to_string().into_boxed_str())) };
        let num = |k: &str| -> Option<&'static Num> { Some(&*Box::leak(Box::new(Num::new(jpn(j.get(k))?)))) };
        Some(match j.get("op").str()? {
            "parse" => Parse(st("input")?, st("region")?, j.get("keep_raw").bool()?),
            "is_alpha_number" => IsAlpha(st("input")?),
            "convert_alpha_characters_in_number" => ConvAlpha(st("input")?),
            "format" => Format(num("number")?, match j.get("format").str()? { "E164" => Fm::E164, "Intl" => Fm::Intl, "Nat" => Fm::Nat, _ => Fm::Rfc }),
            "format_national_number_with_carrier_code" => Carrier(num("number")?, st("carrier")?),
            "format_out_of_country_calling_number" => OutOf(num("number")?, st("region")?),
            "format_number_for_mobile_dialing" => Mobile(num("number")?, st("region")?, j.get("with_formatting").bool()?),
            "format_in_original_format" => Original(num("number")?, st("region")?),
            "format_out_of_country_keeping_alpha_chars" => KeepAlpha(num("number")?, st("region")?),
            "get_national_significant_number" => Nsn(num("number")?),
            "get_number_type" => Type(num("number")?),
            "get_region_code_for_number" => Region(num("number")?),
            "is_valid_number" => Valid(num("number")?),
            "is_valid_number_for_region" => ValidFor(num("number")?, st("region")?),
            "is_possible_number_with_reason" => Possible(num("number")?),
            "is_possible_number" => IsPossible(num("number")?),
            "can_be_internationally_dialled" => Intl(num("number")?),
            "is_number_geographical" => Geo(num("number")?),
            "get_length_of_national_destination_code" => Ndc(num("number")?),
            "get_length_of_geographical_area_code" => Area(num("number")?),
            "truncate_too_long_number" => Trunc(num("number")?),
            "is_number_match" => Match(num("number")?, num("number2")?),
            "get_country_code_for_region" => CcForRegion(st("region")?),
            "get_region_code_for_country_code" => RegionForCc(j.get("cc").int()? as i32),
            "get_region_codes_for_country_code" => RegionsForCc(j.get("cc").int()? as i32),
            "is_nanpa_country" => Nanpa(st("region")?),
            "get_supported_regions" => Supported,
            "get_example_number" => Example(st("region")?),
            "get_invalid_example_number" => InvalidExample(st("region")?),
            "number_object" => Object(st("script")?),
            "equal" => Equal(num("number")?, num("number2")?),
            "get_example_number_for_type" => ExampleOf(imp::ALL_TYPES.iter().find(|x| j.get("type").str() == Some(&format!("{:?}", x.1))).map(|x| x.1)?),
            _ => return None,
        })
    }
}

pub fn pnj(p: &Pn) -> J {
    let mut v = vec![];
    if let Some(x) = p.cc { v.push(("country_code", J::Int(x as i128))); }
    if let Some(x) = p.nn { v.push(("national_number", J::Int(x as i128))); }
    if let Some(x) = &p.ext { v.push(("extension", J::s(x.as_str()))); }
    if let Some(x) = p.ilz { v.push(("italian_leading_zero", J::Bool(x))); }
    if let Some(x) = p.nlz { v.push(("number_of_leading_zeros", J::Int(x as i128))); }
    if let Some(x) = &p.raw { v.push(("raw_input", J::s(x.as_str()))); }
    if let Some(SrcW(x)) = p.src { v.push(("country_code_source", J::s(format!("{:?}", x)))); }
    if let Some(x) = &p.carrier { v.push(("preferred_domestic_carrier_code", J::s(x.as_str()))); }
    J::obj(v)
}
pub fn jpn(j: &J) -> Option<Pn> {
    let s = |k: &str| j.get(k).str().map(|s| s.to_string());
    Some(Pn {
        cc: j.get("country_code").int().map(|x| x as i32), nn: j.get("national_number").int().map(|x| x as u64),
        ext: s("extension"), ilz: j.get("italian_leading_zero").bool(), nlz: j.get("number_of_leading_zeros").int().map(|x| x as i32),
        raw: s("raw_input"), carrier: s("preferred_domestic_carrier_code"),
        src: match j.get("country_code_source").str() {
            None => None, Some("Plus") => Some(SrcW(Src::Plus)), Some("Idd") => Some(SrcW(Src::Idd)), Some("NoPlus") => Some(SrcW(Src::NoPlus)),
            Some("Default") => Some(SrcW(Src::Default)), Some(_) => Some(SrcW(Src::Unspecified)),
        },
    })
}

/// what an iterator gives, with a word more if it announced another length than it had
fn listed<'a>(it: impl Iterator<Item = &'a str>, n: usize, sort: bool) -> Vec<String> {
    let mut v: Vec<String> = it.map(|s| s.to_string()).collect();
    if n != v.len() { v.push(format!("(announced {} items)", n)); }
    if sort { v.sort(); }
    v
}
