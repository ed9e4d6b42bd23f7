//! Adapter over the library's public API: the system under check.
use crate::meta::Ty;
use crate::model::*;
use rlibphonenumber::{
    CountryCodeSource, ExtractNumberError, MatchType, NotANumberError, NumberLengthType, ParseError, PhoneNumber, PhoneNumberFormat, PhoneNumberType, PhoneNumberUtil, ValidationError,
};

pub fn to_proto(p: &Pn) -> PhoneNumber {
    let mut n = PhoneNumber::new();
    if let Some(c) = p.cc { n.set_country_code(c); }
    if let Some(c) = p.nn { n.set_national_number(c); }
    if let Some(e) = &p.ext { n.set_extension(e.clone()); }
    if let Some(e) = p.ilz { n.set_italian_leading_zero(e); }
    if let Some(e) = p.nlz { n.set_number_of_leading_zeros(e); }
    if let Some(e) = &p.raw { n.set_raw_input(e.clone()); }
    if let Some(e) = &p.carrier { n.set_preferred_domestic_carrier_code(e.clone()); }
    if let Some(SrcW(s)) = p.src {
        n.set_country_code_source(match s {
            Src::Unspecified => CountryCodeSource::UNSPECIFIED,
            Src::Plus => CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN,
            Src::Idd => CountryCodeSource::FROM_NUMBER_WITH_IDD,
            Src::NoPlus => CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN,
            Src::Default => CountryCodeSource::FROM_DEFAULT_COUNTRY,
        });
    }
    n
}
pub fn from_proto(n: &PhoneNumber) -> Pn {
    Pn {
        cc: n.has_country_code().then(|| n.country_code()),
        nn: n.has_national_number().then(|| n.national_number()),
        ext: n.has_extension().then(|| n.extension().to_string()),
        ilz: n.has_italian_leading_zero().then(|| n.italian_leading_zero()),
        nlz: n.has_number_of_leading_zeros().then(|| n.number_of_leading_zeros()),
        raw: n.has_raw_input().then(|| n.raw_input().to_string()),
        src: n.has_country_code_source().then(|| SrcW(match n.country_code_source() {
            CountryCodeSource::UNSPECIFIED => Src::Unspecified,
            CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN => Src::Plus,
            CountryCodeSource::FROM_NUMBER_WITH_IDD => Src::Idd,
            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => Src::NoPlus,
            CountryCodeSource::FROM_DEFAULT_COUNTRY => Src::Default,
        })),
        carrier: n.has_preferred_domestic_carrier_code().then(|| n.preferred_domestic_carrier_code().to_string()),
    }
}
pub fn ty(t: PhoneNumberType) -> Ty {
    match t {
        PhoneNumberType::FixedLine => Ty::Fixed,
        PhoneNumberType::Mobile => Ty::Mobile,
        PhoneNumberType::FixedLineOrMobile => Ty::FixedOrMobile,
        PhoneNumberType::TollFree => Ty::TollFree,
        PhoneNumberType::PremiumRate => Ty::Premium,
        PhoneNumberType::SharedCost => Ty::Shared,
        PhoneNumberType::VoIP => Ty::Voip,
        PhoneNumberType::PersonalNumber => Ty::Personal,
        PhoneNumberType::Pager => Ty::Pager,
        PhoneNumberType::UAN => Ty::Uan,
        PhoneNumberType::VoiceMail => Ty::Voicemail,
        PhoneNumberType::Unknown => Ty::Unknown,
    }
}
pub const ALL_TYPES: [(PhoneNumberType, Ty); 12] = [
    (PhoneNumberType::FixedLine, Ty::Fixed), (PhoneNumberType::Mobile, Ty::Mobile),
    (PhoneNumberType::FixedLineOrMobile, Ty::FixedOrMobile), (PhoneNumberType::TollFree, Ty::TollFree),
    (PhoneNumberType::PremiumRate, Ty::Premium), (PhoneNumberType::SharedCost, Ty::Shared),
    (PhoneNumberType::VoIP, Ty::Voip), (PhoneNumberType::PersonalNumber, Ty::Personal),
    (PhoneNumberType::Pager, Ty::Pager), (PhoneNumberType::UAN, Ty::Uan),
    (PhoneNumberType::VoiceMail, Ty::Voicemail), (PhoneNumberType::Unknown, Ty::Unknown),
];
pub fn fm(f: Fm) -> PhoneNumberFormat {
    match f { Fm::E164 => PhoneNumberFormat::E164, Fm::Intl => PhoneNumberFormat::International, Fm::Nat => PhoneNumberFormat::National, Fm::Rfc => PhoneNumberFormat::RFC3966 }
}
pub fn mt(m: MatchType) -> Mt {
    match m { MatchType::NoMatch => Mt::No, MatchType::ShortNsnMatch => Mt::Short, MatchType::NsnMatch => Mt::Nsn, MatchType::ExactMatch => Mt::Exact }
}
pub fn perr(e: &ParseError) -> PErr {
    match e {
        ParseError::InvalidCountryCode => PErr::InvalidCc,
        ParseError::NotANumber(k) => PErr::NotANumber(match k {
            NotANumberError::NotMatchedValidNumberPattern => Nan::Shape,
            NotANumberError::InvalidPhoneContext => Nan::Context,
            NotANumberError::FailedToParseNumberAsInt(_) => Nan::Int,
            NotANumberError::FailedToExtractNumber(ExtractNumberError::NoValidStartCharacter) => Nan::NoStart,
            NotANumberError::FailedToExtractNumber(ExtractNumberError::NotANumber) => Nan::Empty,
        }),
        ParseError::TooShortAfterIdd => PErr::ShortAfterIdd,
        ParseError::TooShortNsn => PErr::ShortNsn,
        ParseError::TooLongNsn => PErr::LongNsn,
    }
}
pub fn poss(r: Result<NumberLengthType, ValidationError>) -> Poss {
    match r {
        Ok(NumberLengthType::IsPossible) => Poss::Possible,
        Ok(NumberLengthType::IsPossibleLocalOnly) => Poss::LocalOnly,
        Err(ValidationError::InvalidCountryCode) => Poss::BadCc,
        Err(ValidationError::TooShort) => Poss::Short,
        Err(ValidationError::InvalidLength) => Poss::InvalidLen,
        Err(ValidationError::TooLong) => Poss::Long,
    }
}
pub fn parse(u: &PhoneNumberUtil, s: &str, r: &str, keep: bool) -> Parsed {
    let x = if keep { u.parse_and_keep_raw_input(s, r) } else { u.parse(s, r) };
    match x {
        Ok(n) => Ok(from_proto(&n)),
        // an error can always be shown
        Err(e) => { assert!(!e.to_string().is_empty() && !format!("{e:?}").is_empty(), "an error that says nothing"); Err(perr(&e)) }
    }
}
