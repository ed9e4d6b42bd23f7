//! Reference model: executable specification of the library's documented
//! behaviour (the upstream libphonenumber 9.0 rules), over the XML metadata.
use crate::meta::*;
use regex::Regex;
use std::collections::HashMap;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Fm { E164, Intl, Nat, Rfc }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Src { Unspecified, Plus, Idd, NoPlus, Default }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PErr { NotANumber(Nan), InvalidCc, ShortAfterIdd, ShortNsn, LongNsn }
/// why a text is not a number: no number shape, ill-formed context, nothing a number can
/// start with, nothing left of it
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Nan { Shape, Context, NoStart, Empty, Int }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Poss { Possible, LocalOnly, BadCc, Short, InvalidLen, Long }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Mt { No, Short, Nsn, Exact }

#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
pub struct Pn {
    pub cc: Option<i32>,
    pub nn: Option<u64>,
    pub ext: Option<String>,
    pub ilz: Option<bool>,
    pub nlz: Option<i32>,
    pub raw: Option<String>,
    pub src: Option<SrcW>,
    pub carrier: Option<String>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct SrcW(pub Src);

impl Pn {
    pub fn cc(&self) -> i32 { self.cc.unwrap_or(0) }
    pub fn nn(&self) -> u64 { self.nn.unwrap_or(0) }
    pub fn ilz(&self) -> bool { self.ilz.unwrap_or(false) }
    pub fn nlz(&self) -> i32 { self.nlz.unwrap_or(1) }
    pub fn ext(&self) -> &str { self.ext.as_deref().unwrap_or("") }
    pub fn raw(&self) -> &str { self.raw.as_deref().unwrap_or("") }
    pub fn carrier(&self) -> &str { self.carrier.as_deref().unwrap_or("") }
    /// The phone number whose national significant number is the digit string `nsn`
    /// (len <= 19), as parsing would build it.
    pub fn of(cc: i32, nsn: &str) -> Pn {
        let mut p = Pn { cc: Some(cc), nn: Some(nsn.parse().unwrap()), ..Default::default() };
        set_zeros(&mut p, nsn);
        p
    }
}
fn set_zeros(p: &mut Pn, nsn: &str) {
    if nsn.len() > 1 && nsn.starts_with('0') {
        let z = nsn.bytes().take_while(|&b| b == b'0').count().min(nsn.len() - 1);
        p.ilz = Some(true);
        if z > 1 { p.nlz = Some(z as i32); }
    }
}

pub const PUNCT: &str = "-x\u{2010}-\u{2015}\u{2212}\u{30FC}\u{FF0D}-\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.\\[\\]/~\u{2053}\u{223C}";

fn ext_pattern() -> String {
    let d = |n: u32| format!("(\\p{{Nd}}{{1,{}}})", n);
    let sep = "[ \u{00A0}\\t,]*";
    let after = "[:\\.\u{FF0E}]?[ \u{00A0}\\t,-]*";
    let explicit = "(?:e?xt(?:ensi(?:o\u{0301}?|\u{00F3}))?n?|(?:\u{FF45})?\u{FF58}\u{FF54}(?:\u{FF4E})?|\u{0434}\u{043E}\u{0431}|anexo)";
    let amb = "(?:[x\u{FF58}#\u{FF03}~\u{FF5E}]|int|\u{FF49}\u{FF4E}\u{FF54})";
    let sep2 = "[ \u{00A0}\\t]*";
    [
        format!(";ext={}", d(20)),
        format!("{}{}{}{}#?", sep, explicit, after, d(20)),
        format!("{}{}{}{}#?", sep, amb, after, d(9)),
        format!("[- ]+{}#", d(6)),
        format!("{}(?:,{{2}}|;){}{}#?", sep2, after, d(15)),
        format!("{}(?:,)+{}{}#?", sep2, after, d(9)),
    ].join("|")
}

pub struct Model {
    pub meta: Meta,
    viable: Regex,
    ext: Regex,
    second: Regex,
    ctx_num: Regex,
    ctx_dom: Regex,
    seps: Regex,
    pub nd: HashMap<char, u8>,
    starts: Regex,
    trail: Regex,
}

pub fn keypad(c: char) -> Option<char> {
    Some(match c.to_ascii_uppercase() {
        'A'..='C' => '2', 'D'..='F' => '3', 'G'..='I' => '4', 'J'..='L' => '5', 'M'..='O' => '6',
        'P'..='S' => '7', 'T'..='V' => '8', 'W'..='Z' => '9',
        c @ '0'..='9' => c,
        _ => return None,
    })
}
fn grouping(c: char) -> Option<char> {
    Some(match c {
        '0'..='9' | 'A'..='Z' => c,
        'a'..='z' => c.to_ascii_uppercase(),
        '-' | '\u{FF0D}' | '\u{2010}'..='\u{2015}' | '\u{2212}' => '-',
        '/' | '\u{FF0F}' => '/',
        ' ' | '\u{3000}' | '\u{2060}' => ' ',
        '.' | '\u{FF0E}' => '.',
        _ => return None,
    })
}
pub fn is_plus(c: char) -> bool { c == '+' || c == '\u{FF0B}' }
pub fn diallable(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_digit() || matches!(c, '+' | '*' | '#')).collect()
}

/// Substitute $1..$9 in a format template.
fn subst(tpl: &str, s: &str, caps: &[Option<(usize, usize)>]) -> String {
    let b: Vec<char> = tpl.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '$' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
            let g = b[i + 1] as usize - '0' as usize;
            if let Some(Some((x, y))) = caps.get(g) { out.push_str(&s[*x..*y]); }
            i += 2;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}
fn replace_first_group(tpl: &str, rule: &str) -> String {
    let b = tpl.as_bytes();
    for i in 0..b.len().saturating_sub(1) {
        if b[i] == b'$' && b[i + 1].is_ascii_digit() {
            let rule = rule.replacen("$1", &tpl[i..i + 2], 1);
            return format!("{}{}{}", &tpl[..i], rule, &tpl[i + 2..]);
        }
    }
    tpl.to_string()
}

pub type Parsed = Result<Pn, PErr>;

impl Model {
    pub fn new(xml: &str) -> Model {
        let meta = load(xml);
        let viable = format!(
            "(?i)^(?:\\p{{Nd}}{{2}}|[+\u{FF0B}]*(?:[{p}*]*\\p{{Nd}}){{3,}}[{p}*a-z\\p{{Nd}}]*)(?:{e})?$",
            p = PUNCT, e = ext_pattern());
        let r = |s: &str| Regex::new(s).unwrap();
        let ndre = r("^\\p{Nd}$");
        let mut buf = [0u8; 4];
        let nds: Vec<u32> = (0..=0x10FFFFu32).filter(|&c| char::from_u32(c).map_or(false, |c| ndre.is_match(c.encode_utf8(&mut buf)))).collect();
        let mut nd = HashMap::new();
        // Unicode: decimal digits come in contiguous ascending runs of ten
        let mut i = 0;
        while i < nds.len() {
            let base = nds[i];
            for k in 0..10u32 {
                assert!(nds.get(i + k as usize) == Some(&(base + k)), "Nd run at {:x}", base);
                nd.insert(char::from_u32(base + k).unwrap(), k as u8);
            }
            i += 10;
        }
        let a = "A-Za-z\\p{Nd}";
        Model {
            meta,
            viable: r(&viable),
            ext: r(&format!("(?i)(?:{})$", ext_pattern())),
            second: r(r"(.*)[\\/] *x"),
            ctx_num: r("^\\+[-.()\\p{Nd}]*\\p{Nd}[-.()\\p{Nd}]*$"),
            ctx_dom: r(&format!("^(?:[{a}](?:[-{a}]*[{a}])?\\.)*[A-Za-z](?:[-{a}]*[{a}])?\\.?$")),
            seps: r(&format!("[{}]+", PUNCT)),
            nd,
            starts: r("[+\u{FF0B}\\p{Nd}]"),
            trail: r("[\\p{N}\\p{L}#]"),
        }
    }

    // ---------- metadata lookups ----------
    pub fn regions_of(&self, cc: i32) -> Option<Vec<&str>> {
        self.meta.by_cc.get(&cc).map(|v| v.iter().map(|&i| self.meta.terrs[i].id.as_str()).collect())
    }
    pub fn region_for_cc(&self, cc: i32) -> &str {
        self.meta.by_cc.get(&cc).map(|v| self.meta.terrs[v[0]].id.as_str()).unwrap_or("ZZ")
    }
    pub fn region(&self, r: &str) -> Option<&Terr> { self.meta.by_region.get(r).map(|&i| &self.meta.terrs[i]) }
    pub fn region_or_cc(&self, cc: i32, r: &str) -> Option<&Terr> {
        if r == "001" { self.meta.nongeo.get(&cc).map(|&i| &self.meta.terrs[i]) } else { self.region(r) }
    }
    pub fn main_terr(&self, cc: i32) -> Option<&Terr> { self.meta.by_cc.get(&cc).map(|v| &self.meta.terrs[v[0]]) }
    pub fn is_nanpa(&self, r: &str) -> bool { self.region(r).map_or(false, |t| t.cc == 1) }

    // ---------- number queries ----------
    pub fn nsn(&self, p: &Pn) -> String {
        let mut s = String::new();
        if p.ilz() { for _ in 0..p.nlz().max(0) { s.push('0'); } }
        s.push_str(&p.nn().to_string());
        s
    }
    fn desc_matches(&self, n: &str, d: &Desc) -> bool {
        (d.lens.is_empty() || d.lens.contains(&(n.len() as i32))) && d.pat.as_ref().map_or(false, |p| p.full.accepts(n))
    }
    pub fn type_in(&self, n: &str, t: &Terr) -> Ty {
        if !self.desc_matches(n, &t.general) { return Ty::Unknown; }
        let is = |ty: Ty| t.ty(ty).map_or(false, |d| self.desc_matches(n, d));
        for ty in [Ty::Premium, Ty::TollFree, Ty::Shared, Ty::Voip, Ty::Personal, Ty::Pager, Ty::Uan, Ty::Voicemail] {
            if is(ty) { return ty; }
        }
        if is(Ty::Fixed) {
            if t.same_mobile_fixed || is(Ty::Mobile) { return Ty::FixedOrMobile; }
            return Ty::Fixed;
        }
        if !t.same_mobile_fixed && is(Ty::Mobile) { return Ty::Mobile; }
        Ty::Unknown
    }
    pub fn region_for_number(&self, p: &Pn) -> &str {
        let Some(v) = self.meta.by_cc.get(&p.cc()) else { return "ZZ" };
        if v.len() == 1 { return &self.meta.terrs[v[0]].id; }
        let n = self.nsn(p);
        for &i in v {
            let t = &self.meta.terrs[i];
            match &t.leading {
                Some(l) => if l.pre.accepts(&n) { return &t.id },
                None => if self.type_in(&n, t) != Ty::Unknown { return &t.id },
            }
        }
        "ZZ"
    }
    pub fn number_type(&self, p: &Pn) -> Ty {
        match self.region_or_cc(p.cc(), self.region_for_number(p)) {
            None => Ty::Unknown,
            Some(t) => self.type_in(&self.nsn(p), t),
        }
    }
    pub fn valid_for_region(&self, p: &Pn, r: &str) -> bool {
        match self.region_or_cc(p.cc(), r) {
            Some(t) if t.cc == p.cc() => self.type_in(&self.nsn(p), t) != Ty::Unknown,
            _ => false,
        }
    }
    pub fn valid(&self, p: &Pn) -> bool { self.valid_for_region(p, self.region_for_number(p)) }
    fn length_class(&self, len: usize, t: &Terr) -> Poss {
        let l = len as i32;
        let g = &t.general;
        if g.lens.is_empty() { return Poss::InvalidLen; }
        if g.local.contains(&l) { return Poss::LocalOnly; }
        if g.lens.contains(&l) { return Poss::Possible; }
        if l < g.lens[0] { Poss::Short } else if l > *g.lens.last().unwrap() { Poss::Long } else { Poss::InvalidLen }
    }
    pub fn possible(&self, p: &Pn) -> Poss {
        match self.main_terr(p.cc()) {
            None => Poss::BadCc,
            Some(t) => self.length_class(self.nsn(p).len(), t),
        }
    }
    pub fn intl_diallable(&self, p: &Pn) -> bool {
        match self.region(self.region_for_number(p)) {
            None => true,
            Some(t) => !t.noint.as_ref().map_or(false, |d| self.desc_matches(&self.nsn(p), d)),
        }
    }
    pub fn geographical_ty(&self, ty: Ty, cc: i32) -> bool {
        matches!(ty, Ty::Fixed | Ty::FixedOrMobile) || (ty == Ty::Mobile && [52, 54, 55, 62, 86].contains(&cc))
    }
    pub fn geographical(&self, p: &Pn) -> bool { self.geographical_ty(self.number_type(p), p.cc()) }
    pub fn ndc_len(&self, p: &Pn) -> usize {
        let mut q = p.clone();
        q.ext = None;
        let f = self.format(&q, Fm::Intl);
        // maximal runs of decimal digits (any script)
        let mut groups: Vec<usize> = vec![];
        let mut cur = 0usize;
        for c in f.chars() {
            if self.nd.contains_key(&c) { cur += c.len_utf8(); } else if cur > 0 { groups.push(cur); cur = 0; }
        }
        if cur > 0 { groups.push(cur); }
        if groups.len() < 3 { return 0; }
        if self.number_type(p) == Ty::Mobile && p.cc() == 54 { return groups[2] + 1; }
        groups[1]
    }
    pub fn area_len(&self, p: &Pn) -> usize {
        let Some(t) = self.region(self.region_for_number(p)) else { return 0 };
        let ty = self.number_type(p);
        if t.np.is_none() && !p.ilz() && p.cc() != 52 { return 0; }
        if ty == Ty::Mobile && p.cc() == 86 { return 0; }
        if !self.geographical_ty(ty, p.cc()) { return 0; }
        self.ndc_len(p)
    }
    /// (result, resulting number)
    pub fn truncate(&self, p: &Pn) -> (bool, Pn) {
        if self.valid(p) { return (true, p.clone()); }
        let mut q = p.clone();
        let mut n = p.nn();
        loop {
            n /= 10;
            q.nn = Some(n);
            if n == 0 || self.possible(&q) == Poss::Short { return (false, p.clone()); }
            if self.valid(&q) { return (true, q); }
        }
    }

    // ---------- formatting ----------
    pub fn choose<'a>(&self, fs: &'a [Fmt], n: &str) -> Option<&'a Fmt> {
        fs.iter().find(|f| f.lead.as_ref().map_or(true, |l| l.pre.accepts(n)) && f.pat.full.accepts(n))
    }
    fn apply(&self, n: &str, f: &Fmt, fm: Fm, carrier: &str, np_rule: &str) -> String {
        let mut tpl = f.format.clone();
        if fm == Fm::Nat && !carrier.is_empty() && !f.cc_rule.is_empty() {
            // substitute the carrier last so that its text is never reinterpreted
            let rule = f.cc_rule.replacen("$CC", "\u{1}", 1);
            tpl = replace_first_group(&tpl, &rule);
        } else if fm == Fm::Nat && !np_rule.is_empty() {
            tpl = replace_first_group(&tpl, np_rule);
        }
        let caps = f.pat.rx.match_full(n).expect("chosen format matches");
        let mut out = subst(&tpl, n, &caps);
        if out.contains('\u{1}') { out = out.replace('\u{1}', carrier); }
        if fm == Fm::Rfc { out = self.rfc_seps(&out); }
        out
    }
    fn rfc_seps(&self, s: &str) -> String {
        let s = match self.seps.find(s) { Some(m) if m.start() == 0 => &s[m.end()..], _ => s };
        self.seps.replace_all(s, "-").into_owned()
    }
    pub fn format_nsn(&self, n: &str, t: &Terr, fm: Fm, carrier: &str) -> String {
        let fs = if t.intl.is_empty() || fm == Fm::Nat { &t.formats } else { &t.intl };
        match self.choose(fs, n) { None => n.to_string(), Some(f) => self.apply(n, f, fm, carrier, &f.np_rule) }
    }
    fn ext_text(&self, p: &Pn, t: &Terr, fm: Fm) -> String {
        if p.ext().is_empty() { return String::new(); }
        let pre = if fm == Fm::Rfc { ";ext=" } else { t.ext_prefix.as_deref().unwrap_or(" ext. ") };
        format!("{}{}", pre, p.ext())
    }
    fn with_cc(&self, cc: i32, fm: Fm, s: String) -> String {
        match fm {
            Fm::E164 => format!("+{}{}", cc, s),
            Fm::Intl => format!("+{} {}", cc, s),
            Fm::Rfc => format!("tel:+{}-{}", cc, s),
            Fm::Nat => s,
        }
    }
    pub fn format(&self, p: &Pn, fm: Fm) -> String {
        if p.nn() == 0 && !p.raw().is_empty() { return p.raw().to_string(); }
        let n = self.nsn(p);
        if fm == Fm::E164 { return self.with_cc(p.cc(), fm, n); }
        match self.main_terr(p.cc()) {
            None => n,
            Some(t) => {
                let s = self.format_nsn(&n, t, fm, "") + &self.ext_text(p, t, fm);
                self.with_cc(p.cc(), fm, s)
            }
        }
    }
    pub fn format_carrier(&self, p: &Pn, carrier: &str) -> String {
        let n = self.nsn(p);
        match self.main_terr(p.cc()) {
            None => n,
            Some(t) => self.format_nsn(&n, t, Fm::Nat, carrier) + &self.ext_text(p, t, Fm::Nat),
        }
    }
    fn single_idd(&self, s: &str) -> bool {
        // digits, optionally one tone-waiting tilde followed by more digits
        let t: Vec<&str> = s.split(|c| matches!(c, '~' | '\u{2053}' | '\u{223C}' | '\u{FF5E}')).collect();
        t.len() <= 2 && t.iter().all(|x| !x.is_empty() && x.chars().all(|c| self.nd.contains_key(&c)))
    }
    pub fn format_out_of_country(&self, p: &Pn, from: &str) -> String {
        let Some(tf) = self.region(from) else { return self.format(p, Fm::Intl) };
        let cc = p.cc();
        let n = self.nsn(p);
        let Some(t) = self.main_terr(cc) else { return n };
        if cc == 1 {
            if self.is_nanpa(from) { return format!("1 {}", self.format(p, Fm::Nat)); }
        } else if cc == tf.cc {
            return self.format(p, Fm::Nat);
        }
        let idd = match &tf.pref_idd { Some(x) => x.as_str(), None => if self.single_idd(&tf.idd) { &tf.idd } else { "" } };
        let s = self.format_nsn(&n, t, Fm::Intl, "") + &self.ext_text(p, t, Fm::Intl);
        if idd.is_empty() { self.with_cc(cc, Fm::Intl, s) } else { format!("{} {} {}", idd, cc, s) }
    }
    pub fn format_mobile(&self, p: &Pn, from: &str, with_formatting: bool) -> String {
        let cc = p.cc();
        let Some(_) = self.main_terr(cc) else { return p.raw().to_string() };
        let mut q = p.clone();
        q.ext = None;
        let region = self.region_for_cc(cc).to_string();
        let ty = self.number_type(&q);
        let fl_mob = matches!(ty, Ty::Fixed | Ty::Mobile | Ty::FixedOrMobile);
        let out = if from == region {
            if region == "BR" && fl_mob {
                if q.carrier().is_empty() { String::new() } else { self.format_carrier(&q, q.carrier()) }
            } else if cc == 1 {
                let t = self.region(from).unwrap();
                if self.intl_diallable(&q) && self.length_class(self.nsn(&q).len(), t) != Poss::Short {
                    self.format(&q, Fm::Intl)
                } else {
                    self.format(&q, Fm::Nat)
                }
            } else if (region == "001" || (["MX", "CL", "UZ"].contains(&region.as_str()) && fl_mob)) && self.intl_diallable(&q) {
                self.format(&q, Fm::Intl)
            } else {
                self.format(&q, Fm::Nat)
            }
        } else if ty != Ty::Unknown && self.intl_diallable(&q) {
            return self.format(&q, if with_formatting { Fm::Intl } else { Fm::E164 });
        } else {
            String::new()
        };
        if with_formatting { out } else { diallable(&out) }
    }
    pub fn normalize_digits(&self, s: &str) -> String {
        s.chars().filter_map(|c| self.nd.get(&c).map(|d| (b'0' + d) as char)).collect()
    }
    pub fn format_original(&self, p: &Pn, from: &str) -> String {
        let n = self.nsn(p);
        let has_fmt = self.main_terr(p.cc()).map_or(false, |t| self.choose(&t.formats, &n).is_some());
        if p.raw.is_some() && !has_fmt { return p.raw().to_string(); }
        let Some(SrcW(src)) = p.src else { return self.format(p, Fm::Nat) };
        let out = match src {
            Src::Plus => self.format(p, Fm::Intl),
            Src::Idd => self.format_out_of_country(p, from),
            Src::NoPlus => {
                let f = self.format(p, Fm::Intl);
                f.chars().skip(1).collect()
            }
            Src::Default | Src::Unspecified => {
                let region = self.region_for_cc(p.cc()).to_string();
                match self.region(&region) {
                    None => self.format(p, Fm::Nat),
                    Some(t) => {
                        let np: String = t.np.clone().unwrap_or_default().replace('~', "");
                        let digits = self.normalize_digits(p.raw());
                        let had_prefix = digits.starts_with(&np)
                            && self.parse(&digits[np.len()..], &region, false).map_or(false, |q| self.valid(&q));
                        let f = self.choose(&t.formats, &n);
                        let plain = match f {
                            None => true,
                            Some(f) => f.np_rule.is_empty() || match f.np_rule.find("$1") {
                                None => true,
                                Some(i) => self.normalize_digits(&f.np_rule[..i]).is_empty(),
                            },
                        };
                        if np.is_empty() && false { unreachable!() }
                        if had_prefix || plain { self.format(p, Fm::Nat) } else {
                            let f = f.unwrap();
                            self.apply(&n, f, Fm::Nat, "", "") + &self.ext_text(p, t, Fm::Nat)
                        }
                    }
                }
            }
        };
        if !out.is_empty() && !p.raw().is_empty() && diallable(&out) != diallable(p.raw()) { return p.raw().to_string(); }
        out
    }
    pub fn format_keep_alpha(&self, p: &Pn, from: &str) -> String {
        if p.raw().is_empty() { return self.format_out_of_country(p, from); }
        let cc = p.cc();
        let Some(t) = self.main_terr(cc) else { return p.raw().to_string() };
        let mut raw: String = p.raw().chars().filter_map(grouping).collect();
        let n = self.nsn(p);
        if n.len() > 3 {
            if let Some(i) = raw.find(&n[..3]) { raw = raw[i..].to_string(); }
        }
        let tf = self.region(from);
        if cc == 1 {
            if self.is_nanpa(from) { return format!("1 {}", raw); }
        } else if let Some(tf) = tf.filter(|t| t.cc == cc) {
            let Some(f) = self.choose(&tf.formats, &n) else { return raw };
            // prefix the first run of digits as the national-prefix rule says
            let Some(i) = raw.find(|c: char| c.is_ascii_digit()) else { return raw };
            let rest = &raw[i..];
            let e = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
            let first = if f.np_rule.is_empty() { rest[..e].to_string() } else { f.np_rule.replacen("$1", &rest[..e], 1) };
            return format!("{}{}{}", &raw[..i], first, &rest[e..]);
        }
        let idd = tf.map(|t| if self.single_idd(&t.idd) { t.idd.clone() } else { t.pref_idd.clone().unwrap_or_default() }).unwrap_or_default();
        let s = if idd.is_empty() { format!("+{} {}", cc, raw) } else { format!("{} {} {}", idd, cc, raw) };
        let (s, _) = self.strip_ext(&s);
        format!("{}{}", s, self.ext_text(p, t, Fm::Intl))
    }

    // ---------- parsing ----------
    pub fn viable(&self, s: &str) -> bool { s.len() >= 2 && self.viable.is_match(s) }
    pub fn strip_ext<'a>(&self, s: &'a str) -> (&'a str, Option<&'a str>) {
        if let Some(c) = self.ext.captures(s) {
            let head = &s[..c.get(0).unwrap().start()];
            if self.viable(head) {
                if let Some(g) = c.iter().skip(1).flatten().find(|m| !m.is_empty()) { return (head, Some(g.as_str())); }
            }
        }
        (s, None)
    }
    pub fn context_valid(&self, c: &str) -> bool { self.ctx_num.is_match(c) || self.ctx_dom.is_match(c) }
    fn candidate(&self, s: &str) -> Result<String, PErr> {
        let mut out = String::new();
        if let Some(i) = s.find(";phone-context=") {
            let rest = &s[i + 15..];
            let ctx = &rest[..rest.find(';').unwrap_or(rest.len())];
            if !self.context_valid(ctx) { return Err(PErr::NotANumber(Nan::Context)); }
            if ctx.starts_with('+') { out.push_str(ctx); }
            let before = &s[..i];
            out.push_str(match before.find("tel:") { Some(k) => &before[k + 4..], None => before });
        } else {
            let m = self.starts.find(s).ok_or(PErr::NotANumber(Nan::NoStart))?;
            let s = &s[m.start()..];
            let mut end = s.len();
            for c in s.chars().rev() {
                let mut b = [0u8; 4];
                if self.trail.is_match(c.encode_utf8(&mut b)) { break; }
                end -= c.len_utf8();
            }
            let s = &s[..end];
            if s.is_empty() { return Err(PErr::NotANumber(Nan::Empty)); }
            out.push_str(self.second.captures(s).map_or(s, |c| c.get(1).unwrap().as_str()));
        }
        if let Some(i) = out.find(";isub=") { out.truncate(i); }
        Ok(out)
    }
    pub fn normalize(&self, s: &str) -> String {
        // three or more ASCII letters on one line make it a vanity number
        let alpha = s.split('\n').any(|l| l.chars().filter(|c| c.is_ascii_alphabetic()).count() >= 3);
        if alpha { s.chars().filter_map(keypad).collect() } else { self.normalize_digits(s) }
    }
    pub fn strip_np(&self, n: &str, t: &Terr) -> (String, Option<String>) {
        let keep = (n.to_string(), None);
        let Some(p) = &t.np_parse else { return keep };
        if n.is_empty() { return keep; }
        let Some(c) = p.rx.match_start(n) else { return keep };
        let general = |s: &str| t.general.pat.as_ref().map_or(false, |p| p.full.accepts(s));
        let was = general(n);
        let end = c[0].unwrap().1;
        let g = p.rx.groups;
        let last = if g > 0 { c[g] } else { None };
        let grp1 = if g > 0 { c[1].map(|(a, b)| n[a..b].to_string()) } else { None };
        let (res, carrier) = match (&t.np_transform, last) {
            (Some(rule), Some((a, b))) if b > a => {
                (subst(rule, n, &c) + &n[end..], if g > 1 { grp1 } else { None })
            }
            _ => (n[end..].to_string(), grp1),
        };
        if was && !general(&res) { return keep; }
        (res, carrier.filter(|c| !c.is_empty()))
    }
    /// Ok((cc, remaining digits, source))
    fn extract_cc(&self, s: &str, def: Option<&Terr>) -> Result<(i32, String, Src), PErr> {
        let (num, src) = if s.starts_with(is_plus) {
            (self.normalize(s.trim_start_matches(is_plus)), Src::Plus)
        } else {
            let n = self.normalize(s);
            let m = def.and_then(|t| t.idd_pat.as_ref()).and_then(|p| p.rx.match_start(&n)).map(|c| c[0].unwrap().1);
            match m {
                Some(e) if !n[e..].starts_with('0') => (n[e..].to_string(), Src::Idd),
                _ => (n, Src::Default),
            }
        };
        if src != Src::Default {
            if num.len() <= 2 { return Err(PErr::ShortAfterIdd); }
            if num.starts_with('0') { return Err(PErr::InvalidCc); }
            for k in 1..=3 {
                let c: i32 = num[..k].parse().unwrap();
                if self.meta.by_cc.contains_key(&c) { return Ok((c, num[k..].to_string(), src)); }
            }
            return Err(PErr::InvalidCc);
        }
        if let Some(t) = def {
            if let Some(rest) = num.strip_prefix(&t.cc.to_string()) {
                let general = |s: &str| t.general.pat.as_ref().map_or(false, |p| p.full.accepts(s));
                let (stripped, _) = self.strip_np(rest, t);
                if (!general(&num) && general(&stripped)) || self.length_class(num.len(), t) == Poss::Long {
                    return Ok((t.cc, stripped, Src::NoPlus));
                }
            }
        }
        Ok((0, num, Src::Default))
    }
    pub fn parse(&self, input: &str, region: &str, keep: bool) -> Parsed {
        let s = self.candidate(input)?;
        if !self.viable(&s) { return Err(PErr::NotANumber(Nan::Shape)); }
        let def = self.region(region);
        if def.is_none() && !s.starts_with(is_plus) { return Err(PErr::InvalidCc); }
        let (body, ext) = self.strip_ext(&s);
        let (cc, num, src) = match self.extract_cc(body, def) {
            Ok(x) => x,
            Err(PErr::InvalidCc) if body.starts_with(is_plus) => {
                let x = self.extract_cc(body.trim_start_matches(is_plus), def)?;
                if x.0 == 0 { return Err(PErr::InvalidCc); }
                x
            }
            Err(e) => return Err(e),
        };
        let (terr, cc_out) = if cc != 0 { (self.main_terr(cc), cc) } else { (def, def.map_or(0, |t| t.cc)) };
        // a region given explicitly keeps its own rules when it is the main region of the code
        let mut n = num;
        if n.len() < 2 { return Err(PErr::ShortNsn); }
        let mut carrier = None;
        if let Some(t) = terr {
            let (stripped, c) = self.strip_np(&n, t);
            if !matches!(self.length_class(stripped.len(), t), Poss::Short | Poss::LocalOnly | Poss::InvalidLen) {
                n = stripped;
                carrier = c;
            }
        }
        if n.len() < 2 { return Err(PErr::ShortNsn); }
        if n.len() > 17 { return Err(PErr::LongNsn); }
        let mut p = Pn { cc: Some(cc_out), nn: Some(n.parse().unwrap()), ext: ext.map(|s| s.to_string()), ..Default::default() };
        set_zeros(&mut p, &n);
        if keep {
            p.raw = Some(input.to_string());
            p.src = Some(SrcW(src));
            p.carrier = carrier;
        }
        Ok(p)
    }

    // ---------- examples ----------
    pub fn example(&self, r: &str) -> Result<Pn, crate::val::ExErr> {
        use crate::val::ExErr;
        let t = self.region(r).ok_or(ExErr::Region)?;
        match t.ty(Ty::Fixed).and_then(|d| d.example.as_ref()) {
            None => Err(ExErr::CouldNot),
            Some(e) => self.parse(e, r, false).map_err(|_| ExErr::Parse),
        }
    }
    pub fn invalid_example(&self, r: &str) -> Result<Pn, crate::val::ExErr> {
        use crate::val::ExErr;
        let t = self.region(r).ok_or(ExErr::Region)?;
        let e = t.ty(Ty::Fixed).and_then(|d| d.example.as_ref()).ok_or(ExErr::No)?;
        for l in (2..e.len()).rev() {
            if let Ok(p) = self.parse(&e[..l], r, false) {
                if !self.valid(&p) { return Ok(p); }
            }
        }
        Err(ExErr::CouldNot)
    }

    // ---------- matching ----------
    pub fn is_match(&self, a: &Pn, b: &Pn) -> Mt {
        let (ea, eb) = (a.ext(), b.ext());
        if a.ext.is_some() && b.ext.is_some() && ea != eb { return Mt::No; }
        let zeros = |p: &Pn| if p.ilz() { p.nlz() } else { 0 };
        let same = a.nn() == b.nn() && ea == eb && a.ilz() == b.ilz() && zeros(a) == zeros(b);
        let (sa, sb) = (a.nn().to_string(), b.nn().to_string());
        let suffix = sa.ends_with(&sb) || sb.ends_with(&sa);
        if a.cc() != 0 && b.cc() != 0 {
            if a.cc() != b.cc() { return Mt::No; }
            return if same { Mt::Exact } else if suffix { Mt::Short } else { Mt::No };
        }
        if same { Mt::Nsn } else if suffix { Mt::Short } else { Mt::No }
    }
    pub fn is_alpha(&self, s: &str) -> bool {
        if !self.viable(s) { return false; }
        let (n, _) = self.strip_ext(s);
        n.chars().filter(|c| c.is_ascii_alphabetic()).count() >= 3
    }
    pub fn convert_alpha(&self, s: &str) -> String { s.chars().map(|c| keypad(c).unwrap_or(c)).collect() }
}
