//! Numbering-plan metadata, read independently from resources/PhoneNumberMetadata.xml
//! with the generation rules of tools/java BuildMetadataFromXml.
use crate::rx::{Dfa, Rx};
use crate::xml::{self, Node};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty { Fixed, Mobile, FixedOrMobile, TollFree, Premium, Shared, Voip, Personal, Pager, Uan, Voicemail, Unknown }

pub struct Pat { pub src: String, pub rx: Rx, pub full: Dfa, pub pre: Dfa }
pub type PatRef = Arc<Pat>;

#[derive(Clone)]
pub struct Desc {
    pub pat: Option<PatRef>,
    pub lens: Vec<i32>,   // possible lengths (resolved; empty = none)
    pub local: Vec<i32>,
    pub example: Option<String>,
}

#[derive(Clone)]
pub struct Fmt {
    pub pat: PatRef,
    pub lead: Option<PatRef>, // the last (most detailed) leading digits pattern
    pub format: String,
    pub np_rule: String,
    pub cc_rule: String,
}

#[derive(Clone)]
pub struct Terr {
    pub id: String,
    pub cc: i32,
    pub idd: String,
    pub idd_pat: Option<PatRef>,
    pub pref_idd: Option<String>,
    pub np: Option<String>,
    pub np_parse: Option<PatRef>,
    pub np_transform: Option<String>,
    pub ext_prefix: Option<String>,
    pub main: bool,
    pub leading: Option<PatRef>,
    pub formats: Vec<Fmt>,
    pub intl: Vec<Fmt>,
    pub general: Desc,
    pub noint: Option<Desc>,
    pub types: Vec<(Ty, Desc)>, // those present in the XML
    pub same_mobile_fixed: bool,
}
impl Terr {
    pub fn ty(&self, t: Ty) -> Option<&Desc> { self.types.iter().find(|x| x.0 == t).map(|x| &x.1) }
}

pub struct Meta {
    pub terrs: Vec<Terr>,
    pub by_region: HashMap<String, usize>,
    pub nongeo: HashMap<i32, usize>,
    /// calling code -> territory indexes, main region first, then alphabetical (document) order
    pub by_cc: BTreeMap<i32, Vec<usize>>,
}

fn strip_ws(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

fn lengths(s: &str) -> Vec<i32> {
    let mut v = vec![];
    for part in s.split(',') {
        let p = part.trim();
        if p.is_empty() { continue; }
        if let Some(r) = p.strip_prefix('[') {
            let r = r.trim_end_matches(']');
            let (a, b) = r.split_once('-').expect("range");
            v.extend(a.trim().parse::<i32>().unwrap()..=b.trim().parse::<i32>().unwrap());
        } else {
            v.push(p.parse().unwrap());
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

struct Loader { cache: HashMap<String, PatRef> }
impl Loader {
    fn pat(&mut self, s: &str) -> PatRef {
        let s = strip_ws(s);
        if let Some(p) = self.cache.get(&s) { return p.clone(); }
        let rx = Rx::new(&s).unwrap_or_else(|e| panic!("metadata pattern {:?}: {}", s, e));
        let full = Dfa::build(&rx, false);
        let pre = Dfa::build(&rx, true);
        let p = Arc::new(Pat { src: s.clone(), rx, full, pre });
        self.cache.insert(s, p.clone());
        p
    }
    fn desc(&mut self, n: &Node) -> Desc {
        let pl = n.child("possibleLengths");
        let lens = pl.and_then(|p| p.attr("national")).map(lengths).unwrap_or_default();
        let mut local = pl.and_then(|p| p.attr("localOnly")).map(lengths).unwrap_or_default();
        local.retain(|x| !lens.contains(x));
        Desc {
            pat: n.child("nationalNumberPattern").map(|p| self.pat(&p.text)),
            lens, local,
            example: n.child("exampleNumber").map(|e| e.text.trim().to_string()),
        }
    }
}

fn replace_first(s: &str, from: &str, to: &str) -> String { s.replacen(from, to, 1) }

pub fn load(path: &str) -> Meta {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
    let root = xml::parse(&text).expect("metadata XML");
    let terrs_node = root.child("territories").expect("territories");
    let mut l = Loader { cache: HashMap::new() };
    let mut terrs = vec![];
    for t in terrs_node.all("territory") {
        let id = t.attr("id").unwrap().to_string();
        let cc: i32 = t.attr("countryCode").unwrap().parse().unwrap();
        let np = t.attr("nationalPrefix").map(|s| s.to_string());
        let np_s = np.clone().unwrap_or_default();
        let (np_parse, np_transform) = match t.attr("nationalPrefixForParsing") {
            Some(p) => (Some(l.pat(p)), t.attr("nationalPrefixTransformRule").map(strip_ws)),
            None => (np.as_ref().map(|p| l.pat(p)), None),
        };
        let terr_np_rule = t.attr("nationalPrefixFormattingRule");
        let terr_cc_rule = t.attr("carrierCodeFormattingRule");
        let fix = |r: &str| replace_first(&replace_first(r, "$NP", &np_s), "$FG", "$1");
        let mut formats = vec![];
        let mut intl = vec![];
        let mut explicit = false;
        if let Some(af) = t.child("availableFormats") {
            for nf in af.all("numberFormat") {
                let pat = l.pat(nf.attr("pattern").unwrap());
                let lead = nf.all("leadingDigits").last().map(|x| l.pat(&x.text));
                let format = nf.child("format").unwrap().text.trim().to_string();
                let np_rule = nf.attr("nationalPrefixFormattingRule").or(terr_np_rule).map(|r| fix(r)).unwrap_or_default();
                let cc_rule = nf.attr("carrierCodeFormattingRule").or(terr_cc_rule).map(|r| fix(r)).unwrap_or_default();
                let f = Fmt { pat: pat.clone(), lead: lead.clone(), format, np_rule, cc_rule };
                formats.push(f.clone());
                match nf.child("intlFormat") {
                    None => intl.push(f),
                    Some(x) => {
                        explicit = true;
                        if x.text.trim() != "NA" {
                            intl.push(Fmt { pat, lead, format: x.text.trim().to_string(), np_rule: String::new(), cc_rule: String::new() });
                        }
                    }
                }
            }
        }
        if !explicit { intl.clear(); }
        let tys = [
            ("fixedLine", Ty::Fixed), ("mobile", Ty::Mobile), ("tollFree", Ty::TollFree), ("premiumRate", Ty::Premium),
            ("sharedCost", Ty::Shared), ("voip", Ty::Voip), ("personalNumber", Ty::Personal), ("pager", Ty::Pager),
            ("uan", Ty::Uan), ("voicemail", Ty::Voicemail),
        ];
        let mut types = vec![];
        let mut glens = vec![];
        let mut glocal = vec![];
        for (name, ty) in tys {
            if let Some(n) = t.child(name) {
                let d = l.desc(n);
                glens.extend(d.lens.iter().copied());
                glocal.extend(d.local.iter().copied());
                types.push((ty, d));
            }
        }
        let noint = t.child("noInternationalDialling").map(|n| l.desc(n));
        let mut general = l.desc(t.child("generalDesc").expect("generalDesc"));
        glens.sort_unstable();
        glens.dedup();
        glocal.sort_unstable();
        glocal.dedup();
        glocal.retain(|x| !glens.contains(x));
        general.lens = glens;
        general.local = glocal;
        let fp = types.iter().find(|x| x.0 == Ty::Fixed).and_then(|x| x.1.pat.as_ref().map(|p| p.src.clone()));
        let mp = types.iter().find(|x| x.0 == Ty::Mobile).and_then(|x| x.1.pat.as_ref().map(|p| p.src.clone()));
        let idd = t.attr("internationalPrefix").map(strip_ws).unwrap_or_default();
        terrs.push(Terr {
            same_mobile_fixed: fp.is_some() && fp == mp,
            idd_pat: if idd.is_empty() { None } else { Some(l.pat(&idd)) },
            idd, id, cc, np, np_parse, np_transform,
            pref_idd: t.attr("preferredInternationalPrefix").map(|s| s.to_string()),
            ext_prefix: t.attr("preferredExtnPrefix").map(|s| s.to_string()),
            main: t.attr("mainCountryForCode") == Some("true"),
            leading: t.attr("leadingDigits").map(|s| l.pat(s)),
            formats, intl, general, noint, types,
        });
    }
    let mut by_region = HashMap::new();
    let mut nongeo = HashMap::new();
    let mut by_cc: BTreeMap<i32, Vec<usize>> = BTreeMap::new();
    for (i, t) in terrs.iter().enumerate() {
        if t.id == "001" { nongeo.insert(t.cc, i); } else { by_region.insert(t.id.clone(), i); }
        let v = by_cc.entry(t.cc).or_default();
        if t.main { v.insert(0, i) } else { v.push(i) }
    }
    Meta { terrs, by_region, nongeo, by_cc }
}
