//! Tiny JSON value: enough to write evidence and to write/read replay files.
use std::collections::BTreeMap;
use std::fmt::Write;
#[derive(Debug, Clone, PartialEq)]
pub enum J { Null, Bool(bool), Int(i128), Num(f64), Str(String), Arr(Vec<J>), Obj(BTreeMap<String, J>) }
impl J {
    pub fn obj(v: Vec<(&str, J)>) -> J { J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
    pub fn s(x: impl Into<String>) -> J { J::Str(x.into()) }
    pub fn get(&self, k: &str) -> &J { match self { J::Obj(o) => o.get(k).unwrap_or(&J::Null), _ => &J::Null } }
    pub fn str(&self) -> Option<&str> { match self { J::Str(s) => Some(s), _ => None } }
    pub fn int(&self) -> Option<i128> { match self { J::Int(i) => Some(*i), _ => None } }
    pub fn bool(&self) -> Option<bool> { match self { J::Bool(b) => Some(*b), _ => None } }
    pub fn arr(&self) -> &[J] { match self { J::Arr(a) => a, _ => &[] } }
    pub fn dump(&self) -> String { let mut s = String::new(); self.w(&mut s); s }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => { let _ = write!(o, "{}", b); }
            J::Int(i) => { let _ = write!(o, "{}", i); }
            J::Num(f) => { let _ = write!(o, "{}", f); }
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f || !c.is_ascii() => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) { let _ = write!(o, "\\u{:04x}", u); }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => { o.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() { if i > 0 { o.push(','); } J::Str(k.clone()).w(o); o.push(':'); x.w(o); }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        let v = val(&c, &mut i)?;
        ws(&c, &mut i);
        if i != c.len() { return Err("trailing".into()); }
        Ok(v)
    }
}
fn ws(c: &[char], i: &mut usize) { while *i < c.len() && c[*i].is_whitespace() { *i += 1; } }
fn val(c: &[char], i: &mut usize) -> Result<J, String> {
    ws(c, i);
    match c.get(*i) {
        None => Err("eof".into()),
        Some('{') => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(c, i);
                if c.get(*i) == Some(&'}') { *i += 1; return Ok(J::Obj(m)); }
                if c.get(*i) == Some(&',') { *i += 1; continue; }
                let J::Str(k) = val(c, i)? else { return Err("key".into()) };
                ws(c, i);
                if c.get(*i) != Some(&':') { return Err("colon".into()); }
                *i += 1;
                let v = val(c, i)?;
                m.insert(k, v);
            }
        }
        Some('[') => {
            *i += 1;
            let mut a = vec![];
            loop {
                ws(c, i);
                if c.get(*i) == Some(&']') { *i += 1; return Ok(J::Arr(a)); }
                if c.get(*i) == Some(&',') { *i += 1; continue; }
                a.push(val(c, i)?);
            }
        }
        Some('"') => {
            *i += 1;
            let mut u: Vec<u16> = vec![];
            loop {
                let ch = *c.get(*i).ok_or("eof")?;
                *i += 1;
                if ch == '"' { return Ok(J::Str(String::from_utf16(&u).map_err(|e| e.to_string())?)); }
                let ch = if ch == '\\' {
                    let e = *c.get(*i).ok_or("eof")?;
                    *i += 1;
                    match e {
                        'n' => '\n', 't' => '\t', 'r' => '\r', 'b' => '\u{8}', 'f' => '\u{c}',
                        'u' => {
                            let h: String = c.get(*i..*i + 4).ok_or("eof")?.iter().collect();
                            *i += 4;
                            u.push(u16::from_str_radix(&h, 16).map_err(|e| e.to_string())?);
                            continue;
                        }
                        e => e,
                    }
                } else { ch };
                let mut b = [0u16; 2];
                u.extend_from_slice(ch.encode_utf16(&mut b));
            }
        }
        Some('t') => { *i += 4; Ok(J::Bool(true)) }
        Some('f') => { *i += 5; Ok(J::Bool(false)) }
        Some('n') => { *i += 4; Ok(J::Null) }
        _ => {
            let s = *i;
            while *i < c.len() && (c[*i].is_ascii_digit() || "+-.eE".contains(c[*i])) { *i += 1; }
            let t: String = c[s..*i].iter().collect();
            if let Ok(x) = t.parse::<i128>() { return Ok(J::Int(x)); }
            t.parse::<f64>().map(J::Num).map_err(|e| e.to_string())
        }
    }
}
