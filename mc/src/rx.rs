//! Independent engine for the digit regular expressions used in the metadata.
//! Parser -> AST -> (a) backtracking matcher (leftmost-first, captures),
//! (b) Thompson NFA -> complete minimal DFA over the alphabet 0..9.
use std::collections::HashMap;

#[derive(Debug, Clone)]
pub enum Ast {
    Empty,
    Class(u16),
    Cat(Vec<Ast>),
    Alt(Vec<Ast>),
    Rep(Box<Ast>, usize, usize), // max usize::MAX = unbounded
    Group(usize, Box<Ast>),      // capturing
    End,                         // '$'
}

struct P<'a> { b: &'a [u8], i: usize, groups: usize }

impl<'a> P<'a> {
    fn alt(&mut self) -> Result<Ast, String> {
        let mut v = vec![self.cat()?];
        while self.i < self.b.len() && self.b[self.i] == b'|' {
            self.i += 1;
            v.push(self.cat()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Ast::Alt(v) })
    }
    fn cat(&mut self) -> Result<Ast, String> {
        let mut v = vec![];
        while self.i < self.b.len() && self.b[self.i] != b'|' && self.b[self.i] != b')' {
            let a = self.atom()?;
            v.push(self.quant(a)?);
        }
        Ok(match v.len() { 0 => Ast::Empty, 1 => v.pop().unwrap(), _ => Ast::Cat(v) })
    }
    fn num(&mut self) -> Option<usize> {
        let s = self.i;
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() { self.i += 1; }
        std::str::from_utf8(&self.b[s..self.i]).ok()?.parse().ok()
    }
    fn quant(&mut self, a: Ast) -> Result<Ast, String> {
        if self.i >= self.b.len() { return Ok(a); }
        let (lo, hi) = match self.b[self.i] {
            b'?' => { self.i += 1; (0, 1) }
            b'*' => { self.i += 1; (0, usize::MAX) }
            b'+' => { self.i += 1; (1, usize::MAX) }
            b'{' => {
                self.i += 1;
                let lo = self.num().ok_or("bad quantifier")?;
                let hi = if self.b.get(self.i) == Some(&b',') {
                    self.i += 1;
                    if self.b.get(self.i) == Some(&b'}') { usize::MAX } else { self.num().ok_or("bad quantifier")? }
                } else { lo };
                if self.b.get(self.i) != Some(&b'}') { return Err("bad quantifier".into()); }
                self.i += 1;
                (lo, hi)
            }
            _ => return Ok(a),
        };
        if matches!(self.b.get(self.i), Some(b'?') | Some(b'+') | Some(b'*')) {
            return Err("lazy/possessive quantifier unsupported".into());
        }
        Ok(Ast::Rep(Box::new(a), lo, hi))
    }
    fn atom(&mut self) -> Result<Ast, String> {
        let c = self.b[self.i];
        self.i += 1;
        Ok(match c {
            b'0'..=b'9' => Ast::Class(1 << (c - b'0')),
            b'$' => Ast::End,
            b'\\' => {
                let d = *self.b.get(self.i).ok_or("dangling escape")?;
                self.i += 1;
                if d == b'd' { Ast::Class(0x3ff) } else { return Err(format!("escape \\{}", d as char)); }
            }
            b'[' => {
                let mut m = 0u16;
                let neg = self.b.get(self.i) == Some(&b'^');
                if neg { self.i += 1; }
                loop {
                    let x = *self.b.get(self.i).ok_or("unterminated class")?;
                    self.i += 1;
                    if x == b']' { break; }
                    if x == b'\\' && self.b.get(self.i) == Some(&b'd') { self.i += 1; m |= 0x3ff; continue; }
                    if !x.is_ascii_digit() { return Err(format!("class char {}", x as char)); }
                    let lo = x - b'0';
                    let mut hi = lo;
                    if self.b.get(self.i) == Some(&b'-') && self.b.get(self.i + 1).map_or(false, |c| c.is_ascii_digit()) {
                        hi = self.b[self.i + 1] - b'0';
                        self.i += 2;
                    }
                    for d in lo..=hi { m |= 1 << d; }
                }
                Ast::Class(if neg { !m & 0x3ff } else { m })
            }
            b'(' => {
                let cap = if self.b[self.i..].starts_with(b"?:") { self.i += 2; None } else {
                    self.groups += 1;
                    Some(self.groups)
                };
                let a = self.alt()?;
                if self.b.get(self.i) != Some(&b')') { return Err("missing )".into()); }
                self.i += 1;
                match cap { Some(g) => Ast::Group(g, Box::new(a)), None => a }
            }
            _ => return Err(format!("char {:?}", c as char)),
        })
    }
}

#[derive(Debug, Clone)]
pub struct Rx {
    pub src: String,
    pub ast: Ast,
    pub groups: usize,
}

type Caps = Vec<Option<(usize, usize)>>;

impl Rx {
    pub fn new(src: &str) -> Result<Rx, String> {
        let mut p = P { b: src.as_bytes(), i: 0, groups: 0 };
        let ast = p.alt()?;
        if p.i != src.len() { return Err(format!("trailing input in {:?}", src)); }
        Ok(Rx { src: src.to_string(), ast, groups: p.groups })
    }
    fn m(ast: &Ast, s: &[u8], at: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
        match ast {
            Ast::Empty => k(at, caps),
            Ast::Class(c) => at < s.len() && s[at].is_ascii_digit() && (c >> (s[at] - b'0')) & 1 == 1 && k(at + 1, caps),
            Ast::End => at == s.len() && k(at, caps),
            Ast::Cat(v) => Self::seq(v, s, at, caps, k),
            Ast::Alt(v) => {
                for a in v {
                    if Self::m(a, s, at, caps, k) { return true; }
                }
                false
            }
            Ast::Group(g, a) => {
                let old = caps[*g];
                let g = *g;
                let r = Self::m(a, s, at, caps, &mut |e, c| {
                    let prev = c[g];
                    c[g] = Some((at, e));
                    if k(e, c) { return true; }
                    c[g] = prev;
                    false
                });
                if !r { caps[g] = old; }
                r
            }
            Ast::Rep(a, lo, hi) => Self::rep(a, *lo, *hi, 0, s, at, caps, k),
        }
    }
    fn seq(v: &[Ast], s: &[u8], at: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
        match v.split_first() {
            None => k(at, caps),
            Some((h, t)) => Self::m(h, s, at, caps, &mut |e, c| Self::seq(t, s, e, c, k)),
        }
    }
    fn rep(a: &Ast, lo: usize, hi: usize, n: usize, s: &[u8], at: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
        if n < hi {
            let r = Self::m(a, s, at, caps, &mut |e, c| (e > at || n < lo) && Self::rep(a, lo, hi, n + 1, s, e, c, k));
            if r { return true; }
        }
        n >= lo && k(at, caps)
    }
    /// Leftmost-first match anchored at the start. Returns captures (0 = whole).
    pub fn match_start(&self, s: &str) -> Option<Caps> {
        let mut caps: Caps = vec![None; self.groups + 1];
        let mut out = None;
        let r = Self::m(&self.ast, s.as_bytes(), 0, &mut caps, &mut |e, c| {
            let mut o = c.clone();
            o[0] = Some((0, e));
            out = Some(o);
            true
        });
        if r { out } else { None }
    }
    /// Match covering the whole input (first alternative in priority order that does).
    pub fn match_full(&self, s: &str) -> Option<Caps> {
        let mut caps: Caps = vec![None; self.groups + 1];
        let mut out = None;
        let n = s.len();
        let r = Self::m(&self.ast, s.as_bytes(), 0, &mut caps, &mut |e, c| {
            if e != n { return false; }
            let mut o = c.clone();
            o[0] = Some((0, e));
            out = Some(o);
            true
        });
        if r { out } else { None }
    }
}

/// Complete DFA over digits. State 0 is the start. `acc[s]` accepting.
#[derive(Debug, Clone)]
pub struct Dfa {
    pub next: Vec<[u32; 10]>,
    pub acc: Vec<bool>,
}

struct Nfa { eps: Vec<Vec<usize>>, tr: Vec<Vec<(u16, usize)>> }
impl Nfa {
    fn new_state(&mut self) -> usize { self.eps.push(vec![]); self.tr.push(vec![]); self.eps.len() - 1 }
    fn build(&mut self, a: &Ast, from: usize, to: usize, end: usize) {
        match a {
            Ast::Empty => self.eps[from].push(to),
            Ast::Class(c) => self.tr[from].push((*c, to)),
            // '$' : only the terminal state with no continuation may be reached
            Ast::End => self.eps[from].push(end),
            Ast::Cat(v) => {
                let mut cur = from;
                for (i, x) in v.iter().enumerate() {
                    let nx = if i + 1 == v.len() { to } else { self.new_state() };
                    self.build(x, cur, nx, end);
                    cur = nx;
                }
                if v.is_empty() { self.eps[from].push(to); }
            }
            Ast::Alt(v) => for x in v {
                let s = self.new_state();
                self.eps[from].push(s);
                self.build(x, s, to, end);
            },
            Ast::Group(_, x) => self.build(x, from, to, end),
            Ast::Rep(x, lo, hi) => {
                let mut cur = from;
                for _ in 0..*lo {
                    let n = self.new_state();
                    self.build(x, cur, n, end);
                    cur = n;
                }
                if *hi == usize::MAX {
                    let l = self.new_state();
                    self.eps[cur].push(l);
                    let n = self.new_state();
                    self.build(x, l, n, end);
                    self.eps[n].push(l);
                    self.eps[l].push(to);
                } else {
                    for _ in *lo..*hi {
                        self.eps[cur].push(to);
                        let n = self.new_state();
                        self.build(x, cur, n, end);
                        cur = n;
                    }
                    self.eps[cur].push(to);
                }
            }
        }
    }
}

impl Dfa {
    /// `prefix`: accept every string that has a prefix in L ('$' still means end of input).
    pub fn build(rx: &Rx, prefix: bool) -> Dfa {
        let mut n = Nfa { eps: vec![], tr: vec![] };
        let s = n.new_state();
        let t = n.new_state();
        let end = n.new_state();
        n.build(&rx.ast, s, t, end);
        if prefix { n.tr[t].push((0x3ff, t)); }
        let close = |set: &mut Vec<usize>| {
            let mut seen = vec![false; n.eps.len()];
            let mut st = set.clone();
            for &x in set.iter() { seen[x] = true; }
            while let Some(x) = st.pop() {
                for &y in &n.eps[x] {
                    if !seen[y] { seen[y] = true; st.push(y); set.push(y); }
                }
            }
            set.sort_unstable();
            set.dedup();
        };
        let mut start = vec![s];
        close(&mut start);
        let mut ids: HashMap<Vec<usize>, u32> = HashMap::new();
        let mut list = vec![start.clone()];
        ids.insert(start, 0);
        let mut next: Vec<[u32; 10]> = vec![];
        let mut i = 0;
        while i < list.len() {
            let cur = list[i].clone();
            let mut row = [0u32; 10];
            for d in 0..10u16 {
                let mut set: Vec<usize> = vec![];
                for &x in &cur {
                    for &(c, y) in &n.tr[x] {
                        if (c >> d) & 1 == 1 { set.push(y); }
                    }
                }
                close(&mut set);
                let len = list.len() as u32;
                let id = *ids.entry(set.clone()).or_insert_with(|| { list.push(set); len });
                row[d as usize] = id;
            }
            next.push(row);
            i += 1;
        }
        let acc: Vec<bool> = list.iter().map(|s| s.contains(&t) || s.contains(&end)).collect();
        Dfa { next, acc }.minimise()
    }
    fn minimise(self) -> Dfa {
        // Moore partition refinement
        let n = self.next.len();
        let mut cls: Vec<u32> = self.acc.iter().map(|&a| a as u32).collect();
        let mut count = 0usize;
        loop {
            let mut map: HashMap<(u32, [u32; 10]), u32> = HashMap::new();
            let mut nc = vec![0u32; n];
            for s in 0..n {
                let mut k = [0u32; 10];
                for d in 0..10 { k[d] = cls[self.next[s][d] as usize]; }
                let l = map.len() as u32;
                nc[s] = *map.entry((cls[s], k)).or_insert(l);
            }
            let c = map.len();
            cls = nc;
            if c == count { break; }
            count = c;
        }
        // renumber with start = 0
        let mut order: HashMap<u32, u32> = HashMap::new();
        order.insert(cls[0], 0);
        for s in 0..n { let l = order.len() as u32; order.entry(cls[s]).or_insert(l); }
        let m = order.len();
        let mut next = vec![[0u32; 10]; m];
        let mut acc = vec![false; m];
        for s in 0..n {
            let i = order[&cls[s]] as usize;
            for d in 0..10 { next[i][d] = order[&cls[self.next[s][d] as usize]]; }
            acc[i] = self.acc[s];
        }
        Dfa { next, acc }
    }
    pub fn accepts(&self, s: &str) -> bool {
        let mut q = 0u32;
        for b in s.bytes() {
            if !b.is_ascii_digit() { return false; }
            q = self.next[q as usize][(b - b'0') as usize];
        }
        self.acc[q as usize]
    }
}
