//! Explicit-state exploration of the product of all numbering-plan automata of
//! one country calling code (plus the length counter): every reachable product
//! state up to a digit-length bound gets a witness digit string.
use crate::meta::*;
use std::collections::HashMap;


#[derive(Clone)]
pub struct State { pub parent: u32, pub digit: u8, pub len: u8 }

pub struct Space {
    pub states: Vec<State>,
    pub transitions: u64,
    /// for each state, the successor id per digit (u32::MAX at the length bound)
    pub succ: Vec<[u32; 10]>,
    pub automata: usize,
}
impl Space {
    pub fn word(&self, mut i: usize) -> String {
        let mut v = vec![];
        while i != 0 { v.push(b'0' + self.states[i].digit); i = self.states[i].parent as usize; }
        v.reverse();
        String::from_utf8(v).unwrap()
    }
}

/// Order in which digits are tried: the witness of a state is the first word found,
/// so different orders give different witnesses for the same state.
#[derive(Clone, Copy, Debug)]
pub struct Order(pub usize, pub usize);
impl Order {
    fn digit(self, len: usize, k: usize) -> usize { (k * self.0 + len * self.1) % 10 }
}
pub const ORDERS: [Order; 6] = [Order(1, 0), Order(3, 1), Order(9, 9), Order(7, 4), Order(1, 3), Order(9, 6)];

pub fn explore(dfas: &[&crate::rx::Dfa], max_len: usize, order: Order) -> Space {
    let start: Vec<u16> = vec![0; dfas.len()];
    let mut sp = Space { states: vec![State { parent: 0, digit: 0, len: 0 }], transitions: 0, succ: vec![], automata: dfas.len() };
    let mut layer: Vec<(Vec<u16>, u32)> = vec![(start, 0)];
    for len in 1..=max_len {
        let mut ids: HashMap<Vec<u16>, u32> = HashMap::new();
        let mut nxt: Vec<(Vec<u16>, u32)> = vec![];
        for (st, id) in &layer {
            let mut row = [u32::MAX; 10];
            for k in 0..10usize {
                let d = order.digit(len, k);
                sp.transitions += 1;
                let v: Vec<u16> = st.iter().zip(dfas).map(|(&q, a)| a.next[q as usize][d] as u16).collect();
                let nid = match ids.get(&v) {
                    Some(&x) => x,
                    None => {
                        let x = sp.states.len() as u32;
                        sp.states.push(State { parent: *id, digit: d as u8, len: len as u8 });
                        ids.insert(v.clone(), x);
                        nxt.push((v, x));
                        x
                    }
                };
                row[d] = nid;
            }
            debug_assert_eq!(sp.succ.len(), *id as usize);
            sp.succ.push(row);
        }
        layer = nxt;
    }
    for _ in &layer { sp.succ.push([u32::MAX; 10]); }
    sp
}

/// All automata that decide anything about a national number under this calling code.
pub fn automata<'a>(m: &'a Meta, cc: i32) -> Vec<&'a crate::rx::Dfa> {
    let mut seen: HashMap<String, ()> = HashMap::new();
    let mut out: Vec<&crate::rx::Dfa> = vec![];
    let mut add = |p: &'a PatRef, pre: bool, out: &mut Vec<&'a crate::rx::Dfa>| {
        if seen.insert(format!("{}{}", pre as u8, p.src), ()).is_none() {
            out.push(if pre { &p.pre } else { &p.full });
        }
    };
    for &i in &m.by_cc[&cc] {
        let t = &m.terrs[i];
        for d in std::iter::once(&t.general).chain(t.types.iter().map(|x| &x.1)).chain(t.noint.iter()) {
            if let Some(p) = &d.pat { add(p, false, &mut out); }
        }
        if let Some(l) = &t.leading { add(l, true, &mut out); }
        for f in t.formats.iter() {
            add(&f.pat, false, &mut out);
            if let Some(l) = &f.lead { add(l, true, &mut out); }
        }
    }
    out
}

/// Automata that decide what a dialled digit string means in one region: its plan,
/// its national-prefix pattern and its international prefix.
pub fn dial_automata<'a>(m: &'a Meta, t: &'a Terr) -> Vec<&'a crate::rx::Dfa> {
    let mut out: Vec<&crate::rx::Dfa> = vec![];
    if let Some(p) = &t.general.pat { out.push(&p.full); }
    if let Some(p) = &t.np_parse { out.push(&p.pre); }
    if let Some(p) = &t.idd_pat { out.push(&p.pre); }
    let _ = m;
    out
}
