//! Enumerators of decoder inputs for a schema.
use crate::schema::*;
use std::collections::HashSet;

pub struct InBounds {
    /// all strings over the tailored alphabet while their number stays below this
    pub words: usize,
    /// how many encodings seed the edit neighbourhood
    pub seeds: usize,
    /// positions edited per seed
    pub positions: usize,
    pub full_bytes: bool,
    pub two_bytes: bool,
}

pub const QUICK_IN: InBounds = InBounds { words: 4000, seeds: 60, positions: 24, full_bytes: true, two_bytes: false };
pub const THOROUGH_IN: InBounds = InBounds { words: 120_000, seeds: 400, positions: 64, full_bytes: true, two_bytes: true };

fn spread<T>(v: Vec<T>, n: usize) -> Vec<T> {
    if v.len() <= n || n == 0 {
        return v;
    }
    let len = v.len();
    let keep: HashSet<usize> = (0..n).map(|i| i * (len - 1) / (n - 1).max(1)).collect();
    v.into_iter().enumerate().filter(|(i, _)| keep.contains(i)).map(|(_, x)| x).collect()
}

/// All inputs explored for `s`, without repetition, simplest first.
pub fn inputs(s: &Sch, b: &InBounds, seeds: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let tiny = crate::engine::tiny().is_some();
    let small = InBounds { words: 60, seeds: 6, positions: 5, full_bytes: false, two_bytes: false };
    let b = if tiny { &small } else { b };
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut out: Vec<Vec<u8>> = Vec::new();
    let mut add = |v: Vec<u8>, out: &mut Vec<Vec<u8>>| {
        if seen.insert(v.clone()) {
            out.push(v)
        }
    };
    add(vec![], &mut out);
    for x in (0..=255u8).filter(|_| !tiny) {
        add(vec![x], &mut out);
    }
    if b.two_bytes {
        for x in 0..=255u8 {
            for y in 0..=255u8 {
                add(vec![x, y], &mut out);
            }
        }
    }
    // all words over the tailored alphabet
    let a = alphabet(s);
    let mut layer: Vec<Vec<u8>> = vec![vec![]];
    let mut total = 0usize;
    loop {
        let n = layer.len() * a.len();
        if total + n > b.words || n == 0 {
            break;
        }
        let mut next = Vec::with_capacity(n);
        for w in &layer {
            for x in &a {
                let mut v = w.clone();
                v.push(*x);
                next.push(v);
            }
        }
        total += n;
        for v in &next {
            add(v.clone(), &mut out);
        }
        layer = next;
        if layer[0].len() >= 12 {
            break;
        }
    }
    // seeds and their neighbourhoods
    let seeds: Vec<Vec<u8>> = {
        let mut sd: Vec<Vec<u8>> = Vec::new();
        let mut h = HashSet::new();
        for x in seeds {
            if h.insert(x.clone()) {
                sd.push(x.clone());
            }
        }
        spread(sd, b.seeds)
    };
    for e in &seeds {
        add(e.clone(), &mut out);
        for t in [0x00u8, 0x01, 0xff] {
            let mut v = e.clone();
            v.push(t);
            add(v.clone(), &mut out);
            v.extend([t, 0x05, t]);
            add(v, &mut out);
        }
        let n = e.len();
        let pos: Vec<usize> = spread((0..n).collect(), b.positions);
        for &i in &pos {
            add(e[..i].to_vec(), &mut out);
            let mut d = e.clone();
            d.remove(i);
            add(d, &mut out);
            let subst: Vec<u8> = if b.full_bytes && n <= 12 {
                (0..=255).collect()
            } else {
                let c = e[i];
                let mut v = vec![0, 1, 0x7f, 0x80, 0xff, c.wrapping_add(1), c.wrapping_sub(1), c ^ 0x80, c ^ 0x40];
                v.extend(a.iter().copied());
                v
            };
            for x in subst {
                if x != e[i] {
                    let mut v = e.clone();
                    v[i] = x;
                    add(v, &mut out);
                }
            }
            for x in [0x00u8, 0x01, 0x80, 0xff] {
                let mut v = e.clone();
                v.insert(i, x);
                add(v, &mut out);
            }
        }
    }
    out
}
