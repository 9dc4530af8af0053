//! Order preserving, prefix free codes from the symbols and tokens of the specification to bytes.
use crate::util::*;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    /// every symbol starts with a different byte: the radix tree of the bytes has the shape of the radix tree
    /// of the symbols
    Distinct,
    /// symbols share leading bytes
    Shared,
}

pub struct Codec {
    pub syms: Vec<Vec<u8>>,
    pub vals: Vec<Vec<u8>>,
    rev: HashMap<Vec<u8>, i64>,
    first: HashMap<u8, Vec<usize>>,
    pub class: Class,
}

pub const TOKENS: usize = 16;
const SYM_LENS: &[usize] = &[1, 1, 1, 2, 6, 7, 8, 9, 10, 60, 120, 126, 127, 128, 129, 130, 254, 255, 256, 257, 300];
const VAL_LENS: &[usize] = &[1, 2, 6, 7, 8, 9, 10, 60, 125, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 600];

impl Codec {
    pub fn new(syms: Vec<Vec<u8>>, vals: Vec<Vec<u8>>, class: Class) -> Self {
        for i in 0..syms.len() {
            assert!(!syms[i].is_empty());
            for j in i + 1..syms.len() {
                assert!(syms[i] < syms[j] && !syms[j].starts_with(&syms[i]), "bad codec");
            }
        }
        let rev: HashMap<Vec<u8>, i64> = vals.iter().enumerate().map(|(i, v)| (v.clone(), i as i64)).collect();
        assert_eq!(rev.len(), vals.len());
        let mut first: HashMap<u8, Vec<usize>> = HashMap::new();
        for (i, s) in syms.iter().enumerate() {
            first.entry(s[0]).or_default().push(i);
        }
        Codec { syms, vals, rev, first, class }
    }

    pub fn key(&self, k: &[i64]) -> Vec<u8> {
        let mut r = Vec::new();
        for s in k {
            r.extend_from_slice(&self.syms[*s as usize]);
        }
        r
    }
    /// [-1] for bytes that are not the image of a key
    pub fn unkey(&self, mut b: &[u8]) -> Key {
        let mut r = Vec::new();
        'o: while !b.is_empty() {
            if let Some(c) = self.first.get(&b[0]) {
                for i in c {
                    if b.starts_with(&self.syms[*i]) {
                        r.push(*i as i64);
                        b = &b[self.syms[*i].len()..];
                        continue 'o;
                    }
                }
            }
            return vec![-1];
        }
        r
    }
    pub fn val(&self, v: i64) -> &[u8] {
        &self.vals[v as usize]
    }
    /// -9 for bytes that are not the image of a token
    pub fn unval(&self, b: &[u8]) -> i64 {
        self.rev.get(b).cloned().unwrap_or(-9)
    }

    pub fn random_vals(r: &mut Rng) -> Vec<Vec<u8>> {
        let style = r.below(5);
        let fixed = *r.pick(VAL_LENS);
        let (place, spot, same) = (r.below(6), r.below(600), r.bytes(600));
        let mut vals = vec![vec![]];
        for t in 1..TOKENS {
            let n = match style {
                0 => 1 + r.below(8),
                1 => fixed,
                2 => *r.pick(&[126usize, 127, 128, 129]),
                _ => *r.pick(VAL_LENS),
            };
            // the tokens differ where the token itself is; the other bytes are often the same
            let at = match place {
                0 | 1 => 0,
                2 => n - 1,
                3 => n / 2,
                _ => spot % n,
            };
            let mut b = if place == 0 { r.bytes(n) } else { same[..n].to_vec() };
            b[at] = t as u8;
            vals.push(b);
        }
        vals
    }

    pub fn random(r: &mut Rng, nsyms: usize, class: Class, short: bool) -> Self {
        let vals = Self::random_vals(r);
        let len = |r: &mut Rng| -> usize {
            if short || r.chance(1, 2) {
                1
            } else {
                *r.pick(SYM_LENS)
            }
        };
        // ascending distinct bytes, often including the extremes
        let distinct = |r: &mut Rng, n: usize| -> Vec<u8> {
            let mut s = std::collections::BTreeSet::new();
            if r.chance(1, 3) && n > 0 {
                s.insert(0u8);
            }
            if r.chance(1, 3) && s.len() < n {
                s.insert(255u8);
            }
            while s.len() < n {
                let b = if r.chance(1, 3) { *r.pick(&[0x7fu8, 0x80, 0x81, 1, 8, 9]) } else { r.next() as u8 };
                s.insert(b);
            }
            s.into_iter().collect()
        };
        let syms = match class {
            Class::Distinct => distinct(r, nsyms)
                .into_iter()
                .map(|b| {
                    let n = len(r);
                    let mut v = r.bytes(n);
                    v[0] = b;
                    v
                })
                .collect(),
            Class::Shared => {
                let n = *r.pick(&[1usize, 2, 5, 7, 8, 9, 63, 125, 126, 127, 128, 129, 255, 256]);
                let n = if short { n.min(3) } else { n };
                let p = r.bytes(n);
                // nested sharing: a few groups below the common part
                let g = distinct(r, 2);
                let split = r.below(nsyms + 1);
                let bs = distinct(r, nsyms);
                let (equal, tail) = (r.chance(1, 2), r.bytes(300));
                bs.iter()
                    .enumerate()
                    .map(|(i, b)| {
                        let mut v = p.clone();
                        v.push(if i < split { g[0] } else { g[1] });
                        v.push(*b);
                        let n = len(r);
                        if equal {
                            v.extend(&tail[..n - 1]);
                        } else {
                            v.extend(r.bytes(n - 1));
                        }
                        v
                    })
                    .collect()
            }
        };
        Self::new(syms, vals, class)
    }
}
