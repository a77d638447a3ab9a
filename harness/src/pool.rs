//! Choosing which of many executed cases are handed to the specification.  Selection only:
//! it looks for diversity and for cases on which two runs of the code disagree.
use crate::json::J;
use std::collections::HashMap;

#[derive(Default)]
struct Part {
    /// (how often a similar case was seen before, order, event)
    items: Vec<(u32, usize, J)>,
    worst: Option<u32>,
}

impl Part {
    fn push(&mut self, limit: usize, rank: u32, n: usize, f: impl FnOnce() -> J) {
        if self.worst.map_or(false, |w| rank > w) {
            return;
        }
        self.items.push((rank, n, f()));
        if self.items.len() >= 2 * limit + 16 {
            self.cut(limit);
            self.worst = self.items.last().map(|x| x.0);
        }
    }
    fn cut(&mut self, limit: usize) {
        self.items.sort_by_key(|x| (x.0, x.1));
        self.items.truncate(limit);
    }
}

pub struct Pool {
    pub limit: usize,
    seen: HashMap<u64, u32>,
    usual: Part,
    odd: Part,
    pub tried: usize,
}

pub fn hash(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        h = (h ^ p).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn size_class(n: usize) -> u64 {
    match n {
        0..=3 => n as u64,
        4..=15 => 4,
        16..=126 => 5,
        127..=129 => 6,
        130..=255 => 7,
        _ => 8,
    }
}

impl Pool {
    pub fn new(limit: usize) -> Pool {
        Pool { limit, seen: HashMap::new(), usual: Part::default(), odd: Part::default(), tried: 0 }
    }
    /// sig identifies similar cases; suspicious cases get a share of their own
    pub fn offer(&mut self, sig: u64, suspicious: bool, f: impl FnOnce() -> J) {
        self.tried += 1;
        let c = self.seen.entry(hash(&[sig, suspicious as u64])).or_insert(0);
        *c += 1;
        let (rank, n, limit) = (*c, self.tried, self.limit);
        let part = if suspicious { &mut self.odd } else { &mut self.usual };
        part.push(limit, rank, n, f);
    }
    pub fn take(mut self) -> Vec<J> {
        self.odd.cut(self.limit);
        self.usual.cut(self.limit);
        let (o, u) = (self.odd.items.len(), self.usual.items.len());
        // a third for suspicious cases, more if there is room
        let odd = o.min((self.limit / 3).max(self.limit - u));
        self.odd.items.truncate(odd);
        self.usual.items.truncate(self.limit - odd);
        let mut all = self.odd.items;
        all.extend(self.usual.items);
        all.sort_by_key(|x| x.1);
        all.into_iter().map(|x| x.2).collect()
    }
}
