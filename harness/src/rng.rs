//! Seeded random choices, biased towards the boundaries of the MQTT data types.
use std::rc::Rc;

/// numbers and texts of the source of the code under test: boundaries to try
#[derive(Clone, Default, Debug)]
pub struct Dict {
    pub nums: Vec<u64>,
    pub texts: Vec<String>,
}

pub struct Rng {
    pub dict: Rc<Dict>,
    state: u64,
    /// suites of large packets
    pub large: bool,
    /// large fields the current packet may still get
    room: usize,
}

pub const LARGE: [usize; 22] = [
    600, 1000, 1023, 1024, 2047, 2048, 4080, 4095, 4096, 4097, 8180, 8190, 8191, 8192, 8193, 12000, 16383, 16384, 32767,
    32768, 65534, 65535,
];

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng { dict: Rc::default(), state: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, large: false, room: 0 }
    }
    pub fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn flag(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn u8(&mut self) -> u8 {
        if self.chance(60) {
            *self.pick(&[0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0x81, 0xff, 0x26, 0x0b, 0x10, 0x20, 0x40])
        } else {
            self.next() as u8
        }
    }
    /// a number of the source text, or next to one
    fn literal(&mut self, max: u64) -> Option<u64> {
        if self.dict.nums.is_empty() || !self.chance(6) {
            return None;
        }
        let x = *self.dict.clone().nums.get(self.below(self.dict.nums.len()))?;
        let y = (x + self.below(3) as u64).saturating_sub(1);
        if y <= max {
            Some(y)
        } else {
            None
        }
    }
    pub fn u16(&mut self) -> u16 {
        if let Some(x) = self.literal(65535) {
            return x as u16;
        }
        if self.chance(50) {
            *self.pick(&[
                0, 1, 2, 10, 127, 128, 129, 255, 256, 257, 511, 512, 0x0a00, 0x7f80, 0x7fff, 0x8000, 0x8001,
                0xff00, 0xfffe, 0xffff,
            ])
        } else {
            self.next() as u16
        }
    }
    pub fn u32(&mut self) -> u32 {
        if let Some(x) = self.literal(u32::MAX as u64) {
            return x as u32;
        }
        if self.chance(60) {
            *self.pick(&[
                0,
                1,
                2,
                127,
                128,
                255,
                256,
                65535,
                65536,
                65537,
                0x00ff_ffff,
                0x0100_0000,
                0x0102_0304,
                0x7fff_ffff,
                0x8000_0000,
                0x8000_0001,
                0xfffe_ffff,
                0xffff_0000,
                0xffff_fffe,
                0xffff_ffff,
            ])
        } else {
            self.next() as u32
        }
    }
    /// values of a variable byte integer, now and then beyond the maximum
    pub fn var(&mut self, allow_big: bool) -> u32 {
        if allow_big && self.chance(4) {
            return *self.pick(&[268435456, 268435457, 536870911, 0x8000_0000, 0xffff_ffff, 0xffff_ff80]);
        }
        if let Some(x) = self.literal(268435455) {
            return x as u32;
        }
        if self.chance(70) {
            *self.pick(&[
                1, 2, 127, 128, 129, 255, 256, 300, 16382, 16383, 16384, 16385, 65535, 65536, 2097150, 2097151,
                2097152, 2097153, 268435454, 268435455, 0x4080, 0x204080, 0x81,
            ])
        } else {
            (self.next() as u32) & 0x0fff_ffff
        }
    }
    /// a new packet starts
    pub fn packet(&mut self) {
        self.room = if self.large { self.range(1, 2) } else { 0 };
    }
    /// length of a string or binary field
    pub fn len(&mut self) -> usize {
        if self.room > 0 && self.chance(30) {
            self.room -= 1;
            return *self.pick(&LARGE);
        }
        if self.chance(20) {
            if let Some(x) = self.literal(if self.large { 70000 } else { 300 }) {
                return x as usize;
            }
        }
        match self.below(100) {
            0..=9 => 0,
            10..=74 => self.range(1, 6),
            75..=89 => self.range(7, 30),
            90..=96 => *self.pick(&[31, 32, 63, 64, 100, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130]),
            97..=98 => *self.pick(&[254, 255, 256, 257, 300, 511, 512]),
            _ => self.range(131, 253),
        }
    }
    /// number of items of a list, if it is to be a long one
    pub fn many(&mut self) -> Option<usize> {
        if self.room > 0 && self.chance(30) {
            self.room -= 1;
            Some(*self.pick(&[130, 255, 256, 257, 300, 1000, 1365, 2730, 2731, 4096, 5000]))
        } else {
            None
        }
    }
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        let same = self.chance(20);
        let c = self.u8();
        (0..len).map(|_| if same { c } else { self.u8() }).collect()
    }
    pub fn string_of(&mut self, len: usize) -> String {
        if len > 0 && !self.dict.texts.is_empty() && self.chance(4) {
            let d = self.dict.clone();
            let t = self.pick(&d.texts);
            if t.len() <= len {
                let mut t = t.clone();
                if self.flag() {
                    while t.len() < len {
                        t.push('/')
                    }
                }
                return t;
            }
        }
        let kind = self.below(100);
        let mut s = String::new();
        while s.len() < len {
            let left = len - s.len();
            let c = match kind {
                0..=59 => *self.pick(&['a', 'b', 't', 'e', 's', '/', '0', '9', 'Z', ' ', '-', '_', '.']),
                60..=74 => *self.pick(&[
                    'a', '\u{1}', '\u{7f}', '\t', '\n', '"', '\\', '&', '(', '$', '!', '~', '\u{20}', '\u{c}',
                ]),
                75..=94 => *self.pick(&[
                    'a', '\u{80}', '\u{ff}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{d7ff}', '\u{e000}',
                    '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{3ffff}', '\u{40000}',
                    '\u{fffff}', '\u{100000}', '\u{10ffff}',
                ]),
                95..=97 => *self.pick(&['#', '+', '/', 'a', '$']),
                98 => *self.pick(&['\0', 'a']),
                _ => 'x',
            };
            if c.len_utf8() <= left {
                s.push(c)
            } else {
                s.push('y')
            }
        }
        s
    }
    pub fn string(&mut self) -> String {
        let n = self.len();
        self.string_of(n)
    }
}
