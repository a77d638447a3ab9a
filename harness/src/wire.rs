//! Random and enumerated byte strings: packets written from a grammar of their own (not by
//! the library's encoder), with every permitted order and short form, and mutations of them.
//! A generator only; what the bytes mean is decided by the specification.
use crate::rng::Rng;

/// one packet under construction
#[derive(Clone, Debug)]
pub struct Wire {
    pub bytes: Vec<u8>,
    /// positions of structural bytes (lengths, flags, codes, identifiers) for mutation
    pub marks: Vec<usize>,
    pub note: &'static str,
}

pub fn var(mut n: u32) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let mut d = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            d |= 0x80;
        }
        v.push(d);
        if n == 0 {
            return v;
        }
    }
}

/// non-minimal form of `len` bytes
pub fn var_long(n: u32, len: usize) -> Vec<u8> {
    let mut v = var(n);
    while v.len() < len {
        let l = v.len();
        v[l - 1] |= 0x80;
        v.push(0);
    }
    v
}

struct B {
    o: Vec<u8>,
    m: Vec<usize>,
}
impl B {
    fn new() -> B {
        B { o: vec![], m: vec![] }
    }
    fn u8(&mut self, x: u8) {
        self.m.push(self.o.len());
        self.o.push(x)
    }
    fn u16(&mut self, x: u16) {
        self.o.extend_from_slice(&x.to_be_bytes())
    }
    fn raw(&mut self, x: &[u8]) {
        self.o.extend_from_slice(x)
    }
    fn bin(&mut self, x: &[u8]) {
        self.m.push(self.o.len());
        self.m.push(self.o.len() + 1);
        self.u16(x.len() as u16);
        self.raw(x)
    }
    fn add(&mut self, mut other: B) {
        let base = self.o.len();
        self.m.extend(other.m.iter().map(|p| p + base));
        self.o.append(&mut other.o);
    }
}

/// text field contents: mostly UTF-8
fn text(r: &mut Rng, odd: bool) -> Vec<u8> {
    if odd && r.chance(4) {
        return r
            .pick(&[
                &[0x80u8][..],
                &[0xc0, 0x80],
                &[0xc1, 0xbf],
                &[0xc3],
                &[0xc3, 0x28],
                &[0xe0, 0x9f, 0xbf],
                &[0xe0, 0xa0],
                &[0xed, 0xa0, 0x80],
                &[0xed, 0xbf, 0xbf],
                &[0xef, 0xbf],
                &[0xf0, 0x8f, 0xbf, 0xbf],
                &[0xf4, 0x90, 0x80, 0x80],
                &[0xf5, 0x80, 0x80, 0x80],
                &[0xf8, 0x88, 0x80, 0x80, 0x80],
                &[0xfe],
                &[0xff],
                &[b'a', 0xff, b'b'],
                &[0xe2, 0x82, 0xac, 0x80],
                &[0xf0, 0x9f, 0x98],
                &[0xc3, 0xa9, 0xa9],
            ])
            .to_vec();
    }
    r.string().into_bytes()
}

pub const SECTIONS: [&str; 9] =
    ["connect", "will", "connack", "publish", "ack", "subscribe", "unsubscribe", "disconnect", "auth"];

pub fn allowed(sec: &str) -> &'static [u8] {
    match sec {
        "connect" => &[0x11, 0x15, 0x16, 0x17, 0x19, 0x21, 0x22, 0x26, 0x27],
        "will" => &[0x01, 0x02, 0x03, 0x08, 0x09, 0x18, 0x26],
        "connack" => &[
            0x11, 0x12, 0x13, 0x15, 0x16, 0x1a, 0x1c, 0x1f, 0x21, 0x22, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a,
        ],
        "publish" => &[0x01, 0x02, 0x03, 0x08, 0x09, 0x0b, 0x23, 0x26],
        "ack" => &[0x1f, 0x26],
        "subscribe" => &[0x0b, 0x26],
        "unsubscribe" => &[0x26],
        "disconnect" => &[0x11, 0x1c, 0x1f, 0x26],
        _ => &[0x15, 0x16, 0x1f, 0x26],
    }
}

/// a property with a value of the type its identifier has
pub fn property(r: &mut Rng, id: u8, odd: bool) -> Vec<u8> {
    let mut w = B::new();
    w.u8(id);
    match id {
        0x02 | 0x11 | 0x18 | 0x27 => {
            let x = r.u32();
            let x = if x == 0 && id == 0x27 && !odd { 1 } else { x };
            w.raw(&x.to_be_bytes())
        }
        0x13 | 0x21 | 0x22 | 0x23 => {
            let x = r.u16();
            w.u16(if x == 0 && !odd && id != 0x13 && id != 0x22 { 1 } else { x })
        }
        0x01 | 0x17 | 0x19 | 0x25 | 0x28 | 0x29 | 0x2a => {
            let x = if odd && r.chance(10) { r.u8() } else { r.flag() as u8 };
            w.u8(x)
        }
        0x24 => {
            let x = if odd && r.chance(10) { r.u8() } else { r.flag() as u8 };
            w.u8(x)
        }
        0x0b => {
            let x = r.var(false);
            let x = if odd && r.chance(5) { 0 } else { x };
            if odd && r.chance(5) {
                let l = r.range(2, 5);
                w.raw(&var_long(x, l))
            } else {
                w.raw(&var(x))
            }
        }
        0x09 => {
            let n = r.len();
            w.bin(&r.bytes(n))
        }
        0x26 => {
            let k = if r.chance(50) { r.pick(&["", "a", "b", "k"]).as_bytes().to_vec() } else { text(r, odd) };
            let v = if r.chance(40) { r.pick(&["", "1", "2", "3"]).as_bytes().to_vec() } else { text(r, odd) };
            w.bin(&k);
            w.bin(&v)
        }
        _ => w.bin(&text(r, odd)),
    }
    w.o
}

#[derive(Clone, Copy)]
pub struct Opt {
    /// allow semantically odd or malformed contents
    pub odd: bool,
    /// prefer user properties
    pub user: bool,
    /// prefer absent parts
    pub short: bool,
}

fn section(r: &mut Rng, sec: &str, o: Opt) -> B {
    let ids = allowed(sec);
    let mut ps: Vec<Vec<u8>> = vec![];
    let shape = r.below(100);
    if o.user {
        let n = r.many().unwrap_or_else(|| r.range(1, 8));
        for _ in 0..n {
            ps.push(property(r, 0x26, o.odd))
        }
        for _ in 0..r.below(3) {
            let id = *r.pick(ids);
            ps.push(property(r, id, o.odd))
        }
    } else if o.short && shape < 70 || shape < 25 {
        // none
    } else if shape < 45 {
        let id = *r.pick(ids);
        ps.push(property(r, id, o.odd))
    } else {
        for id in ids {
            if r.flag() {
                ps.push(property(r, *id, o.odd));
                while (*id == 0x26 || (*id == 0x0b && sec == "publish")) && r.flag() {
                    ps.push(property(r, *id, o.odd))
                }
            }
        }
    }
    // any order
    for k in (1..ps.len()).rev() {
        let j = r.below(k + 1);
        ps.swap(k, j);
    }
    if !o.odd {
        // at most once, except where repetition is allowed
        let mut seen = vec![];
        ps.retain(|p| {
            let rep = p[0] == 0x26 || (p[0] == 0x0b && sec == "publish");
            let keep = rep || !seen.contains(&p[0]);
            seen.push(p[0]);
            keep
        });
        // authentication data needs its method
        if matches!(sec, "connect" | "connack" | "auth")
            && (sec == "auth" && !ps.is_empty() || ps.iter().any(|p| p[0] == 0x16))
            && !ps.iter().any(|p| p[0] == 0x15)
        {
            ps.push(property(r, 0x15, false));
        }
    } else if r.chance(8) {
        let id = if r.flag() { *r.pick(&[0x00, 0x04, 0x0a, 0x0c, 0x14, 0x1b, 0x1d, 0x20, 0x2b, 0x7f, 0x80, 0xff]) } else { (r.next() % 0x2b) as u8 };
        let at = r.below(ps.len() + 1);
        let p = property(r, id, o.odd);
        ps.insert(at, p);
    } else if r.chance(4) && !ps.is_empty() {
        let at = r.below(ps.len());
        let p = ps[at].clone();
        ps.push(p);
    }
    let mut body = B::new();
    for p in ps {
        body.m.push(body.o.len());
        if p.len() > 2 {
            body.m.push(body.o.len() + 2);
        }
        body.raw(&p);
    }
    let mut w = B::new();
    let n = body.o.len() as u32;
    let l = if o.odd && r.chance(4) { var_long(n, r.range(2, 5)) } else { var(n) };
    for k in 0..l.len() {
        w.m.push(k)
    }
    w.raw(&l);
    w.add(body);
    w
}

const REASONS: [u8; 22] =
    [0, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151, 153, 154, 155, 156, 157, 159];
const DISC: [u8; 29] = [
    0, 4, 128, 129, 130, 131, 135, 137, 139, 141, 142, 143, 144, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157,
    158, 159, 160, 161, 162,
];

fn a_code(r: &mut Rng, o: Opt, good: &[u8]) -> u8 {
    if o.odd && r.chance(5) {
        r.u8()
    } else if r.chance(25) {
        good[0]
    } else {
        *r.pick(good)
    }
}

fn mid(r: &mut Rng, o: Opt) -> u16 {
    let x = r.u16();
    if x == 0 && !o.odd {
        7
    } else {
        x
    }
}

fn nlist(r: &mut Rng) -> usize {
    if let Some(n) = r.many() {
        return n;
    }
    match r.below(100) {
        0..=49 => 1,
        50..=92 => r.range(2, 4),
        93..=98 => r.range(5, 12),
        _ => r.range(100, 130),
    }
}

fn topic(r: &mut Rng, o: Opt, filter: bool) -> Vec<u8> {
    if filter && r.chance(10) {
        return r.pick(&["#", "+", "a/#", "+/b", "a/+/c", "$share/g/t", "$SYS/#", "/", "//"]).as_bytes().to_vec();
    }
    let mut t = text(r, o.odd);
    if !o.odd {
        t.retain(|c| !matches!(c, b'#' | b'+' | 0));
    }
    if t.is_empty() && !(o.odd && r.chance(20)) {
        t.push(b't')
    }
    t
}

/// a packet of type t at version v
pub fn packet(r: &mut Rng, t: &str, v: u8, o: Opt) -> Wire {
    r.packet();
    let mut w = B::new();
    let mut flags = 0u8;
    let types;
    match t {
        "connect" => {
            types = 1;
            let ver = v;
            let name: &[u8] = if (ver == 3) != (o.odd && r.chance(5)) { b"MQIsdp" } else { b"MQTT" };
            let other = text(r, true);
            w.bin(if o.odd && r.chance(3) {
                *r.pick(&[&b"MQTt"[..], b"MQIsd", b"mqtt", b"", b"MQTTT", b"MQIsdp\0", b"MQTT\xff", &other, &other, &other])
            } else {
                name
            });
            let user = r.flag();
            let pass = if user || ver == 5 || (o.odd && r.chance(10)) { r.flag() } else { false };
            let will = r.chance(60);
            let clean = r.flag();
            let retain = will && r.flag();
            let qos = if will { r.below(3) as u8 } else { 0 };
            let mut fl = (user as u8) << 7
                | (pass as u8) << 6
                | (retain as u8) << 5
                | qos << 3
                | (will as u8) << 2
                | (clean as u8) << 1;
            if o.odd && r.chance(5) {
                fl ^= 1 << r.below(8)
            }
            w.u8(if o.odd && r.chance(4) { r.u8() } else if o.odd && r.chance(2) { ver | 0x80 } else { ver });
            w.u8(fl);
            w.u16(r.u16());
            if ver == 5 {
                let s = section(r, "connect", o);
                w.add(s)
            }
            let mut cid = text(r, o.odd);
            if !o.odd {
                cid.retain(|c| *c != 0);
                if ver == 3 {
                    while cid.len() > 23 || String::from_utf8(cid.clone()).is_err() {
                        cid.pop();
                    }
                }
                if cid.is_empty() && !(ver == 5 || (ver == 4 && clean)) {
                    cid.push(b'c')
                }
            }
            w.bin(&cid);
            if will {
                if ver == 5 {
                    let s = section(r, "will", o);
                    w.add(s)
                }
                w.bin(&topic(r, o, false));
                w.bin(&text(r, o.odd));
            }
            if user {
                w.bin(&text(r, o.odd))
            }
            if pass {
                w.bin(&text(r, o.odd))
            }
        }
        "connack" => {
            types = 2;
            let code = if v == 5 { a_code(r, o, &REASONS) } else { a_code(r, o, &[0, 1, 2, 3, 4, 5]) };
            let sp = if o.odd && r.chance(6) {
                r.u8()
            } else {
                (r.flag() && (v != 3 || o.odd) && (code == 0 || o.odd)) as u8
            };
            w.u8(sp);
            w.u8(code);
            if v == 5 && !(o.short && r.flag() || r.chance(10)) {
                let s = section(r, "connack", o);
                w.add(s)
            }
        }
        "publish" => {
            types = 3;
            let qos = r.below(3) as u8;
            flags = qos << 1 | r.flag() as u8;
            if qos > 0 && r.flag() || o.odd && r.chance(5) {
                flags |= 8
            }
            if o.odd && r.chance(3) {
                flags |= 6
            }
            w.bin(&topic(r, o, o.odd));
            if qos > 0 {
                w.u16(mid(r, o))
            }
            if v == 5 {
                let s = section(r, "publish", o);
                w.add(s)
            }
            let n = r.len();
            w.raw(&r.bytes(n));
        }
        "puback" | "pubrec" | "pubrel" | "pubcomp" => {
            types = match t {
                "puback" => 4,
                "pubrec" => 5,
                "pubrel" => {
                    flags = 2;
                    6
                }
                _ => 7,
            };
            w.u16(mid(r, o));
            if v == 5 {
                let good: &[u8] = if types < 6 { &[0, 16, 128, 131, 135, 144, 145, 151, 153] } else { &[0, 146] };
                let form = if o.short { r.below(3) } else { r.below(6) };
                if form > 0 {
                    w.u8(a_code(r, o, good));
                }
                if form > 1 {
                    let s = section(r, "ack", o);
                    w.add(s)
                }
            }
        }
        "subscribe" => {
            types = 8;
            flags = 2;
            w.u16(mid(r, o));
            if v == 5 {
                let s = section(r, "subscribe", o);
                w.add(s)
            }
            for _ in 0..nlist(r) {
                let tp = topic(r, o, true);
                let mut opts = r.below(3) as u8;
                if v == 5 {
                    opts |= (r.below(3) as u8) << 4 | (r.below(4) as u8) << 2;
                    if !o.odd && tp.starts_with(b"$share/") {
                        opts &= !4
                    }
                }
                if o.odd && r.chance(4) {
                    opts ^= 1 << r.below(8)
                }
                w.bin(&tp);
                w.u8(opts)
            }
        }
        "suback" => {
            types = 9;
            w.u16(mid(r, o));
            if v == 5 {
                let s = section(r, "ack", o);
                w.add(s)
            }
            for _ in 0..nlist(r) {
                let c = if v == 5 {
                    a_code(r, o, &[0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162])
                } else if v == 4 || o.odd {
                    a_code(r, o, &[0, 1, 2, 128])
                } else {
                    a_code(r, o, &[0, 1, 2])
                };
                w.u8(c)
            }
        }
        "unsubscribe" => {
            types = 10;
            flags = 2;
            w.u16(mid(r, o));
            if v == 5 {
                let s = section(r, "unsubscribe", o);
                w.add(s)
            }
            for _ in 0..nlist(r) {
                let tp = topic(r, o, true);
                w.bin(&tp)
            }
        }
        "unsuback" => {
            types = 11;
            w.u16(mid(r, o));
            if v == 5 {
                let s = section(r, "ack", o);
                w.add(s);
                for _ in 0..nlist(r) {
                    w.u8(a_code(r, o, &[0, 17, 128, 131, 135, 143, 145]))
                }
            }
        }
        "pingreq" => types = 12,
        "pingresp" => types = 13,
        "disconnect" => {
            types = 14;
            if v == 5 {
                let form = if o.short { r.below(3) } else { r.below(6) };
                if form > 0 {
                    w.u8(a_code(r, o, &DISC));
                }
                if form > 1 {
                    let s = section(r, "disconnect", o);
                    w.add(s)
                }
            }
        }
        _ => {
            types = 15;
            let form = if o.short { r.below(2) } else { r.below(6) };
            if form > 0 {
                w.u8(a_code(r, o, &[0, 24, 25]));
                let s = section(r, "auth", o);
                w.add(s)
            }
        }
    }
    finish(types << 4 | flags, w, "grammar", if o.odd && r.chance(2) { Some(r.range(2, 5)) } else { None })
}

fn finish(h: u8, w: B, note: &'static str, long: Option<usize>) -> Wire {
    let l = match long {
        Some(k) => var_long(w.o.len() as u32, k),
        None => var(w.o.len() as u32),
    };
    let mut all = B::new();
    all.u8(h);
    for k in 0..l.len() {
        all.m.push(1 + k)
    }
    all.raw(&l);
    all.add(w);
    Wire { bytes: all.o, marks: all.m, note }
}

pub fn assemble(h: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![h];
    o.extend(var(body.len() as u32));
    o.extend_from_slice(body);
    o
}

/// splits header and body of a complete packet
pub fn split(b: &[u8]) -> Option<(u8, usize, usize)> {
    let (mut n, mut m) = (0usize, 1usize);
    for k in 1..5 {
        let x = *b.get(k)?;
        n += m * (x & 0x7f) as usize;
        m *= 128;
        if x < 0x80 {
            return Some((b[0], k + 1, n));
        }
    }
    None
}

/// one mutation; the result is again one complete packet (its remaining length is
/// recomputed unless the mutation is about that length)
pub fn mutate(r: &mut Rng, w: &Wire) -> Wire {
    let b = &w.bytes;
    let (h, st, _) = match split(b) {
        Some(x) => x,
        None => return w.clone(),
    };
    let mut body = b[st..].to_vec();
    let inner: Vec<usize> = w.marks.iter().filter(|p| **p >= st).map(|p| p - st).filter(|p| *p < body.len()).collect();
    let k = r.below(100);
    let (bytes, note) = match k {
        // structural byte set, incremented, bit flipped
        0..=34 if !inner.is_empty() => {
            let p = *r.pick(&inner);
            body[p] = match r.below(5) {
                0 => body[p].wrapping_add(1),
                1 => body[p].wrapping_sub(1),
                2 => body[p] ^ (1 << r.below(8)),
                _ => r.u8(),
            };
            (assemble(h, &body), "mark")
        }
        35..=49 if !body.is_empty() => {
            let p = r.below(body.len());
            body[p] = if r.flag() { body[p] ^ (1 << r.below(8)) } else { r.u8() };
            (assemble(h, &body), "byte")
        }
        50..=59 if !body.is_empty() => {
            let n = r.below(body.len());
            let n = if r.flag() { body.len() - 1 - n.min(body.len() - 1).min(3) } else { n };
            body.truncate(n);
            (assemble(h, &body), "cut")
        }
        60..=69 => {
            let n = r.range(1, 3);
            let x = r.bytes(n);
            body.extend(x);
            (assemble(h, &body), "append")
        }
        70..=76 if !body.is_empty() => {
            let p = r.below(body.len());
            body.remove(p);
            (assemble(h, &body), "delete")
        }
        77..=83 => {
            let p = r.below(body.len() + 1);
            body.insert(p, r.u8());
            (assemble(h, &body), "insert")
        }
        84..=91 => {
            let nh = if r.flag() { h ^ (1 << r.below(4)) } else { r.next() as u8 };
            (assemble(nh, &body), "header")
        }
        92..=95 if body.len() > 2 => {
            let p = r.below(body.len());
            let q = r.range(p, (p + 6).min(body.len() - 1));
            let part = body[p..=q].to_vec();
            let at = r.below(body.len());
            for (n, x) in part.into_iter().enumerate() {
                body.insert(at + n, x)
            }
            (assemble(h, &body), "duplicate")
        }
        _ => {
            let l = body.len() as u32;
            let mut o = vec![h];
            o.extend(var_long(l, r.range(2, 4)));
            o.extend_from_slice(&body);
            (o, "longlen")
        }
    };
    Wire { marks: w.marks.iter().cloned().filter(|p| *p < bytes.len()).collect(), bytes, note }
}

pub const PLACES: [&str; 14] = [
    "connect", "will", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback",
    "unsubscribe", "unsuback", "disconnect", "auth",
];

/// a property with a fixed value: the smallest one or another
fn plain_property(id: u8, k: usize) -> Vec<u8> {
    let mut p = vec![id];
    p.extend_from_slice(match (id, k) {
        (0x02 | 0x11 | 0x18, 0) => &[0, 0, 0, 0],
        (0x27, 0) => &[0, 0, 0, 1],
        (0x02 | 0x11 | 0x18 | 0x27, _) => &[1, 2, 3, 4],
        (0x13 | 0x22, 0) => &[0, 0],
        (0x21 | 0x23, 0) => &[0, 1],
        (0x13 | 0x21 | 0x22 | 0x23, _) => &[1, 2],
        (0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2a, 0) => &[0],
        (0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2a, _) => &[1],
        (0x0b, 0) => &[1],
        (0x0b, _) => &[0x81, 2],
        (0x26, 0) => &[0, 0, 0, 0],
        (0x26, _) => &[0, 1, b'k', 0, 2, b'v', b'w'],
        (_, 0) => &[0, 0],
        _ => &[0, 2, b'x', b'y'],
    });
    p
}

/// systematic inputs: every value of every structural byte in otherwise valid packets
pub fn enumerate() -> Vec<(Vec<u8>, &'static str)> {
    let mut o: Vec<(Vec<u8>, &'static str)> = vec![];
    let v5c = |flags: u8, ver: u8, rest: &[u8]| {
        let mut x = vec![0, 4, b'M', b'Q', b'T', b'T', ver, flags, 0, 60];
        x.extend_from_slice(rest);
        assemble(0x10, &x)
    };
    // every header byte with several bodies
    for h in 0..=255u8 {
        for body in [
            &[][..],
            &[0],
            &[0, 0],
            &[0, 10],
            &[0, 10, 0],
            &[0, 1, b't'],
            &[0, 10, 0, 0, 1, b't'],
            &[0, 10, 0, 0, 1, b't', 1],
            &[0, 10, 0, 1, b't', 1],
            &[0, 10, 0, 1],
            &[0, 1, b't', 0, 7, 0],
        ] {
            o.push((assemble(h, body), "header"));
        }
    }
    for x in 0..=255u8 {
        // reason codes
        for h in [0x40u8, 0x50, 0x62, 0x70] {
            o.push((assemble(h, &[0, 9, x]), "code"));
            o.push((assemble(h, &[0, 9, x, 0]), "code"));
            o.push((assemble(h, &[0, 9, x, 4, 0x1f, 0, 1, b'r']), "code"));
        }
        o.push((assemble(0xe0, &[x]), "code"));
        o.push((assemble(0xe0, &[x, 0]), "code"));
        o.push((assemble(0xf0, &[x]), "code"));
        o.push((assemble(0xf0, &[x, 0]), "code"));
        o.push((assemble(0xf0, &[x, 4, 0x15, 0, 1, b'm']), "code"));
        o.push((assemble(0x90, &[0, 9, x]), "code"));
        o.push((assemble(0x90, &[0, 9, 0, x]), "code"));
        o.push((assemble(0x90, &[0, 9, 0, 0, x, 1]), "code"));
        o.push((assemble(0x90, &[0, 9, 0, x, 1]), "code"));
        o.push((assemble(0xb0, &[0, 9, 0, x]), "code"));
        o.push((assemble(0xb0, &[0, 9, 0, 0, x, 17]), "code"));
        // connack flags and codes
        o.push((assemble(0x20, &[x, 0]), "flags"));
        o.push((assemble(0x20, &[x, 0, 0]), "flags"));
        o.push((assemble(0x20, &[0, x]), "code"));
        o.push((assemble(0x20, &[0, x, 0]), "code"));
        // subscription options
        o.push((assemble(0x82, &[0, 9, 0, 1, b't', x]), "options"));
        o.push((assemble(0x82, &[0, 9, 0, 0, 1, b't', x]), "options"));
        o.push((assemble(0x82, &[0, 9, 0, 0, 1, b't', 1, 0, 1, b'u', x]), "options"));
        // connect flags with the fields they announce, and version bytes
        for ver in [3u8, 4, 5] {
            let mut rest = vec![];
            if ver == 5 {
                rest.push(0)
            }
            rest.extend([0, 1, b'c']);
            if x & 4 != 0 {
                if ver == 5 {
                    rest.push(0)
                }
                rest.extend([0, 1, b'w', 0, 1, b'p'])
            }
            if x & 0x80 != 0 {
                rest.extend([0, 1, b'u'])
            }
            if x & 0x40 != 0 {
                rest.extend([0, 1, b's'])
            }
            o.push((v5c(x, ver, &rest), "connect flags"));
        }
        o.push((v5c(2, x, &[0, 1, b'c']), "version"));
        o.push((v5c(2, x, &[0, 0, 1, b'c']), "version"));
        // property identifiers in every section, with a value of each width
        for sec in SECTIONS {
            for val in [
                &[][..],
                &[1],
                &[0, 1],
                &[0, 1, b'x'],
                &[0, 0, 0, 1],
                &[0, 1, b'k', 0, 1, b'v'],
            ] {
                let mut p = vec![x];
                p.extend_from_slice(val);
                o.push((with_section(sec, &p), "property"));
            }
        }
    }
    // every protocol name of one character difference
    let mut names: Vec<Vec<u8>> = vec![];
    for name in [&b"MQTT"[..], b"MQIsdp"] {
        for k in 0..=name.len() {
            for c in 0..=255u8 {
                let mut x = name.to_vec();
                x.insert(k, c);
                names.push(x);
                if k < name.len() {
                    let mut x = name.to_vec();
                    x[k] = c;
                    names.push(x);
                }
            }
            if k < name.len() {
                let mut x = name.to_vec();
                x.remove(k);
                names.push(x);
                names.push(name[..k].to_vec());
                names.push(name[k..].to_vec());
            }
            for t in ["\u{a0}", "\u{feff}", "\u{200b}", "\u{2028}", "\u{3000}", "\r\n", "MQTT", "MQIsdp"] {
                names.push([&name[..k], t.as_bytes(), &name[k..]].concat());
            }
        }
        names.push(name.to_ascii_lowercase());
        names.push(name.to_ascii_uppercase());
        names.push(name.iter().rev().cloned().collect());
    }
    for (n, nm) in names.iter().enumerate() {
        let mut x = vec![0, nm.len() as u8];
        x.extend(nm);
        x.extend([[3, 4][n % 2], 2, 0, 60, 0, 1, b'c']);
        o.push((assemble(0x10, &x), "protocol name"));
    }
    // names of every length, made of characters of one to four bytes
    for n in 0..=40usize {
        for (first, c) in [("", "M"), ("", "\u{e9}"), ("", "\u{20ac}"), ("", "\u{1f600}"), ("M", "\u{e9}"), ("MQTT", "\u{20ac}"), ("MQIsdp", "\u{1f600}")] {
            let mut nm = first.to_string();
            for _ in 0..n {
                nm.push_str(c)
            }
            let nm = nm.as_bytes();
            let mut x = vec![(nm.len() >> 8) as u8, nm.len() as u8];
            x.extend_from_slice(nm);
            x.extend([4, 2, 0, 60, 0, 1, b'c']);
            o.push((assemble(0x10, &x), "protocol name"));
        }
    }
    // every property in every section, next to one that belongs there, and twice
    for sec in PLACES {
        for id in 0..=0x2bu8 {
            for k in 0..2 {
                let p = plain_property(id, k);
                o.push((with_section(sec, &p), "property"));
                for q in 0..2 {
                    let mut d = p.clone();
                    d.extend(plain_property(id, q));
                    o.push((with_section(sec, &d), "property pair"));
                }
                for id2 in allowed(if matches!(sec, "suback" | "unsuback" | "pubrec" | "pubrel" | "pubcomp" | "puback") { "ack" } else { sec }) {
                    let mut d = plain_property(*id2, 1 - k);
                    d.extend(&p);
                    o.push((with_section(sec, &d), "property pair"));
                    let mut d = p.clone();
                    d.extend(plain_property(*id2, 1));
                    o.push((with_section(sec, &d), "property pair"));
                }
            }
        }
    }
    o
}

/// a minimal packet whose property section (of the given kind) has this contents
pub fn with_section(sec: &str, props: &[u8]) -> Vec<u8> {
    let mut s = var(props.len() as u32);
    s.extend_from_slice(props);
    let cat = |a: &[u8], b: &[u8]| {
        let mut o = a.to_vec();
        o.extend_from_slice(&s);
        o.extend_from_slice(b);
        o
    };
    match sec {
        "connect" => assemble(0x10, &cat(&[0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 60], &[0, 1, b'c'])),
        "will" => assemble(
            0x10,
            &cat(&[0, 4, b'M', b'Q', b'T', b'T', 5, 6, 0, 60, 0, 0, 1, b'c'], &[0, 1, b'w', 0, 1, b'p']),
        ),
        "connack" => assemble(0x20, &cat(&[0, 0], &[])),
        "publish" => assemble(0x30, &cat(&[0, 1, b't'], b"pay")),
        "subscribe" => assemble(0x82, &cat(&[0, 9], &[0, 1, b't', 1])),
        "unsubscribe" => assemble(0xa2, &cat(&[0, 9], &[0, 1, b't'])),
        "disconnect" => assemble(0xe0, &cat(&[0], &[])),
        "auth" => assemble(0xf0, &cat(&[24], &[])),
        "suback" => assemble(0x90, &cat(&[0, 9], &[1])),
        "unsuback" => assemble(0xb0, &cat(&[0, 9], &[0])),
        "pubrec" => assemble(0x50, &cat(&[0, 9, 0], &[])),
        "pubrel" => assemble(0x62, &cat(&[0, 9, 0], &[])),
        "pubcomp" => assemble(0x70, &cat(&[0, 9, 0], &[])),
        _ => assemble(0x40, &cat(&[0, 9, 0], &[])),
    }
}
