//! Pairs of byte strings that differ in one place: a property removed, changed, moved or
//! added, a byte of another field changed, the end cut off.  What such a change does to the
//! decoded packet follows few patterns (one field differs, what was written is written
//! again); the specification judges the executions that do not follow a pattern seen before.
use crate::codec::*;
use crate::exec::*;
use crate::json::*;
use crate::model::to_j;
use crate::pool::*;
use crate::rng::{Dict, Rng};
use crate::sweep::{parallel, parts, Novel};
use crate::wire::{allowed, assemble, property, var};
use mqtt_packet_3_5::MqttPacket;

/// header byte, what is before the property section, the section, what is after it
#[derive(Clone)]
struct Frame {
    t: usize,
    v: u8,
    h: u8,
    pre: Vec<u8>,
    sec: &'static str,
    props: Vec<Vec<u8>>,
    post: Vec<u8>,
}
impl Frame {
    fn bytes(&self) -> Vec<u8> {
        let mut o = self.pre.clone();
        if !self.sec.is_empty() {
            let ps = self.props.concat();
            o.extend(var(ps.len() as u32));
            o.extend(ps);
        }
        o.extend_from_slice(&self.post);
        assemble(self.h, &o)
    }
}

fn field(x: &[u8]) -> Vec<u8> {
    let mut o = (x.len() as u16).to_be_bytes().to_vec();
    o.extend_from_slice(x);
    o
}
fn text(r: &mut Rng) -> Vec<u8> {
    let t = r.string();
    let mut t: String = t.chars().filter(|c| *c != '\0').take(40).collect();
    if t.is_empty() {
        t.push('t')
    }
    field(t.as_bytes())
}
fn section(r: &mut Rng, sec: &str) -> Vec<Vec<u8>> {
    let ids = allowed(sec);
    let mut o: Vec<Vec<u8>> = vec![];
    let n = *r.pick(&[0usize, 1, 1, 2, 2, 3, 4, 6, 9]);
    for _ in 0..n {
        let id = *r.pick(ids);
        if id != 0x26 && !(id == 0x0b && sec == "publish") && o.iter().any(|p| p[0] == id) {
            continue;
        }
        let p = property(r, id, false);
        if p.len() < 60 {
            o.push(p)
        }
    }
    if matches!(sec, "connect" | "connack" | "auth") && o.iter().any(|p| p[0] == 0x16) && !o.iter().any(|p| p[0] == 0x15) {
        o.insert(0, property(r, 0x15, false))
    }
    o
}

fn frame(r: &mut Rng, t: usize, v: u8) -> Frame {
    let m = r.u16().max(1).to_be_bytes().to_vec();
    let mut f = Frame { t, v, h: 0, pre: vec![], sec: "", props: vec![], post: vec![] };
    let mut codes = |r: &mut Rng, list: &[u8]| (0..r.range(1, 4)).map(|_| *r.pick(list)).collect::<Vec<u8>>();
    match t {
        // CONNECT, the section of the connection or of the will
        0 | 1 => {
            f.h = 0x10;
            let will = t == 1;
            let user = r.flag();
            let pass = r.flag() && (user || v == 5);
            let flags = (user as u8) << 7 | (pass as u8) << 6 | if will { 4 | (r.below(3) as u8) << 3 | (r.flag() as u8) << 5 } else { 0 };
            let cid = if r.chance(20) { vec![0, 0] } else { text(r) };
            let clean = r.flag() || cid.len() == 2;
            let name: &[u8] = if v == 3 { b"MQIsdp" } else { b"MQTT" };
            f.pre = field(name);
            f.pre.push(v);
            f.pre.push(flags | (clean as u8) << 1);
            f.pre.extend(r.u16().to_be_bytes());
            let mut rest = vec![];
            if will {
                rest.extend(text(r));
                let n = r.below(6);
                rest.extend(field("payload"[..n].as_bytes()))
            }
            if user {
                rest.extend(text(r))
            }
            if pass {
                rest.extend(text(r))
            }
            if v == 5 {
                if will {
                    let c = section(r, "connect").concat();
                    f.pre.extend(var(c.len() as u32));
                    f.pre.extend(c);
                    f.pre.extend(cid);
                    f.sec = "will";
                } else {
                    f.sec = "connect";
                    f.post = cid
                }
            } else {
                f.post = cid
            }
            f.post.extend(rest)
        }
        2 => {
            f.h = 0x20;
            let sp = r.flag() as u8;
            f.pre = vec![sp, if v == 5 { *r.pick(&[0, 0, 0x80, 0x87, 0x9f]) } else { r.below(6) as u8 }];
            if sp == 1 {
                f.pre[1] = 0
            }
            if v == 5 {
                f.sec = "connack"
            }
        }
        3 => {
            let q = r.below(3) as u8;
            f.h = 0x30 | q << 1 | r.flag() as u8 | if q > 0 && r.flag() { 8 } else { 0 };
            f.pre = text(r);
            f.pre.retain(|c| !matches!(c, b'+' | b'#'));
            let n = f.pre.len();
            if n > 2 {
                f.pre[0] = ((n - 2) >> 8) as u8;
                f.pre[1] = (n - 2) as u8;
            }
            if std::str::from_utf8(&f.pre[2..]).is_err() || n == 2 {
                f.pre = vec![0, 1, b't']
            }
            if q > 0 {
                f.pre.extend(m)
            }
            let n = r.below(5);
            f.post = r.bytes(n);
            if v == 5 {
                f.sec = "publish"
            }
        }
        4..=7 => {
            f.h = [0x40, 0x50, 0x62, 0x70][t - 4];
            f.pre = m;
            if v == 5 {
                f.pre.push(if t < 6 { *r.pick(&[0, 0x10, 0x80, 0x87, 0x91, 0x97]) } else { *r.pick(&[0, 0x92]) });
                f.sec = "ack"
            }
        }
        8 => {
            f.h = 0x82;
            f.pre = m;
            for _ in 0..r.range(1, 3) {
                f.post.extend(text(r));
                let o = r.below(3) as u8 | if v == 5 { (r.flag() as u8) << 2 | (r.flag() as u8) << 3 | (r.below(3) as u8) << 4 } else { 0 };
                f.post.push(o)
            }
            if v == 5 {
                f.sec = "subscribe"
            }
        }
        9 => {
            f.h = 0x90;
            f.pre = m;
            f.post = codes(r, if v == 5 { &[0, 1, 2, 0x80, 0x87, 0x9e, 0xa2] } else { &[0, 1, 2, 0x80] });
            if v == 5 {
                f.sec = "ack"
            }
        }
        10 => {
            f.h = 0xa2;
            f.pre = m;
            for _ in 0..r.range(1, 3) {
                f.post.extend(text(r))
            }
            if v == 5 {
                f.sec = "unsubscribe"
            }
        }
        11 => {
            f.h = 0xb0;
            f.pre = m;
            if v == 5 {
                f.post = codes(r, &[0, 0x11, 0x80, 0x87, 0x8f]);
                f.sec = "ack"
            }
        }
        12 => {
            f.h = 0xe0;
            if v == 5 {
                f.pre = vec![*r.pick(&[0, 4, 0x81, 0x8e, 0x9c, 0x9d])];
                f.sec = "disconnect"
            }
        }
        _ => {
            f.h = 0xf0;
            f.pre = vec![*r.pick(&[0, 0x18, 0x19])];
            f.sec = "auth"
        }
    }
    if !f.sec.is_empty() {
        f.props = section(r, f.sec);
        if f.sec == "auth" && !f.props.iter().any(|p| p[0] == 0x15) {
            f.props.push(property(r, 0x15, false))
        }
    }
    f
}

/// other values of a property
fn values(r: &mut Rng, p: &[u8]) -> Vec<Vec<u8>> {
    let id = p[0];
    let mut o = vec![];
    let nums = r.dict.clone();
    let nums: Vec<u64> = nums.nums.iter().cloned().collect();
    let extra: Vec<u64> = (0..6).filter_map(|_| if nums.is_empty() { None } else { Some(*r.pick(&nums)) }).collect();
    match p.len() {
        5 if matches!(id, 0x02 | 0x11 | 0x18 | 0x27) => {
            for x in [0u64, 1, 2, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff].iter().chain(extra.iter()) {
                o.push([&[id], &(*x as u32).to_be_bytes()[..]].concat())
            }
        }
        3 if matches!(id, 0x13 | 0x21 | 0x22 | 0x23) => {
            for x in [0u64, 1, 2, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff].iter().chain(extra.iter()) {
                o.push([&[id], &(*x as u16).to_be_bytes()[..]].concat())
            }
        }
        2 if id != 0x0b => {
            for x in 0..=3u8 {
                o.push(vec![id, x])
            }
        }
        _ if id == 0x0b => {
            for x in [0u64, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455].iter().chain(extra.iter()) {
                if *x < 1 << 28 {
                    o.push([&[id], &var(*x as u32)[..]].concat())
                }
            }
        }
        _ => {}
    }
    for _ in 0..4 {
        let q = property(r, id, false);
        if q.len() < 60 {
            o.push(q)
        }
    }
    o
}

pub fn meta(seed: u64, dict: &Dict, deep: bool, emit: &str) -> Vec<J> {
    let rounds = if deep { 20000 } else { 1200 };
    parallel(14 * 3 * 4, |job| {
        let (t, v) = (job % 14, 5 - (job / 14 % 3) as u8);
        let mut r = Rng::new(seed ^ hash(&[77, job as u64]));
        r.dict = std::rc::Rc::new(dict.clone());
        let mut nv = Novel::new(1);
        let mut o: Vec<J> = vec![];
        if v < 5 && matches!(t, 13) {
            return o;
        }
        for _ in 0..if v == 5 { rounds } else { rounds / 4 } {
            r.packet();
            let f = frame(&mut r, t, v);
            let y0 = f.bytes();
            let q0 = match decode_one(&y0, v) {
                Out::Ok(q) => q,
                x => {
                    // frames are valid packets
                    if nv.fresh(hash(&[1, hash_bytes(x.k().as_bytes())])) {
                        push(&mut o, emit, &y0, v)
                    }
                    continue;
                }
            };
            let j0 = to_j(&q0);
            let mut tell = |what: &[u64], g: &Frame, y: &[u8], o: &mut Vec<J>| {
                about_to(|| obj(vec![("e", s("dec")), ("v", i(v)), ("b", b(y))]));
                let mut sig = what.to_vec();
                match decode_one(y, v) {
                    Out::Ok(q) => {
                        sig.push(1);
                        parts(&j0, &to_j(&q), 0, &mut sig);
                        sig.push(2);
                        kept(g, &q, v, &mut sig);
                    }
                    Out::Err(m) => sig.extend([3, m.sig()]),
                    Out::Panic => sig.push(4),
                }
                if nv.fresh(hash(&sig)) {
                    push(o, emit, y, v)
                }
            };
            tell(&[0], &f, &y0, &mut o);
            for k in 0..f.props.len() {
                let id = f.props[k][0] as u64;
                let mut g = f.clone();
                let old = g.props.remove(k);
                tell(&[10, id], &g, &g.bytes(), &mut o);
                let mut g2 = g.clone();
                let at = r.below(g.props.len() + 1);
                g2.props.insert(at, old.clone());
                tell(&[11, id], &g2, &g2.bytes(), &mut o);
                for x in values(&mut r, &old) {
                    let mut g2 = f.clone();
                    g2.props[k] = x;
                    tell(&[12, id], &g2, &g2.bytes(), &mut o);
                }
            }
            if !f.sec.is_empty() {
                for id in allowed(f.sec) {
                    let p = property(&mut r, *id, false);
                    let again = f.props.iter().any(|p| p[0] == *id);
                    if p.len() < 60 {
                        let mut g = f.clone();
                        let at = r.below(g.props.len() + 1);
                        g.props.insert(at, p);
                        tell(&[13, *id as u64, again as u64], &g, &g.bytes(), &mut o);
                    }
                }
            }
            // other fields
            for _ in 0..24 {
                let mut g = f.clone();
                let kind = r.below(8);
                if kind == 0 {
                    g.h ^= 1 << r.below(4);
                    tell(&[20], &g, &g.bytes(), &mut o);
                    continue;
                }
                let part = if kind < 5 { &mut g.pre } else { &mut g.post };
                if part.is_empty() {
                    continue;
                }
                let at = r.below(part.len());
                let x = match r.below(4) {
                    0 => part[at] ^ (1 << r.below(8)),
                    1 => part[at].wrapping_add(1),
                    2 => *r.pick(&[0, 1, 2, 0x10, 0x7f, 0x80, 0xff]),
                    _ => r.u8(),
                };
                part[at] = x;
                tell(&[21, (kind < 5) as u64], &g, &g.bytes(), &mut o);
            }
            let body = y0.len() - if y0.len() > 129 { 3 } else { 2 };
            for n in 0..body.min(7) {
                let cut = if n < 4 { n } else { body - (n - 3).min(body) };
                let y = assemble(f.h, &y0[y0.len() - body..][..cut]);
                tell(&[30], &f, &y, &mut o);
            }
        }
        o
    })
}

/// which of the parts are written again when the packet is encoded
fn kept(f: &Frame, q: &MqttPacket, v: u8, sig: &mut Vec<u64>) {
    match encode(q, v) {
        Enc::Ok(z) => {
            let at = if z.len() > 129 { 3 } else { 2 };
            let body = if z.len() >= at { &z[at..] } else { &[] };
            sig.push((z[0] == f.h) as u64);
            let two = f.sec == "will" || f.t == 0 && f.v == 5;
            if !two {
                sig.push(body.starts_with(&f.pre) as u64);
            } else {
                sig.push(body.starts_with(&f.pre[..f.pre.len().min(10)]) as u64);
            }
            sig.push(body.ends_with(&f.post) as u64);
            let mut lost: Vec<u64> = f.props.iter().filter(|p| !body.windows(p.len()).any(|w| w == &p[..])).map(|p| p[0] as u64).collect();
            lost.sort();
            lost.dedup();
            sig.extend(lost);
        }
        Enc::Err(m) => sig.extend([900, m.sig()]),
        Enc::Panic => sig.push(901),
    }
}

fn push(o: &mut Vec<J>, emit: &str, y: &[u8], v: u8) {
    if o.len() > 1500 {
        return;
    }
    match emit {
        "relay" => o.extend(relay_event(y, v, 4)),
        _ => o.push(dec_event(y, v).0),
    }
}
