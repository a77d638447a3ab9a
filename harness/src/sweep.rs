//! Exhaustive walks along one dimension of a packet: every length of a field, every value of
//! a number, every number of list items, every character.  All of them are executed; an
//! execution is recorded (and then judged by the specification) when it does not continue
//! the pattern of its predecessor, that is when its outcome, or the way its bytes differ from
//! those of the predecessor, was not seen before on this walk.
use crate::codec::*;
use crate::exec::*;
use crate::json::*;
use crate::model::to_j;
use crate::packets::{self, Focus};
use crate::pool::*;
use crate::rng::{Dict, Rng};
use mqtt_packet_3_5::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub static SCREENED: AtomicU64 = AtomicU64::new(0);
/// bytes of the packets recorded so far.  When everything is worth recording, something is
/// very wrong, and part of it will do.
static RECORDED: AtomicU64 = AtomicU64::new(0);
static ENOUGH: AtomicU64 = AtomicU64::new(6 << 20);

/// runs jobs on several threads; results in the order of the jobs
pub fn parallel<T: Send>(jobs: usize, f: impl Fn(usize) -> Vec<T> + Sync) -> Vec<T> {
    let threads = if is_careful() { 1 } else { 8 };
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<(usize, Vec<T>)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= jobs {
                        break;
                    }
                    let x = f(k);
                    done.lock().unwrap().push((k, x));
                })
                .unwrap();
        }
    });
    let mut d = done.into_inner().unwrap();
    d.sort_by_key(|x| x.0);
    d.into_iter().flat_map(|x| x.1).collect()
}

/// remembers which patterns occurred
pub struct Novel {
    seen: HashMap<u64, u32>,
    cap: u32,
    count: u64,
    /// patterns known to be stale
    stale: [u64; 4],
}
impl Drop for Novel {
    fn drop(&mut self) {
        SCREENED.fetch_add(self.count, Ordering::Relaxed);
    }
}
impl Novel {
    pub fn new(cap: u32) -> Novel {
        Novel { seen: HashMap::new(), cap, count: 0, stale: [0; 4] }
    }
    pub fn fresh(&mut self, sig: u64) -> bool {
        self.count += 1;
        if self.count % 1024 == 0 {
            BEAT.fetch_add(1, Ordering::Relaxed);
        }
        if self.stale.contains(&sig) {
            return false;
        }
        let c = self.seen.entry(sig).or_insert(0);
        *c += 1;
        if *c > self.cap {
            self.stale[self.count as usize % 4] = sig;
            return false;
        }
        true
    }
}

/// how two byte strings differ
pub fn delta(a: &[u8], c: &[u8]) -> u64 {
    if a.len() != c.len() {
        let k = a.len().min(c.len()).min(6);
        let mut h = vec![1, (c.len() as u64).wrapping_sub(a.len() as u64)];
        h.extend((0..k).map(|j| c[j].wrapping_sub(a[j]) as u64));
        return hash(&h);
    }
    let mut h = vec![2];
    for j in 0..a.len() {
        if a[j] != c[j] {
            h.push(j as u64);
            h.push(c[j].wrapping_sub(a[j]) as u64);
        }
    }
    hash(&h)
}

#[derive(Clone)]
pub enum Val {
    Text(String),
    Num(u64),
}
type Set = Box<dyn Fn(&mut MqttPacket, &Val) -> bool>;

#[derive(Clone, Copy, PartialEq)]
enum Range {
    U8,
    U16,
    U32,
    Var,
    Count,
}

/// numbers and lists of a packet
fn numbers(t: &str) -> Vec<(Range, &'static str, Set)> {
    let mut o: Vec<(Range, &'static str, Set)> = vec![];
    macro_rules! num {
        ($r:ident, $name:expr, $v:ident, $p:ident, $x:ident => $body:expr) => {
            o.push((Range::$r, $name, Box::new(|p: &mut MqttPacket, x: &Val| -> bool {
                let $x = match x { Val::Num(x) => *x, _ => return false };
                if let MqttPacket::$v($p) = p { $body } else { false }
            })));
        };
    }
    macro_rules! prop {
        ($r:ident, $f:ident, $v:ident, $x:ident => $val:expr) => {
            num!($r, stringify!($f), $v, p, $x => match &mut p.properties { Some(q) => { q.$f = $val; true } None => false });
        };
    }
    macro_rules! will {
        ($r:ident, $f:ident, $x:ident => $val:expr) => {
            num!($r, stringify!($f), Connect, p, $x => match p.will.as_mut().and_then(|w| w.properties.as_mut()) { Some(q) => { q.$f = $val; true } None => false });
        };
    }
    fn keys(n: u64) -> UserProperties {
        let mut m = UserProperties::new();
        for k in 0..n {
            m.insert(format!("{:04}", k), vec!["v".into()]);
        }
        m
    }
    fn values(n: u64) -> UserProperties {
        let mut m = UserProperties::new();
        m.insert("k".into(), (0..n).map(|k| ((k % 10) as u8 + b'0') as char).map(String::from).collect());
        m
    }
    macro_rules! up {
        ($v:ident) => {
            prop!(Count, user_properties, $v, x => keys(x));
            prop!(Count, user_properties, $v, x => values(x));
        };
    }
    macro_rules! ackn {
        ($v:ident) => {
            num!(U16, "mid", $v, p, x => { p.message_id = x as u16; true });
            up!($v);
        };
    }
    match t {
        "connect" => {
            num!(U8, "version", Connect, p, x => { p.protocol_version = x as u8; true });
            num!(U16, "keep alive", Connect, p, x => { p.keep_alive = x as u16; true });
            num!(U8, "will qos", Connect, p, x => match &mut p.will { Some(w) => { w.qos = x as u8; true } None => false });
            prop!(U32, session_expiry_interval, Connect, x => x as u32);
            prop!(U16, receive_maximum, Connect, x => x as u16);
            prop!(U32, maximum_packet_size, Connect, x => Some(x as u32));
            prop!(U16, topic_alias_maximum, Connect, x => x as u16);
            up!(Connect);
            will!(U32, message_expiry_interval, x => Some(x as u32));
            will!(U32, will_delay_interval, x => x as u32);
            will!(Count, user_properties, x => keys(x));
            will!(Count, user_properties, x => values(x));
        }
        "connack" => {
            num!(U8, "return code", Connack, p, x => { p.return_code = Some(x as u8); true });
            num!(U8, "reason code", Connack, p, x => { p.reason_code = Some(x as u8); true });
            prop!(U32, session_expiry_interval, Connack, x => x as u32);
            prop!(U16, receive_maximum, Connack, x => x as u16);
            prop!(U8, maximum_qos, Connack, x => x as u8);
            prop!(U32, maximum_packet_size, Connack, x => Some(x as u32));
            prop!(U16, topic_alias_maximum, Connack, x => x as u16);
            prop!(U16, server_keep_alive, Connack, x => Some(x as u16));
            up!(Connack);
        }
        "publish" => {
            num!(U8, "qos", Publish, p, x => { p.qos = x as u8; true });
            num!(U16, "mid", Publish, p, x => { p.message_id = Some(x as u16); true });
            prop!(U32, message_expiry_interval, Publish, x => Some(x as u32));
            prop!(U16, topic_alias, Publish, x => Some(x as u16));
            prop!(Var, subscription_identifiers, Publish, x => vec![x as u32]);
            prop!(Var, subscription_identifiers, Publish, x => vec![7, x as u32, 9]);
            prop!(Count, subscription_identifiers, Publish, x => (0..x).map(|k| (k % 20 + 1) as u32).collect());
            up!(Publish);
        }
        "puback" => { ackn!(Puback); }
        "pubrec" => { ackn!(Pubrec); }
        "pubrel" => { ackn!(Pubrel); }
        "pubcomp" => { ackn!(Pubcomp); }
        "subscribe" => {
            num!(U16, "mid", Subscribe, p, x => { p.message_id = x as u16; true });
            num!(U8, "retain handling", Subscribe, p, x => { p.subscriptions[0].rh = Some(x as u8); true });
            num!(Count, "subscriptions", Subscribe, p, x => {
                let all = [QoS::QoS0, QoS::QoS1, QoS::QoS2];
                let rh = p.subscriptions[0].rh;
                p.subscriptions = (0..x).map(|k| Subscription {
                    topic: ["t", "a/b", "q"][k as usize % 3].into(), qos: all[k as usize / 3 % 3].clone(),
                    nl: false, rap: false, rh }).collect();
                true
            });
            prop!(Var, subscription_identifier, Subscribe, x => x as u32);
            up!(Subscribe);
        }
        "suback" => {
            num!(U16, "mid", Suback, p, x => { p.message_id = x as u16; true });
            num!(Count, "codes", Suback, p, x => {
                p.granted_reason_codes = (0..x).map(|k| if k % 3 == 0 { SubscriptionReasonCode::GrantedQoS1 } else { SubscriptionReasonCode::GrantedQoS0 }).collect();
                p.granted = (0..x).map(|k| if k % 3 == 0 { Granted::QoS1 } else { Granted::QoS2 }).collect();
                true
            });
            up!(Suback);
        }
        "unsubscribe" => {
            num!(U16, "mid", Unsubscribe, p, x => { p.message_id = x as u16; true });
            num!(Count, "topics", Unsubscribe, p, x => { p.unsubscriptions = (0..x).map(|k| ["t", "a/b"][k as usize % 2].to_string()).collect(); true });
            up!(Unsubscribe);
        }
        "unsuback" => {
            num!(U16, "mid", Unsuback, p, x => { p.message_id = x as u16; true });
            num!(Count, "codes", Unsuback, p, x => { p.granted = (0..x).map(|k| if k % 3 == 0 { UnsubackCode::NotAuthorized } else { UnsubackCode::Success }).collect(); true });
            up!(Unsuback);
        }
        "disconnect" => {
            prop!(U32, session_expiry_interval, Disconnect, x => Some(x as u32));
            up!(Disconnect);
        }
        "auth" => { up!(Auth); }
        _ => {}
    }
    o
}

fn around(o: &mut Vec<u64>, x: u64, max: u64) {
    for y in x.saturating_sub(2)..=x + 2 {
        if y <= max {
            o.push(y)
        }
    }
}

/// first every value up to `all`, then steps, boundaries and the numbers of the source text
fn walk(r: &mut Rng, all: u64, step: u64, max: u64) -> Vec<u64> {
    let mut o: Vec<u64> = (0..=all.min(max)).collect();
    let mut x = all + 1 + r.below(step.max(1) as usize) as u64;
    while x <= max {
        o.push(x);
        x += step;
    }
    for k in 0..40 {
        around(&mut o, 1 << k, max);
    }
    around(&mut o, max, max);
    for x in r.dict.nums.clone() {
        around(&mut o, x, max);
    }
    o.sort();
    o.dedup();
    o
}

fn chars(thorough: bool) -> Vec<char> {
    (0..=0x10ffffu32)
        .filter(|c| thorough || *c < 0x900 || c % 251 == 0 || (*c < 0x10000 && c % 31 == 0) || c & 0xffff >= 0xfff0 || c & 0xffff < 16
                || (0xfdd0..=0xfdf0).contains(c) || (0x2000..=0x2070).contains(c) || (0xd7f0..0xe010).contains(c) || (0xfe00..=0xff10).contains(c))
        .filter_map(char::from_u32)
        .collect()
}

fn texts(r: &Rng) -> Vec<String> {
    let mut o: Vec<String> = [
        "+", "#", "/", "//", "a/+", "a/#", "a/+/b", "+/+", "a#", "#/a", "a+", "$share/g/t", "$SYS/x", "$", " ", "a b", "/a", "a/", "\u{feff}",
        "\u{feff}a", "a\u{feff}", "MQTT", "MQIsdp", "null", "true", "0", "", "\r\n", "a\nb", "\"", "\\", "\\u0041", "\u{e9}", "e\u{301}",
        "{", "}", "[]", "{}", "'", "%00", "../..", "A", "TEST", "Test", "\u{212b}", "\u{0}",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    for x in r.dict.texts.iter() {
        o.push(x.clone());
        o.push(format!("{}a", x));
        o.push(format!("a{}", x));
        o.push(format!("a/{}/b", x));
        o.push(x.to_uppercase());
        o.push(format!("{}{}", x, x));
    }
    o.sort();
    o.dedup();
    o
}

struct Walk<'a> {
    emit: &'a str,
    base: MqttPacket,
    v: u8,
    /// the decoded base packet
    plain: MqttPacket,
    novel: Novel,
    /// bytes of the predecessor
    before: Vec<u8>,
    last: Option<MqttPacket>,
    out: Vec<J>,
}

fn read_version(p: &MqttPacket, v: u8) -> u8 {
    match p {
        MqttPacket::Connect(c) if (3..=5).contains(&c.protocol_version) => c.protocol_version,
        _ => v,
    }
}

impl<'a> Walk<'a> {
    fn start(emit: &'a str, base: MqttPacket, v: u8, cap: u32) -> Option<Walk<'a>> {
        let x = match encode(&base, v) {
            Enc::Ok(x) => x,
            _ => return None,
        };
        match decode_one(&x, v) {
            Out::Ok(plain) => Some(Walk { emit, base, v, plain, novel: Novel::new(cap), before: vec![], last: None, out: vec![] }),
            _ => None,
        }
    }
    /// one step; skip: how many bytes of filler there are
    fn step(&mut self, set: &dyn Fn(&mut MqttPacket, &Val) -> bool, x: &Val, fill: Option<usize>, long: Option<(&[&'static str], usize)>) {
        let mut p = self.base.clone();
        if !set(&mut p, x) {
            return;
        }
        if self.emit == "same" {
            about_to(|| obj(vec![("e", s("same")), ("p", to_j(&p)), ("q", to_j(&p))]));
            if let Some(q) = &self.last {
                let (equal, copy) = guarded(|| (p == *q || *q == p, p.clone() == p)).unwrap_or((true, false));
                if self.novel.fresh(equal as u64 * 2 + copy as u64) && fill.map_or(true, |n| n < 6000) {
                    self.out.push(crate::same::same_event(&p, q).0)
                }
            }
            self.last = Some(p);
            return;
        }
        about_to(|| obj(vec![("e", s("enc")), ("v", i(self.v)), ("p", to_j(&p))]));
        let out = encode(&p, self.v);
        let rv = read_version(&p, self.v);
        let mut sig = vec![];
        let mut suspicious = false;
        let mut size = 0;
        match &out {
            Enc::Ok(y) => {
                size = y.len();
                let mut want = self.plain.clone();
                set(&mut want, x);
                let d = decode_one(y, rv);
                let same = d == Out::Ok(want);
                suspicious = !same;
                sig.push(match d {
                    Out::Ok(_) => 1 + same as u64,
                    Out::Err(m) => m.sig(),
                    Out::Panic => 3,
                });
                // without the filler
                let bare: Vec<u8> = match fill {
                    Some(n) if n > 0 => match y.windows(n).position(|w| w.iter().all(|c| *c == b'x')) {
                        Some(at) => {
                            sig.push(at as u64);
                            y[..at].iter().chain(y[at + n..].iter()).cloned().collect()
                        }
                        None => y.clone(),
                    },
                    _ => y.clone(),
                };
                if let Val::Text(t) = x {
                    if fill.is_none() {
                        let pos = if t.is_empty() { Some(0) } else { y.windows(t.len()).position(|w| w == t.as_bytes()) };
                        sig.push(pos.unwrap_or(999999) as u64);
                        sig.push(y.len() as u64 - t.len() as u64);
                    }
                }
                if !matches!((x, fill), (Val::Text(_), None)) {
                    sig.push(delta(&self.before, &bare));
                }
                self.before = bare;
                if matches!(self.emit, "stream" | "cut" | "chunk" | "bad") {
                    // only what happens to the stream counts
                    sig.clear();
                }
                match self.emit {
                    "relay" => {
                        let mut cur = y.clone();
                        let mut first = None;
                        for _ in 0..2 {
                            match decode_one(&cur, rv) {
                                Out::Ok(q) => {
                                    sig.push(first.is_none() as u64 * 2 + (first == Some(q.clone())) as u64);
                                    match encode(&q, rv) {
                                        Enc::Ok(z) => cur = z,
                                        _ => sig.push(8),
                                    }
                                    first = Some(q);
                                }
                                _ => sig.push(9),
                            }
                        }
                        sig.push((cur == *y) as u64);
                    }
                    "stream" => {
                        let mut data = y.clone();
                        data.extend([0xc0, 0]);
                        let c = run_exact(&data, &[rv, 4], 3);
                        for c in &c {
                            sig.push(hash_bytes(c.out.k().as_bytes()));
                            sig.push(c.pos.wrapping_sub(y.len()) as u64);
                            sig.push((c.more == "yes") as u64);
                        }
                    }
                    "cut" => {
                        let data = std::rc::Rc::new([&y[..], &[0xd0, 0, 0xd0, 0]].concat());
                        for c in cuts(y.len()) {
                            for end in [End::Eof, End::ErrorOnce(std::io::ErrorKind::TimedOut)] {
                                let d = run_any(&data, &[rv], Plan::cut(c, end), Ctor::Buf(8192), 0, 1);
                                sig.push(d.first().map_or(0, |d| hash_bytes(d.k().as_bytes())));
                            }
                        }
                    }
                    "chunk" => {
                        let data = std::rc::Rc::new([&y[..], &[0xc0, 0]].concat());
                        let whole = run_any(&data, &[rv, 4], Plan::whole(), Ctor::Stream, 1, 4);
                        for (sizes, ctor) in deliveries(y.len()) {
                            let d = run_any(&data, &[rv, 4], Plan::sizes(sizes), ctor, 1, 4);
                            sig.push((d == whole) as u64);
                        }
                    }
                    "bad" => {
                        for w in damaged(y) {
                            let d = decode_one(&w, rv);
                            sig.push(hash_bytes(d.k().as_bytes()));
                        }
                    }
                    _ => {}
                }
            }
            Enc::Err(m) => sig.extend([5, m.sig()]),
            Enc::Panic => {
                sig.push(6);
                suspicious = true
            }
        }
        if self.emit == "level" {
            let bytes = match out {
                Enc::Ok(y) => y,
                _ => vec![],
            };
            sig = crate::level::differs(&p, self.v, &bytes, rv);
            let odd = sig.iter().any(|x| *x != 0);
            if (odd || fill.map_or(true, |n| n % 64 < 2)) && self.novel.fresh(hash(&sig)) && bytes.len() < if odd { 6000 } else { 600 } {
                self.out.extend(crate::level::both(&p, self.v, &bytes, rv))
            }
            return;
        }
        if self.emit == "serde" {
            let (ev, same) = crate::prims::serde_event(&p, false);
            sig = vec![same as u64];
            if self.novel.fresh(hash(&sig)) && (size < 6000 || !same) {
                self.out.push(ev)
            }
            return;
        }
        if !self.novel.fresh(hash(&sig)) {
            return;
        }
        if size > 3000 && !suspicious && self.emit != "bad" && self.emit != "cut" && self.emit != "chunk" && self.emit != "stream" || size == 0 && long.map_or(false, |l| l.1 > 3000) {
            if let (Some((loc, n)), "enc") = (long, self.emit) {
                let set = |p: &mut MqttPacket, t: String| set(p, &Val::Text(t));
                self.out.push(long_event(&self.base, self.v, loc, &set, n))
            }
            return;
        }
        let weight = match self.emit {
            "relay" | "bad" | "chunk" => 3 * size,
            _ => size,
        };
        if size > 150 && RECORDED.fetch_add(weight as u64, Ordering::Relaxed) > ENOUGH.load(Ordering::Relaxed) {
            return;
        }
        match (self.emit, &out) {
            ("enc", _) => self.out.push(enc_event(&p, self.v).0),
            ("dec", Enc::Ok(y)) => self.out.push(dec_event(y, rv).0),
            ("relay", Enc::Ok(y)) => self.out.extend(relay_event(y, rv, 4)),
            ("cut", Enc::Ok(y)) => self.out.push(crate::stream::cut_event(y, rv, &cuts(y.len()), true)),
            ("chunk", Enc::Ok(y)) => {
                let data = [&y[..], &[0xc0, 0]].concat();
                let mut r = Rng::new(1);
                for (sizes, _) in deliveries(y.len()) {
                    self.out.push(crate::stream::chunk_event(&mut r, data.clone(), &[rv, 4], 4, Some(sizes)).0)
                }
            }
            ("bad", Enc::Ok(y)) => self.out.extend(damaged(y).iter().map(|w| dec_event(w, rv).0)),
            ("stream", Enc::Ok(y)) => self.out.push(crate::stream::stream_event(&[y.clone()], &[0xc0, 0], &[rv, 4]).0),
            _ => {}
        }
    }
}

fn cuts(len: usize) -> Vec<usize> {
    let mut c: Vec<usize> = [1, 2, 3, len / 2, len.saturating_sub(2), len.saturating_sub(1)].into_iter().filter(|c| *c < len).collect();
    c.dedup();
    c
}
fn deliveries(len: usize) -> Vec<(Vec<usize>, Ctor)> {
    vec![
        (vec![1], Ctor::Buf(1)),
        (vec![0, 7], Ctor::Reader(16)),
        (vec![len.saturating_sub(1).max(1), 0], Ctor::Stream),
        (vec![len / 2 + 1, 0, 0], Ctor::Buf(8192)),
        (vec![5, len], Ctor::Looked(64)),
    ]
}
/// the body one byte shorter or longer, inner lengths as they were
fn damaged(y: &[u8]) -> Vec<Vec<u8>> {
    let (h, st, len) = match wire::split(y) {
        Some(x) => x,
        None => return vec![],
    };
    let body = &y[st..st + len];
    let mut o = vec![wire::assemble(h, &[body, &[0]].concat())];
    if !body.is_empty() {
        o.push(wire::assemble(h, &body[..len - 1]));
        o.push(wire::assemble(h, &body[1..]));
    }
    if len > 4 {
        o.push(wire::assemble(h, &body[..len - 3]));
        o.push(wire::assemble(h ^ 1, body));
    }
    o
}

/// a packet in which the field can be set
fn base(r: &mut Rng, t: &str, v: u8, k: usize, set: &dyn Fn(&mut MqttPacket, &Val) -> bool, x: &Val) -> Option<MqttPacket> {
    for _ in 0..400 {
        let fo = if k == 0 { Focus::Props } else { Focus::Any };
        let p = packets::packet(r, t, v, fo);
        if to_j(&p).text().len() > 3000 {
            continue;
        }
        let mut q = p.clone();
        if matches!(encode(&p, v), Enc::Ok(_)) && set(&mut q, x) {
            if let Enc::Ok(y) = encode(&q, v) {
                if let Out::Ok(mut d) = decode_one(&y, v) {
                    // the field survives at this version
                    if set(&mut d, x) {
                        return Some(q);
                    }
                }
            }
        }
    }
    None
}

/// what tells two packets apart: the parts that differ
pub fn parts(a: &J, c: &J, path: u64, o: &mut Vec<u64>) {
    if a == c {
        return;
    }
    match (a, c) {
        (J::Obj(x), J::Obj(y)) if x.len() == y.len() => {
            for (p, q) in x.iter().zip(y.iter()) {
                parts(&p.1, &q.1, hash(&[path, hash_bytes(p.0.as_bytes())]), o)
            }
        }
        (J::Arr(x), J::Arr(y)) if x.len() == y.len() => {
            for (p, q) in x.iter().zip(y.iter()) {
                parts(p, q, hash(&[path, 1]), o)
            }
        }
        _ => o.push(path),
    }
}

/// The values of one field in many contexts: packets that differ in everything else.
/// Recorded is what does not come back as it was, what is refused, and what changes bytes
/// elsewhere in the packet.
#[allow(clippy::too_many_arguments)]
fn cross(r: &mut Rng, emit: &str, t: &str, v: u8, deep: bool, set: &dyn Fn(&mut MqttPacket, &Val) -> bool, first: &Val, list: &[Val], o: &mut Vec<J>) {
    let mut nv = Novel::new(2);
    for k in 0..if deep { 2500 } else { 150 } {
        let p = match base(r, t, v, k % 2, set, first) {
            Some(p) => p,
            None => return,
        };
        let (y0, plain) = match encode(&p, v) {
            Enc::Ok(y) => match decode_one(&y, v) {
                Out::Ok(q) => (y, q),
                _ => continue,
            },
            _ => continue,
        };
        let rv = read_version(&p, v);
        // whether this version has the field at all
        let carried = {
            let mut d = plain.clone();
            set(&mut d, first) && d == plain
        };
        for x in list {
            let mut q = p.clone();
            if !set(&mut q, x) {
                continue;
            }
            let what = match x {
                Val::Text(t) => hash_bytes(t.as_bytes()),
                Val::Num(n) => *n,
            };
            if emit == "same" {
                about_to(|| obj(vec![("e", s("same")), ("p", to_j(&q)), ("q", to_j(&p))]));
                // equal to the packet it was made from
                let equal = guarded(|| q == p || q.clone() != q).unwrap_or(true);
                if equal && nv.fresh(what) || r.below(9000) == 0 {
                    o.push(crate::same::same_event(&q, &p).0)
                }
                continue;
            }
            about_to(|| obj(vec![("e", s("enc")), ("v", i(v)), ("p", to_j(&q))]));
            let out = encode(&q, v);
            let mut sig = vec![];
            let bytes = match &out {
                Enc::Ok(y) => {
                    let mut want = plain.clone();
                    if carried {
                        set(&mut want, x);
                    }
                    match decode_one(y, rv) {
                        Out::Ok(got) if got == want => {}
                        Out::Ok(got) => {
                            sig.push(what);
                            parts(&to_j(&want), &to_j(&got), 0, &mut sig)
                        }
                        Out::Err(m) => sig.extend([what, m.sig()]),
                        Out::Panic => sig.push(3),
                    }
                    // bytes elsewhere
                    let (k0, k1): (&[u8], &[u8]) = match (first, x) {
                        (Val::Text(a), Val::Text(c)) if carried => (a.as_bytes(), c.as_bytes()),
                        _ => (&[], &[]),
                    };
                    let changed = if !carried {
                        y != &y0
                    } else if y0.len() >= 128 || y.len() >= 128 {
                        false
                    } else {
                        let at = if k0.is_empty() { 0 } else { y0.windows(k0.len()).position(|w| w == k0).unwrap_or(0) };
                        let other = |a: &[u8], c: &[u8]| a.iter().zip(c.iter()).filter(|(a, c)| a != c).count();
                        !k0.is_empty()
                            && (y.len() + k0.len() != y0.len() + k1.len()
                                || !y[at..].starts_with(k1)
                                || other(&y[..at], &y0[..at]) > 4
                                || y[at + k1.len()..] != y0[at + k0.len()..])
                            || k0.is_empty() && y.len() == y0.len() && other(y, &y0) > 4
                    };
                    if changed {
                        sig.push(what ^ 4)
                    }
                    match emit {
                        "relay" => {
                            if let Out::Ok(q) = decode_one(y, rv) {
                                match encode(&q, rv) {
                                    Enc::Ok(z) if z == *y || decode_one(&z, rv) == Out::Ok(q.clone()) => {}
                                    _ => sig.push(what ^ 5),
                                }
                            }
                        }
                        "stream" => {
                            let data = [&y[..], &[0xc0, 0]].concat();
                            let c = run_exact(&data, &[rv, 4], 3);
                            sig.clear();
                            if c.len() != 2 || c[0].pos != y.len() || c[0].more != "yes" || c[1].out != Out::Ok(MqttPacket::Pingreq) {
                                sig.push(what ^ 6)
                            }
                        }
                        _ => {}
                    }
                    y.clone()
                }
                Enc::Err(m) => {
                    sig.extend([what, m.sig()]);
                    vec![]
                }
                Enc::Panic => {
                    sig.push(6);
                    vec![]
                }
            };
            // now and then one that is as it should be
            let (sample, take) = (r.below(9000) == 0, bytes.len() < 300);
            if emit == "level" {
                let sig = crate::level::differs(&q, v, &bytes, rv);
                let odd = sig.iter().any(|x| *x != 0);
                if odd && nv.fresh(hash(&sig)) && bytes.len() < 6000 || sample && take {
                    o.extend(crate::level::both(&q, v, &bytes, rv))
                }
                continue;
            }
            if emit == "serde" {
                let (ev, same) = crate::prims::serde_event(&q, false);
                if !same && nv.fresh(what) || sample && take {
                    o.push(ev)
                }
                continue;
            }
            if sig.is_empty() {
                nv.fresh(0);
                if !(sample && take) {
                    continue;
                }
            } else if !nv.fresh(hash(&sig)) || bytes.len() > 3000 || o.len() > 400 {
                continue;
            }
            match (emit, bytes.is_empty()) {
                ("enc", _) => o.push(enc_event(&q, v).0),
                ("dec", false) => o.push(dec_event(&bytes, rv).0),
                ("relay", false) => o.extend(relay_event(&bytes, rv, 4)),
                ("stream", false) => o.push(crate::stream::stream_event(&[bytes], &[0xc0, 0], &[rv, 4]).0),
                _ => {}
            }
        }
    }
}

/// Histories over a fixed set of packets, good and damaged: every pair and, over fewer of
/// them, every triple, and long repetitions.  Each packet is also decoded alone; recorded is
/// the history in which an outcome or a position is another one.
pub fn word_packets(seed: u64) -> Vec<(Vec<u8>, u8)> {
    let mut r = Rng::new(seed ^ 0x77);
    let mut w: Vec<(Vec<u8>, u8)> = vec![];
    for t in packets::TYPES {
        for v in [5u8, 4, 3] {
            let mut n = 0;
            for k in 0..60 {
                let p = packets::packet(&mut r, t, v, if k % 2 == 0 { Focus::Any } else { Focus::Props });
                if let Enc::Ok(y) = encode(&p, v) {
                    if y.len() < 40 + k && n < if v == 5 { 3 } else { 1 } {
                        n += 1;
                        let d = damaged(&y);
                        if !d.is_empty() {
                            w.push((r.pick(&d).clone(), v));
                        }
                        w.push((y, v));
                    }
                }
            }
        }
    }
    for h in 0..=255u8 {
        if h & 15 == 0 || h & 15 == 2 || h >> 4 == 3 && h & 1 == 0 || h % 37 == 0 {
            w.push((vec![h, 0], 5));
        }
    }
    for (h, body) in [
        (0x40u8, &[0u8, 1][..]), (0x50, &[0, 1]), (0x62, &[0, 1]), (0x70, &[0, 1]), (0x40, &[0, 1, 0x10]), (0x50, &[0, 1, 0x91]), (0x62, &[0, 1, 0x92]),
        (0x70, &[0, 1, 0x92, 0]), (0xe0, &[4]), (0xe0, &[0x9d, 0]), (0xe0, &[0, 5, 0x11, 0, 0, 0, 9]), (0x20, &[0, 0]), (0x20, &[1, 0]), (0x20, &[0, 5]),
        (0x20, &[0, 0, 0]), (0x20, &[0, 0, 3, 0x22, 0, 5]), (0xf0, &[0x18, 0]), (0xf0, &[0x18, 4, 0x15, 0, 1, b'm']), (0x30, &[0, 1, b't']), (0x30, &[0, 1, b't', 0]),
        (0x32, &[0, 1, b't', 0, 9, 0, 7]), (0x3a, &[0, 1, b't', 0, 9, 0, 7]), (0x34, &[0, 1, b't', 0, 9, 0]), (0x30, &[0, 0, 3, 0x23, 0, 1]),
        (0x30, &[0, 1, b'u', 3, 0x23, 0, 1]), (0x30, &[0, 1, b't', 9, 0x23, 0, 1]), (0x40, &[0, 1, 0, 3, 0x7f, 0, 0]), (0x82, &[0, 3, 0, 0, 1, b't', 1]),
        (0x82, &[0, 3, 0, 1, b't', 1]), (0x90, &[0, 3, 0, 1]), (0x90, &[0, 3, 1]), (0xa2, &[0, 4, 0, 0, 1, b't']), (0xb0, &[0, 4, 0, 0]), (0xb0, &[0, 4]),
        (0x10, &[0, 4, b'M', b'Q', b'T', b'T', 4, 2, 0, 9, 0, 0]), (0x10, &[0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 9, 0, 0, 0]),
        (0x10, &[0, 6, b'M', b'Q', b'I', b's', b'd', b'p', 3, 2, 0, 9, 0, 1, b'c']), (0x10, &[0, 4, b'M', b'Q', b'T', b'T', 6, 2, 0, 9, 0, 0]),
        (0x10, &[0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 9, 3, 0x22, 0, 3, 0, 0]), (0xc0, &[1]), (0xd0, &[0, 0]), (0x38, &[0, 1, b't', 0]),
    ] {
        w.push((wire::assemble(h, body), 5));
        if w.len() % 3 == 0 {
            w.push((wire::assemble(h, body), 4));
        }
    }
    w.sort();
    w.dedup();
    w
}
pub fn words(seed: u64, deep: bool) -> Vec<J> {
    let w = word_packets(seed);
    let alone: Vec<Out> = w.iter().map(|(x, v)| run_exact(x, &[*v], 1).swap_remove(0).out).collect();
    let bad = |ks: &[usize]| -> bool {
        let data: Vec<u8> = ks.iter().flat_map(|k| w[*k].0.iter().cloned()).collect();
        let vs: Vec<u8> = ks.iter().map(|k| w[*k].1).collect();
        let c = run_exact(&data, &vs, ks.len() + 1);
        let mut at = 0;
        SCREENED.fetch_add(1, Ordering::Relaxed);
        c.len() != ks.len()
            || ks.iter().zip(c.iter()).any(|(k, c)| {
                at += w[*k].0.len();
                c.pos != at || c.out != alone[*k]
            })
            || c.iter().enumerate().any(|(n, c)| (c.more == "yes") != (n + 1 < ks.len()))
    };
    let record = |ks: &[usize]| {
        let pk: Vec<Vec<u8>> = ks.iter().map(|k| w[*k].0.clone()).collect();
        let vs: Vec<u8> = ks.iter().map(|k| w[*k].1).collect();
        crate::stream::stream_event(&pk, &[], &vs).0
    };
    let few: Vec<usize> = (0..w.len()).filter(|k| deep || w[*k].0.len() < 16 && (*k + seed as usize) % 3 < 2).collect();
    let all = w.len();
    parallel(all, |a| {
        let mut o = vec![];
        let mut tried = 0usize;
        let mut go = |ks: &[usize], o: &mut Vec<J>| {
            tried += 1;
            if o.len() < 6 && (bad(ks) || tried % 9973 == 0 && ks.len() < 4) {
                o.push(record(ks))
            }
        };
        for b in 0..all {
            go(&[a, b], &mut o);
        }
        if few.contains(&a) {
            for b in &few {
                for c in &few {
                    go(&[a, *b, *c], &mut o);
                }
            }
        }
        // the same again and again, and then something else
        for n in [4usize, 9, 17, 33, 65, 130, 257, 520] {
            let mut ks = vec![a; n];
            let b = (a * 31 + n * 7) % all;
            ks.push(b);
            ks.push(a);
            go(&ks, &mut o);
            let mut ks: Vec<usize> = (0..n).map(|k| if k % 2 == 0 { a } else { (a + n) % all }).collect();
            ks.push(b);
            go(&ks, &mut o);
        }
        o
    })
}

/// kind: len, char, text, num, count, cross; emit: enc, dec, bad, relay, stream, cut, chunk, serde
pub fn sweep(seed: u64, dict: &Dict, deep: bool, kind: &str, emit: &str, types: &[&str]) -> Vec<J> {
    if deep {
        ENOUGH.store(40 << 20, Ordering::Relaxed);
    }
    let mut jobs: Vec<(&str, u8, usize)> = vec![];
    for t in types {
        let dims = match kind {
            "len" | "char" | "text" => locations(t).len(),
            "cross" => locations(t).len() + numbers(t).len(),
            _ => numbers(t).len(),
        };
        for v in [5u8, 4, 3] {
            for d in 0..dims {
                jobs.push((t, v, d))
            }
        }
    }
    parallel(jobs.len(), |k| {
        let (t, v, d) = jobs[k];
        let mut r = Rng::new(seed ^ hash(&[k as u64, hash_bytes(kind.as_bytes())]));
        r.dict = std::rc::Rc::new(dict.clone());
        let mut o = vec![];
        // serialisation knows no versions
        if emit == "serde" && v != 5 && t != "suback" {
            return o;
        }
        match kind {
            "cross" => {
                let count = locations(t).len();
                if d < count {
                    let (_, setter) = locations(t).swap_remove(d);
                    let set = |p: &mut MqttPacket, x: &Val| match x {
                        Val::Text(t) => setter(p, t.clone()),
                        _ => false,
                    };
                    let mut list: Vec<Val> = texts(&r).into_iter().map(Val::Text).collect();
                    for n in [2, 3, 4, 5, 23, 24, 64, 100, 127, 128, 129, 255, 256, 257] {
                        list.push(Val::Text("x".repeat(n)));
                    }
                    cross(&mut r, emit, t, v, deep, &set, &Val::Text("yY~yY".into()), &list, &mut o)
                } else {
                    let (range, _, set) = numbers(t).swap_remove(d - count);
                    let list: Vec<u64> = match range {
                        Range::U8 => (0..=255).collect(),
                        Range::U16 => walk(&mut r, 40, 4099, 65535),
                        Range::U32 => walk(&mut r, 40, 99999989, u32::MAX as u64),
                        Range::Var => walk(&mut r, 40, 9999991, 300000000),
                        Range::Count => (0..=20).collect(),
                    };
                    let list: Vec<Val> = list.into_iter().map(Val::Num).collect();
                    cross(&mut r, emit, t, v, deep, &*set, &Val::Num(1), &list, &mut o)
                }
            }
            "len" | "char" | "text" => {
                let (loc, setter) = locations(t).swap_remove(d);
                let set = |p: &mut MqttPacket, x: &Val| match x {
                    Val::Text(t) => setter(p, t.clone()),
                    _ => false,
                };
                for b in 0..if deep { 2 } else { 1 } {
                    let p = match base(&mut r, t, v, b, &set, &Val::Text("y".into())) {
                        Some(p) => p,
                        None => break,
                    };
                    match kind {
                        "len" => {
                            let (all, step) = match (deep, emit) {
                                (true, "stream") => (4200, 97),
                                (true, "cut" | "chunk") => (2100, 331),
                                (true, _) => (20000, 7),
                                (_, "stream") => (600, 997),
                                (_, "cut" | "chunk") => (300, 1997),
                                _ => (2100, 131),
                            };
                            if let Some(mut w) = Walk::start(emit, p, v, 1) {
                                for n in walk(&mut r, all, step, 65537) {
                                    let n = n as usize;
                                    w.step(&set, &Val::Text("x".repeat(n)), Some(n), Some((&loc, n)));
                                }
                                o.extend(w.out);
                            }
                        }
                        "char" => {
                            for form in 0..if deep { 3 } else { 2 } {
                                if let Some(mut w) = Walk::start(emit, p.clone(), v, 1) {
                                    for c in chars(deep) {
                                        let t = match form {
                                            0 => c.to_string(),
                                            1 => format!("a{}b", c),
                                            _ => format!("{}{}", c, c),
                                        };
                                        w.step(&set, &Val::Text(t), None, None);
                                    }
                                    o.extend(w.out);
                                }
                            }
                        }
                        _ => {
                            if let Some(mut w) = Walk::start(emit, p, v, 2) {
                                for t in texts(&r) {
                                    w.step(&set, &Val::Text(t), None, None);
                                }
                                o.extend(w.out);
                            }
                        }
                    }
                }
            }
            _ => {
                let (range, _, set) = numbers(t).swap_remove(d);
                if (range == Range::Count) != (kind == "count") {
                    return o;
                }
                for b in 0..if deep { 3 } else { 2 } {
                    let p = match base(&mut r, t, v, b, &*set, &Val::Num(1)) {
                        Some(p) => p,
                        None => break,
                    };
                    let list = match range {
                        Range::U8 => (0..=255).collect(),
                        Range::U16 => (0..=65535).collect(),
                        Range::U32 => walk(&mut r, if deep { 70000 } else { 1100 }, if deep { 20011 } else { 9999991 }, u32::MAX as u64),
                        Range::Var => walk(&mut r, if deep { 70000 } else { 17000 }, if deep { 1009 } else { 99991 }, 300000000),
                        Range::Count => walk(&mut r, if deep { 3000 } else { 300 }, if deep { 1009 } else { 211 }, if deep { 9000 } else { 1200 }),
                    };
                    if let Some(mut w) = Walk::start(emit, p, v, 1) {
                        for x in list {
                            w.step(&*set, &Val::Num(x), None, None);
                        }
                        o.extend(w.out);
                    }
                }
            }
        }
        o
    })
}


// ---------------------------------------------------------------------------
// primitives

use crate::prims::{prim_read, prim_write_op};
use crate::wire;
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::mqtt_writer::MqttWriter;
use std::io::BufReader;

/// outcome of a read: kind, number or whether the field is data[at..], bytes left
fn quick_read(op: &str, x: &[u8], at: usize, len: usize) -> (u64, u64, u64) {
    let mut left = 0;
    let r = guarded(|| {
        let mut r = ByteReader::new(BufReader::with_capacity(16, x));
        let field = |y: &[u8]| (y == &x[at..at + len]) as u64;
        let v = match op {
            "var" => r.read_variable_int().map(|x| x as u64),
            "u16" => r.read_u16().map(|x| x as u64),
            "u32" => r.read_u32().map(|x| x as u64),
            "str" => r.read_utf8_string().map(|y| field(y.as_bytes())),
            _ => r.read_binary().map(|y| field(&y)),
        };
        while r.read_u8().is_ok() {
            left += 1
        }
        v
    });
    match r {
        Ok(Ok(v)) => (1, v, left),
        Ok(Err(_)) => (2, 0, 0),
        Err(_) => (3, 0, 0),
    }
}
fn quick_write(op: &str, num: u64, x: &[u8]) -> (u64, Vec<u8>) {
    let r = guarded(|| {
        let mut w = MqttWriter::new(4);
        match op {
            "wvar" => w.write_variable_num(num as u32)?,
            "wu16" => w.write_u16(num as u16),
            "wu32" => w.write_u32(num as u32),
            "wstr" => w.write_utf8_str(std::str::from_utf8(x).unwrap())?,
            _ => w.write_binary_ref(x)?,
        }
        Ok::<_, String>(w.into_vec())
    });
    match r {
        Ok(Ok(v)) => (1, v),
        Ok(Err(_)) => (2, vec![]),
        Err(_) => (3, vec![]),
    }
}

fn class(c: u8) -> u64 {
    match c {
        0 => 0,
        1..=0x7f => 1,
        0x80..=0x8f => 2,
        0x90..=0x9f => 3,
        0xa0..=0xbf => 4,
        0xc0..=0xc1 => 5,
        0xc2..=0xdf => 6,
        0xe0 => 7,
        0xe1..=0xec => 8,
        0xed => 9,
        0xee..=0xef => 10,
        0xf0 => 11,
        0xf1..=0xf3 => 12,
        0xf4 => 13,
        _ => 14,
    }
}

pub fn primitives(seed: u64, dict: &Dict, deep: bool) -> Vec<J> {
    let mut r = Rng::new(seed);
    r.dict = std::rc::Rc::new(dict.clone());
    let strided = walk(&mut r, 1100, if deep { 10007 } else { 2000003 }, u32::MAX as u64);
    // 64 blocks of variable integers, then the rest
    let mut o = parallel(64 + 32 + 4, |job| {
        let mut o = vec![];
        let mut nv = Novel::new(1);
        if job < 64 {
            let (lo, hi) = ((job as u64) << 22, (job as u64 + 1) << 22);
            let (mut before, mut last) = (vec![], 0);
            // below 2^22 and around the powers of two every number
            let step = if deep || job == 0 { 1 } else { 17 };
            let edge = |x: u64| (x & (x - 1)) < 300 || (x + 300).next_power_of_two() - x <= 300;
            for x in (lo..hi).filter(|x| step == 1 || (*x + seed) % step == 0 || edge(*x)) {
                let (k, y) = quick_write("wvar", x, &[]);
                if nv.fresh(hash(&[1, k, delta(&before, &y)])) {
                    o.push(prim_write_op("wvar", x, &[]));
                }
                before = y;
                // with a byte after it
                let mut w = wire::var(x as u32);
                w.push(9);
                let (k, v, left) = quick_read("var", &w, 0, 0);
                if nv.fresh(hash(&[2, k, v.wrapping_sub(last), left])) {
                    o.push(prim_read("var", &w));
                }
                last = v;
            }
        } else if job < 96 {
            // two, three and four bytes of text; 32 blocks by the first byte
            let block = (job - 64) as u32;
            for a in block * 8..block * 8 + 8 {
                for c in 0..=255u32 {
                    let two = [0, 2, a as u8, c as u8, 9];
                    let (k, v, left) = quick_read("str", &two, 2, 2);
                    if nv.fresh(hash(&[3, k, v, left, class(two[2]), class(two[3])])) {
                        o.push(prim_read("str", &two));
                    }
                    for d in 0..=255u32 {
                        let three = [0, 3, a as u8, c as u8, d as u8, 9];
                        let (k, v, left) = quick_read("str", &three, 2, 3);
                        if nv.fresh(hash(&[4, k, v, left, class(a as u8), class(c as u8), class(d as u8)])) {
                            o.push(prim_read("str", &three));
                        }
                        if a < 0xe0 || (!deep && (c + d) % 3 != seed as u32 % 3) {
                            continue;
                        }
                        for e in [0x41u8, 0x7f, 0x80, 0x9f, 0xbf, 0xc0, 0xff] {
                            let four = [0, 4, a as u8, c as u8, d as u8, e, 9];
                            let (k, v, left) = quick_read("str", &four, 2, 4);
                            let last = (e & 0xc0 == 0x80) as u64;
                            if nv.fresh(hash(&[5, k, v, left, class(a as u8), class(c as u8), class(d as u8) / 2, last])) {
                                o.push(prim_read("str", &four));
                            }
                        }
                    }
                }
            }
        } else if job == 96 {
            // integers
            let mut last = [0u64; 4];
            let mut before = [vec![], vec![]];
            for (pass, list) in [(0, (0..65536).collect::<Vec<u64>>()), (1, strided.clone())] {
                for x in list {
                    let (op, w) = if pass == 0 {
                        ("u16", (x as u16).to_be_bytes().to_vec())
                    } else {
                        ("u32", (x as u32).to_be_bytes().to_vec())
                    };
                    let mut w9 = w.clone();
                    w9.push(9);
                    let (k, v, left) = quick_read(op, &w9, 0, 0);
                    if nv.fresh(hash(&[6, pass, k, v.wrapping_sub(x), left])) {
                        o.push(prim_read(op, &w9));
                    }
                    last[pass as usize] = v;
                    let wop = if pass == 0 { "wu16" } else { "wu32" };
                    let (k, y) = quick_write(wop, x, &[]);
                    let sig = if y == w { 1 } else { delta(&before[pass as usize], &y) };
                    if nv.fresh(hash(&[7, pass, k, sig])) {
                        o.push(prim_write_op(wop, x, &[]));
                    }
                    before[pass as usize] = y;
                    if pass == 1 && x >= 1 << 28 {
                        let (k, y) = quick_write("wvar", x, &[]);
                        if nv.fresh(hash(&[8, k, y.len() as u64])) {
                            o.push(prim_write_op("wvar", x, &[]));
                        }
                    }
                }
            }
        } else if job == 97 {
            // characters, alone and among others
            for c in (1..=0x10ffffu32).filter_map(char::from_u32) {
                for form in 0..3u64 {
                    let t = match form {
                        0 => c.to_string(),
                        1 => format!("a{}b", c),
                        _ => format!("{}{}", c, c),
                    };
                    let mut w = (t.len() as u16).to_be_bytes().to_vec();
                    w.extend(t.bytes());
                    w.push(9);
                    let (k, v, left) = quick_read("str", &w, 2, t.len());
                    if nv.fresh(hash(&[9, form, k, v, left, c.len_utf8() as u64])) {
                        o.push(prim_read("str", &w));
                    }
                    let (k, y) = quick_write("wstr", 0, t.as_bytes());
                    let same = y == w[..w.len() - 1];
                    if nv.fresh(hash(&[10, form, k, same as u64, y.len() as u64])) {
                        o.push(prim_write_op("wstr", 0, t.as_bytes()));
                    }
                }
            }
        } else if job == 98 {
            // known words
            for t in texts(&r_with(seed, dict)) {
                let mut w = (t.len() as u16).to_be_bytes().to_vec();
                w.extend(t.bytes());
                for op in ["str", "bin"] {
                    o.push(prim_read(op, &w));
                }
                for op in ["wstr", "wbin"] {
                    o.push(prim_write_op(op, 0, t.as_bytes()));
                }
            }
        } else {
            // lengths: complete, one byte short, one byte more
            let mut r = r_with(seed, dict);
            let mut before = [vec![], vec![]];
            for n in walk(&mut r, if deep { 65535 } else { 9000 }, 37, 65537) {
                let n = n as usize;
                let text = vec![b'x'; n];
                if n <= 65535 {
                    let mut w = (n as u16).to_be_bytes().to_vec();
                    w.extend(&text);
                    for (form, cut) in [(0u64, n + 2), (1, (n + 1).max(1)), (2, n + 3)] {
                        let mut w = w.clone();
                        w.push(9);
                        w.truncate(cut);
                        for (op, code) in [("str", 20), ("bin", 21)] {
                            let (k, v, left) = if cut < n + 2 {
                                (quick_read(op, &w, 0, 0).0, 0, 0)
                            } else {
                                quick_read(op, &w, 2, n)
                            };
                            if nv.fresh(hash(&[code, form, k, v, left])) {
                                o.push(prim_read(op, &w));
                            }
                        }
                    }
                }
                for (op, code) in [("wstr", 0usize), ("wbin", 1)] {
                    let (k, y) = quick_write(op, 0, &text);
                    let head = y[..y.len().min(2)].to_vec();
                    let tail = y.len() >= 2 && y[2..] == text[..];
                    if nv.fresh(hash(&[30 + code as u64, k, y.len() as u64 - if k == 1 { n as u64 } else { 0 }, tail as u64, delta(&before[code], &head)])) {
                        o.push(prim_write_op(op, 0, &text));
                    }
                    before[code] = head;
                }
            }
        }
        o
    });
    // the same execution need not be judged twice
    let mut known = std::collections::HashSet::new();
    o.retain(|e| known.insert(hash_bytes(e.text().as_bytes())));
    o
}

/// sessions of the byte reader with limits and reads of every length
pub fn reader(seed: u64, dict: &Dict, deep: bool) -> Vec<J> {
    let ops = |l: &[(&str, u64)]| l.iter().map(|(o, a)| (o.to_string(), *a as u32)).collect::<Vec<_>>();
    parallel(6, |form| {
        let mut o = vec![];
        let mut nv = Novel::new(1);
        let mut r = r_with(seed, dict);
        for n in walk(&mut r, if deep { 20000 } else { 1100 }, if deep { 211 } else { 2999 }, 70000) {
            let session = match form {
                0 => ops(&[("take", n), ("len", n), ("more", 0), ("u8", 0), ("reset", 0), ("more", 0), ("u8", 0), ("u8", 0)]),
                1 => ops(&[("take", n), ("len", n + 1), ("len", n), ("reset", 0), ("u8", 0), ("u8", 0)]),
                2 => ops(&[("take", n), ("take", n / 2), ("len", n / 2), ("more", 0), ("reset", 0), ("consume", 0), ("more", 0), ("reset", 0), ("u8", 0)]),
                3 => ops(&[("take", n / 2), ("take", n), ("len", n / 2), ("more", 0), ("reset", 0), ("more", 0), ("reset", 0), ("more", 0), ("u8", 0)]),
                4 => ops(&[("len", n), ("take", 1), ("u8", 0), ("more", 0), ("reset", 0), ("more", 0), ("u8", 0)]),
                _ => ops(&[("take", n + 1), ("bin", 0), ("more", 0), ("reset", 0), ("u8", 0)]),
            };
            let len = n as usize + if n % 5 == 0 { 0 } else { 2 };
            let mut data: Vec<u8> = (0..len).map(|k| (k % 251) as u8).collect();
            if form == 5 && len >= 2 {
                let m = n.saturating_sub(1).min(65535) as u16;
                data[..2].copy_from_slice(&m.to_be_bytes());
            }
            let ev = crate::prims::rd_event(&data, &session, [8192, 16, 1][n as usize % 3], Plan::whole());
            let list = ev.get("ops").unwrap().list().unwrap();
            let mut sig = vec![(len == n as usize) as u64];
            for e in list {
                let x = e.get("r").unwrap();
                sig.push(hash_bytes(x.get("k").unwrap().str().unwrap().as_bytes()));
                if let Ok(y) = x.get("x") {
                    sig.push(match y {
                        J::Bytes(y) => (y.len() as u64).wrapping_sub(n / (1 + (form == 2 || form == 3) as u64)),
                        J::Bool(y) => *y as u64,
                        J::Int(y) if e.get("op").unwrap().str() == Ok("u8") => (*y as u64).wrapping_sub(n % 251) % 251,
                        _ => 0,
                    });
                }
            }
            if nv.fresh(hash(&sig)) {
                o.push(ev)
            }
        }
        o
    })
}

fn r_with(seed: u64, dict: &Dict) -> Rng {
    let mut r = Rng::new(seed);
    r.dict = std::rc::Rc::new(dict.clone());
    r
}
