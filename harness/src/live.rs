//! Suites about what a decoder asks of its surroundings: when it turns to the reader under it,
//! and how much memory it reserves.
use crate::codec::random_wire;
use crate::exec::*;
use crate::json::*;
use crate::packets::TYPES;
use crate::pool::*;
use crate::rng::Rng;
use crate::stream::{complete, tail};
use crate::wire;
use mqtt_packet_3_5::PacketDecoder;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::io;
use std::rc::Rc;

// ------------------------------------------------------------------ when it reads
/// runs a stream call by call and notes how much had been delivered whenever the reader was asked
pub fn prompt_event(data: &Rc<Vec<u8>>, vs: &[u8], sizes: Vec<usize>, c: Ctor, polls: usize) -> (J, bool) {
    about_to(|| prompt_head(data, vs, &sizes, c, polls));
    let mut src = Src::new(data.clone(), Plan::sizes(sizes.clone()));
    let asks = Rc::new(RefCell::new(vec![]));
    src.asks = Some(asks.clone());
    let mut d = decoder(src, c);
    let (mut calls, mut odd, mut pos) = (vec![], false, 0);
    asks.borrow_mut().clear();
    'run: for k in 0..data.len() + 2 {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        for _ in 0..polls {
            let more = guarded(|| d.has_more());
            let a = ends(&asks);
            odd |= a.iter().any(|x| *x != pos);
            calls.push(obj(vec![("q", s("more")), ("asks", arr(a.iter().map(|x| n(*x))))]));
            if more != Ok(true) {
                break 'run;
            }
        }
        let out = Out::of(guarded(|| d.decode_packet(vs[k % vs.len()])));
        let a = ends(&asks);
        calls.push(obj(vec![("q", s("dec")), ("asks", arr(a.iter().map(|x| n(*x))))]));
        match wire::split(&data[pos.min(data.len())..]) {
            Some((_, st, len)) if pos + st + len <= data.len() => {
                pos += st + len;
                odd |= a.iter().any(|x| *x >= pos);
            }
            _ => break,
        }
        if out == Out::Panic {
            break;
        }
    }
    let mut j = match prompt_head(data, vs, &sizes, c, polls) {
        J::Obj(o) => o,
        _ => unreachable!(),
    };
    j.push(("calls".into(), arr(calls)));
    (J::Obj(j), odd)
}
fn prompt_head(data: &[u8], vs: &[u8], sizes: &[usize], c: Ctor, polls: usize) -> J {
    let (kind, cap) = match c {
        Ctor::Stream => ("stream", 0),
        Ctor::Buf(n) => ("buf", n),
        Ctor::Reader(n) => ("reader", n),
        Ctor::Looked(n) => ("looked", n),
    };
    obj(vec![
        ("e", s("prompt")),
        ("b", b(data)),
        ("vs", arr(vs.iter().map(|v| i(*v)))),
        ("sizes", arr(sizes.iter().map(|x| n((*x).min(999999))))),
        ("ctor", s(kind)),
        ("cap", n(cap)),
        ("polls", n(polls)),
    ])
}
fn ends(asks: &RefCell<Vec<usize>>) -> Vec<usize> {
    let mut a = asks.borrow_mut();
    let mut o = vec![];
    if let (Some(x), Some(y)) = (a.iter().min(), a.iter().max()) {
        o.push(*x);
        if x != y {
            o.push(*y)
        }
    }
    a.clear();
    o
}

fn delivery(r: &mut Rng, bounds: &[usize]) -> Vec<usize> {
    match r.below(8) {
        // packet by packet
        0 | 1 | 2 => bounds.to_vec(),
        3 => bounds.iter().flat_map(|x| if *x > 1 { vec![*x - 1, 1] } else { vec![1] }).collect(),
        4 => vec![usize::MAX],
        5 => vec![1],
        // a packet and the beginning of the next one
        6 => {
            let mut v = bounds.to_vec();
            v[0] += 1;
            if let Some(x) = v.get_mut(1) {
                *x = (*x - 1).max(1)
            }
            v
        }
        _ => {
            let k = r.range(1, 8);
            let mut v: Vec<usize> = (0..k).map(|_| *r.pick(&[0, 1, 1, 2, 3, 5, 8, 16, 64, 1000])).collect();
            v.push(r.range(1, 9));
            v
        }
    }
}
fn built(r: &mut Rng) -> Ctor {
    let cap = *r.pick(&[1, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 128, 1024, 8192]);
    match r.below(5) {
        0 | 1 => Ctor::Stream,
        2 => Ctor::Buf(cap),
        3 => Ctor::Reader(cap),
        _ => Ctor::Looked(cap),
    }
}

pub fn prompt(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    for _ in 0..pool {
        let k = r.range(1, 5);
        let (mut data, mut vs, mut bounds) = (vec![], vec![], vec![]);
        for _ in 0..k {
            let (x, v) = complete(r);
            bounds.push(x.len());
            data.extend(x);
            vs.push(v);
        }
        if r.chance(25) {
            data.extend(tail(r));
        }
        let data = Rc::new(data);
        for _ in 0..4 {
            let (sizes, c, polls) = (delivery(r, &bounds), built(r), *r.pick(&[0, 1, 1, 2]));
            let (ev, odd) = prompt_event(&data, &vs, sizes, c, polls);
            let sig = hash(&[(data[0] >> 4) as u64, vs[0] as u64, bounds.len() as u64, polls as u64, r.below(40) as u64]);
            q.offer(sig, odd, || ev);
        }
    }
    q.take()
}
pub fn prompt_given(r: &mut Rng, list: &[J]) -> Vec<J> {
    let mut o = vec![];
    for g in list {
        let vs = g.get("vs").and_then(|x| x.bytes()).expect("vs");
        let data = Rc::new(g.get("b").and_then(|x| x.bytes()).expect("b"));
        let num = |k: &str| g.get(k).ok().map(|x| x.int().unwrap() as usize);
        let sizes: Option<Vec<usize>> =
            g.get("sizes").ok().map(|x| x.list().unwrap().iter().map(|y| y.int().unwrap() as usize).collect());
        if let (Ok(kind), Some(sizes)) = (g.get("ctor"), sizes.clone()) {
            let cap = num("cap").unwrap().max(1);
            let c = match kind.str().unwrap() {
                "stream" => Ctor::Stream,
                "buf" => Ctor::Buf(cap),
                "reader" => Ctor::Reader(cap),
                _ => Ctor::Looked(cap),
            };
            o.push(prompt_event(&data, &vs, sizes, c, num("polls").unwrap()).0);
            continue;
        }
        let mut bounds = vec![];
        let mut at = 0;
        while let Some((_, st, len)) = wire::split(&data[at..]) {
            if at + st + len > data.len() || st + len == 0 {
                break;
            }
            bounds.push(st + len);
            at += st + len;
        }
        bounds.push((data.len() - at).max(1));
        for k in 0..3 {
            let z = match (&sizes, k) {
                (Some(z), _) => z.clone(),
                (None, 0) => bounds.clone(),
                _ => delivery(r, &bounds),
            };
            o.push(prompt_event(&data, &vs, z, built(r), [1, 0, 2][k]).0);
            if sizes.is_some() {
                break;
            }
        }
    }
    o
}

// ------------------------------------------------------------------ what it reserves
/// counts what the current thread has reserved
pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static SPENT: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}
/// bytes this thread has reserved in total, and how often
pub fn spent() -> (i64, i64) {
    SPENT.with(|x| x.get())
}
fn spend(by: usize) {
    let _ = SPENT.try_with(|x| {
        let (a, c) = x.get();
        x.set((a + by as i64, c + 1))
    });
}
fn count(by: isize) {
    let _ = LIVE.try_with(|l| {
        let x = l.get() + by;
        l.set(x);
        let _ = PEAK.try_with(|p| {
            if x > p.get() {
                p.set(x)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        spend(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        spend(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        spend(n);
        System.realloc(p, l, n)
    }
}
fn live() -> isize {
    LIVE.with(|l| l.get())
}

/// one piece of a stream over and over again, without a copy of its own
struct Again {
    unit: Rc<Vec<u8>>,
    left: usize,
    at: usize,
}
impl io::Read for Again {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.at == self.unit.len() {
            if self.left <= 1 {
                return Ok(0);
            }
            self.left -= 1;
            self.at = 0;
        }
        let k = buf.len().min(self.unit.len() - self.at);
        buf[..k].copy_from_slice(&self.unit[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}

/// what decoding reserves at most, and what a decoder still holds in the end
pub fn mem_event(unit: &Rc<Vec<u8>>, times: usize, vs: &[u8]) -> (J, isize, isize) {
    let head = || vec![("e", s("mem")), ("b", b(unit)), ("times", n(times)), ("vs", arr(vs.iter().map(|v| i(*v))))];
    about_to(|| obj(head()));
    let mut d = PacketDecoder::from_stream(Again { unit: unit.clone(), left: times, at: 0 });
    let before = live();
    PEAK.with(|p| p.set(before));
    let mut calls = 0;
    for k in 0..unit.len() * times + 2 {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let r = guarded(|| d.has_more() && d.decode_packet(vs[k % vs.len()]).map(|_| true).unwrap_or(true));
        calls += 1;
        if r != Ok(true) {
            break;
        }
    }
    let (peak, kept) = (PEAK.with(|p| p.get()) - before, live() - before);
    let clip = |x: isize| n(x.clamp(0, 1 << 30) as usize);
    let mut h = head();
    h.push(("calls", n(calls)));
    h.push(("peak", clip(peak)));
    h.push(("kept", clip(kept)));
    drop(d);
    (obj(h), peak, kept)
}

/// packets that announce more than there is
fn boast(r: &mut Rng) -> (Vec<u8>, u8) {
    let kind = *r.pick(&["plain", "user", "odd", "mutant", "mix"]);
    let (x, v, _) = random_wire(r, &TYPES, kind);
    let (h, st) = match wire::split(&x) {
        Some((h, st, len)) if st + len == x.len() => (h, st),
        _ => return (x, v),
    };
    let mut body = x[st..].to_vec();
    // lengths inside
    for _ in 0..r.below(3) {
        if body.is_empty() {
            break;
        }
        let p = r.below(body.len());
        match r.below(3) {
            0 => {
                body[p] = 255;
                if p + 1 < body.len() {
                    body[p + 1] = 255
                }
            }
            1 => {
                body.splice(p..p + 1, [255, 255, 255, 127]);
            }
            _ => body[p] = r.u8(),
        }
    }
    if r.chance(70) {
        let k = r.below(body.len() + 1);
        body.truncate(k);
    }
    let mut o = vec![h];
    let announced = match r.below(6) {
        0 => 268435455,
        1 => 1 << r.range(7, 27),
        2 => body.len() + r.range(0, 3),
        _ => r.range(1 << 17, 268435455),
    };
    let mut m = announced;
    loop {
        o.push((m % 128) as u8 | if m >= 128 { 128 } else { 0 });
        m /= 128;
        if m == 0 {
            break;
        }
    }
    o.extend(body);
    (o, v)
}

pub fn mem(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    for k in 0..pool {
        let (x, v) = if r.chance(25) { complete(r) } else { boast(r) };
        // now and then thousands of packets
        let many = k % 80 == 0;
        let times = if many { 200000 } else { *r.pick(&[1, 1, 1, 2, 5]) };
        let (x, vs) = if times > 100 {
            let (mut y, v) = complete(r);
            let mut vs = vec![v];
            while r.chance(50) {
                let (z, w) = complete(r);
                y.extend(z);
                vs.push(w);
            }
            (y, vs)
        } else {
            (x, vec![v])
        };
        let times = if many { (2_000_000 / x.len()).clamp(1000, 200000) } else { times };
        let (ev, peak, kept) = mem_event(&Rc::new(x.clone()), times, &vs);
        let sig = hash(&[(x[0] >> 4) as u64, vs[0] as u64, times.min(1000) as u64, (peak.max(1) as u64).ilog2() as u64, (kept.max(1) as u64).ilog2() as u64, r.below(20) as u64]);
        q.offer(sig, peak > 100_000 || kept > 10_000, || ev);
    }
    q.take()
}
pub fn mem_given(list: &[J]) -> Vec<J> {
    list.iter()
        .enumerate()
        .map(|(k, g)| {
            let vs = match g.get("vs") {
                Ok(x) => x.bytes().expect("vs"),
                Err(_) => vec![g.get("v").and_then(|x| x.int()).expect("v") as u8],
            };
            let x = Rc::new(g.get("b").and_then(|x| x.bytes()).expect("b"));
            let times = g.get("times").ok().map(|x| x.int().unwrap() as usize).unwrap_or(if k % 20 == 7 { 10000 } else { 1 });
            mem_event(&x, times, &vs).0
        })
        .collect()
}
