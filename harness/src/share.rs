//! Several users of the library at once.  A user is a decoder with a stream of its own that
//! arrives in pieces, or somebody who encodes one packet after another; who runs when is
//! prescribed by a schedule, read by read.
use crate::codec::random_wire;
use crate::exec::*;
use crate::json::*;
use crate::model::{from_j, to_j};
use crate::packets::{self, Focus, TYPES};
use crate::pool::*;
use crate::rng::Rng;
use crate::stream::complete;
use mqtt_packet_3_5::{MqttPacket, PacketDecoder};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug)]
pub enum User {
    Dec { b: Vec<u8>, vs: Vec<u8>, sizes: Vec<usize> },
    Enc { ps: Vec<MqttPacket>, vs: Vec<u8> },
}
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Dec(Out),
    Enc(Enc),
}
impl Got {
    fn j(&self) -> J {
        match self {
            Got::Dec(x) => x.j(),
            Got::Enc(x) => x.j(),
        }
    }
}
impl User {
    fn calls(&self) -> usize {
        match self {
            User::Dec { vs, .. } => vs.len(),
            User::Enc { ps, .. } => ps.len(),
        }
    }
    fn j(&self) -> J {
        let (k, x, vs, ps, sizes): (_, &[u8], _, &[MqttPacket], &[usize]) = match self {
            User::Dec { b, vs, sizes } => ("dec", b, vs, &[], sizes),
            User::Enc { ps, vs } => ("enc", &[], vs, ps, &[]),
        };
        obj(vec![
            ("k", s(k)),
            ("vs", arr(vs.iter().map(|v| i(*v)))),
            ("b", b(x)),
            ("ps", arr(ps.iter().map(to_j))),
            ("sizes", arr(sizes.iter().map(|x| n((*x).min(999999))))),
        ])
    }
    fn parse(x: &J) -> Result<User, String> {
        let vs = x.get("vs")?.bytes()?;
        if x.get("k")?.str()? == "dec" {
            let sizes = x.get("sizes")?.list()?.iter().map(|y| y.int().map(|z| z as usize)).collect::<Result<_, _>>()?;
            Ok(User::Dec { b: x.get("b")?.bytes()?, vs, sizes })
        } else {
            let ps = x.get("ps")?.list()?.iter().map(from_j).collect::<Result<_, _>>()?;
            Ok(User::Enc { ps, vs })
        }
    }
}

/// a user at work
struct Run {
    user: User,
    d: Option<PacketDecoder<Src>>,
    at: usize,
}
impl Run {
    fn new(user: &User, on_read: Option<Rc<dyn Fn()>>) -> Run {
        let d = match user {
            User::Dec { b, sizes, .. } => {
                // after the prescribed pieces whatever is left, piece by piece
                let sizes = if sizes.is_empty() { vec![usize::MAX] } else { sizes.clone() };
                let mut src = Src::new(Rc::new(b.clone()), Plan::sizes(sizes));
                src.on_read = on_read;
                Some(decoder(src, Ctor::Stream))
            }
            _ => None,
        };
        Run { user: user.clone(), d, at: 0 }
    }
    fn done(&self) -> bool {
        self.at >= self.user.calls()
    }
    fn call(&mut self) -> Got {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let k = self.at;
        self.at += 1;
        match &self.user {
            User::Dec { vs, .. } => {
                let (d, v) = (self.d.as_mut().unwrap(), vs[k]);
                Got::Dec(Out::of(guarded(|| d.decode_packet(v))))
            }
            User::Enc { ps, vs } => Got::Enc(encode(&ps[k], vs[k])),
        }
    }
}
fn alone(u: &User) -> Vec<Got> {
    let mut r = Run::new(u, None);
    let mut o = vec![];
    while !r.done() {
        o.push(r.call());
    }
    o
}
/// an equal packet that was put together anew
fn again(u: &User) -> User {
    match u {
        User::Enc { ps, vs } => User::Enc {
            ps: ps.iter().map(|p| from_j(&to_j(p)).ok().filter(|q| q == p).unwrap_or_else(|| p.clone())).collect(),
            vs: vs.clone(),
        },
        d => d.clone(),
    }
}

type Log = Vec<(usize, usize, Got)>;

// ------------------------------------------------------------------ threads
struct Turns {
    sched: Vec<usize>,
    at: usize,
    done: Vec<bool>,
    log: Log,
}
struct Gate {
    m: Mutex<Turns>,
    c: Condvar,
}
impl Turns {
    fn owner(&mut self) -> usize {
        while self.at < self.sched.len() && self.done[self.sched[self.at]] {
            self.at += 1;
        }
        match self.sched.get(self.at) {
            Some(x) => *x,
            None => self.done.iter().position(|x| !x).unwrap_or(0),
        }
    }
}
impl Gate {
    fn wait(&self, me: usize) {
        let mut t = self.m.lock().unwrap();
        while t.owner() != me {
            t = self.c.wait(t).unwrap();
        }
    }
    fn pass(&self, me: usize) {
        let mut t = self.m.lock().unwrap();
        t.at += 1;
        self.c.notify_all();
        while t.owner() != me {
            t = self.c.wait(t).unwrap();
        }
    }
    fn end(&self, me: usize) {
        let mut t = self.m.lock().unwrap();
        t.done[me] = true;
        t.at += 1;
        self.c.notify_all();
    }
}
fn threads(us: &[User], sched: &[usize]) -> Log {
    let sched: Vec<usize> = sched.iter().cloned().filter(|x| *x < us.len()).collect();
    let gate = Arc::new(Gate { m: Mutex::new(Turns { sched, at: 0, done: vec![false; us.len()], log: vec![] }), c: Condvar::new() });
    let hs: Vec<_> = us
        .iter()
        .enumerate()
        .map(|(me, u)| {
            let (gate, u) = (gate.clone(), u.clone());
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    gate.wait(me);
                    let g = gate.clone();
                    let mut r = Run::new(&u, Some(Rc::new(move || g.pass(me))));
                    while !r.done() {
                        if r.at > 0 {
                            gate.pass(me);
                        }
                        let out = r.call();
                        gate.m.lock().unwrap().log.push((me, r.at, out));
                    }
                    gate.end(me);
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        h.join().expect("user thread");
    }
    let mut t = gate.m.lock().unwrap();
    std::mem::take(&mut t.log)
}

// ------------------------------------------------------------------ one thread
struct One {
    sched: Vec<usize>,
    at: usize,
    runs: Vec<Option<Run>>,
    log: Log,
}
/// lets user j make a call, if it is not in one already
fn turn(o: &Rc<RefCell<One>>, j: usize) {
    let r = o.borrow_mut().runs[j].take();
    if let Some(mut r) = r {
        if !r.done() {
            let out = r.call();
            o.borrow_mut().log.push((j, r.at, out));
        }
        o.borrow_mut().runs[j] = Some(r);
    }
}
/// while user me waits for bytes
fn meanwhile(o: &Rc<RefCell<One>>, me: usize) {
    loop {
        let j = {
            let mut x = o.borrow_mut();
            if x.at >= x.sched.len() {
                return;
            }
            x.at += 1;
            x.sched[x.at - 1]
        };
        if j == me {
            return;
        }
        turn(o, j);
    }
}
fn nested(us: &[User], sched: &[usize]) -> Log {
    let sched: Vec<usize> = sched.iter().cloned().filter(|x| *x < us.len()).collect();
    let o = Rc::new(RefCell::new(One { sched, at: 0, runs: vec![], log: vec![] }));
    for (me, u) in us.iter().enumerate() {
        let w = Rc::downgrade(&o);
        let r = Run::new(
            u,
            Some(Rc::new(move || {
                if let Some(o) = w.upgrade() {
                    meanwhile(&o, me)
                }
            })),
        );
        o.borrow_mut().runs.push(Some(r));
    }
    loop {
        let j = {
            let mut x = o.borrow_mut();
            if x.at >= x.sched.len() {
                break;
            }
            x.at += 1;
            x.sched[x.at - 1]
        };
        turn(&o, j);
    }
    for j in 0..us.len() {
        for _ in 0..us[j].calls() {
            turn(&o, j);
        }
    }
    let log = std::mem::take(&mut o.borrow_mut().log);
    log
}

// ------------------------------------------------------------------ events
fn head(us: &[User], sched: &[usize], mode: &str) -> Vec<(&'static str, J)> {
    vec![
        ("e", s("share")),
        ("mode", s(mode)),
        ("us", arr(us.iter().map(|u| u.j()))),
        ("sched", arr(sched.iter().map(|x| n(*x + 1)))),
    ]
}
pub fn share_event(us: &[User], sched: &[usize], mode: &str) -> (J, bool) {
    about_to(|| obj(head(us, sched, mode)));
    let single: Vec<Vec<Got>> = us.iter().map(alone).collect();
    let fresh: Vec<User> = us.iter().map(again).collect();
    let log = if mode == "threads" { threads(&fresh, sched) } else { nested(&fresh, sched) };
    let odd = log.iter().any(|(u, k, g)| *g == Got::Dec(Out::Panic) || *g == Got::Enc(Enc::Panic) || single[*u][*k - 1] != *g);
    let mut j = head(us, sched, mode);
    j.push(("alone", arr(single.iter().map(|x| arr(x.iter().map(|y| y.j()))))));
    j.push(("calls", arr(log.iter().map(|(u, k, g)| obj(vec![("u", n(*u + 1)), ("o", n(*k)), ("out", g.j())])))));
    (obj(j), odd)
}

fn user(r: &mut Rng) -> User {
    if r.chance(55) {
        let (mut data, mut vs, mut sizes) = (vec![], vec![], vec![]);
        for _ in 0..r.range(1, 4) {
            let (x, v) = complete(r);
            // in one, two or three pieces, or joined with what follows
            let mut left = x.len();
            for _ in 0..r.below(3) {
                if left > 1 {
                    let k = if r.flag() { 1 } else { r.range(1, left) };
                    sizes.push(k);
                    left -= k;
                }
            }
            sizes.push(left.max(1));
            if r.chance(20) && sizes.len() > 1 {
                let k = sizes.pop().unwrap();
                *sizes.last_mut().unwrap() += k;
            }
            data.extend(x);
            vs.push(v);
        }
        if r.chance(15) {
            let k = r.range(1, 5).min(data.len());
            data.truncate(data.len() - k);
        }
        User::Dec { b: data, vs, sizes }
    } else {
        let (mut ps, mut vs) = (vec![], vec![]);
        for _ in 0..r.range(1, 5) {
            let (p, v) = packet(r);
            ps.push(p);
            vs.push(v);
        }
        User::Enc { ps, vs }
    }
}
fn packet(r: &mut Rng) -> (MqttPacket, u8) {
    let v = *r.pick(&[5, 5, 5, 4, 3]);
    let fo = *r.pick(&[Focus::Any, Focus::Wild, Focus::Props, Focus::User, Focus::Wild]);
    let t = *r.pick(&TYPES);
    (packets::packet(r, t, v, fo), v)
}

pub fn share(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    for k in 0..pool {
        let us: Vec<User> = (0..if k % 4 == 0 { 3 } else { 2 }).map(|_| user(r)).collect();
        let steps: usize = us.iter().map(|u| u.calls() * 3).sum();
        let sched: Vec<usize> = (0..steps).map(|_| r.below(us.len())).collect();
        let mode = *r.pick(&["threads", "nested", "nested"]);
        let (ev, odd) = share_event(&us, &sched, mode);
        let sig = hash(&[us.iter().map(|u| matches!(u, User::Enc { .. }) as u64).sum(), mode.len() as u64, r.below(400) as u64]);
        q.offer(sig, odd, || ev);
    }
    q.take()
}

/// one call after another in one thread: every ordered pair of a set of calls, some of them refused
pub fn row(r: &mut Rng, limit: usize, deep: bool) -> Vec<J> {
    let mut us: Vec<User> = vec![];
    for t in TYPES {
        for v in [5u8, 4] {
            for k in 0..if deep { 10 } else { 4 } {
                let fo = [Focus::Any, Focus::Wild, Focus::Props, Focus::Wild][k % 4];
                us.push(User::Enc { ps: vec![packets::packet(r, t, v, fo)], vs: vec![v] });
                let (x, v, _) = random_wire(r, &[t], if k % 2 == 0 { "mix" } else { "mutant" });
                us.push(User::Dec { b: x, vs: vec![v], sizes: vec![] });
            }
        }
    }
    let mut q = Pool::new(limit);
    let single: Vec<Vec<Got>> = us.iter().map(alone).collect();
    let mut bad = 0;
    for a in 0..us.len() {
        for z in 0..us.len() {
            BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let first = alone(&us[a]);
            let odd = alone(&us[z]) != single[z] || first != single[a];
            crate::sweep::SCREENED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if odd {
                bad += 1;
            }
            if odd && bad < 40 || (a * 31 + z * 17) % 97 == 0 {
                let (ev, _) = share_event(&[us[a].clone(), us[z].clone()], &[0, 1], "nested");
                q.offer(hash(&[a as u64 % 60, z as u64 % 60]), odd, || ev);
            }
        }
    }
    q.take()
}

/// close relatives of a packet: one part of it in capitals, a little larger, in another order
fn relatives(p: &MqttPacket, r: &mut Rng) -> Vec<MqttPacket> {
    fn at<'a>(j: &'a mut J, n: &mut usize) -> Option<&'a mut J> {
        match j {
            J::Obj(l) => l.iter_mut().find_map(|x| at(&mut x.1, n)),
            J::Arr(l) => l.iter_mut().find_map(|x| at(x, n)),
            x if *n == 0 => Some(x),
            _ => {
                *n -= 1;
                None
            }
        }
    }
    fn bytes(y: &[u8], how: usize, r: &mut Rng) -> Vec<u8> {
        let mut y = y.to_vec();
        let n = y.len();
        let k = r.below(n.max(1));
        match how {
            0 => y.iter_mut().for_each(|c| if c.is_ascii_alphabetic() { *c ^= 0x20 }),
            1 if n > 0 => y[k] ^= 1,
            2 if n > 1 => y.swap(k, (k + 1) % n),
            3 => y.reverse(),
            4 if n > 0 => y[n - 1] ^= 1,
            5 => y.push(b' '),
            6 => y.insert(0, b' '),
            7 => y.push(0),
            8 if n > 0 => y[0] ^= 2,
            9 => {
                let x = y.clone();
                y.extend(x)
            }
            _ if n > 2 => {
                // the same sum
                let k = r.below(n - 1);
                if y[k] < 0x7e && y[k + 1] > 0x21 && y[k + 1] < 0x7f {
                    y[k] += 1;
                    y[k + 1] -= 1
                }
            }
            _ => {}
        }
        y
    }
    let j = to_j(p);
    let mut o: Vec<MqttPacket> = vec![];
    for leaf in 0.. {
        let mut c = j.clone();
        match at(&mut c, &mut { leaf }) {
            None => break,
            Some(_) => {}
        }
        for how in 0..11 {
            let mut c = j.clone();
            let x = at(&mut c, &mut { leaf }).unwrap();
            *x = match &*x {
                J::Bytes(y) => J::Bytes(bytes(y, how, r)),
                J::Int(y) => J::Int(match how {
                    0 => y + 1,
                    1 => y + 256,
                    2 => y + 65536,
                    3 => y ^ 0x8000,
                    4 => (y % 256) * 256 + (y / 256) % 256,
                    5 => y ^ 0x80,
                    6 => (y - 1).max(0),
                    _ => continue,
                }),
                J::Bool(y) if how == 0 => J::Bool(!y),
                _ => continue,
            };
            if let Ok(q) = from_j(&c) {
                if q != *p && !o.contains(&q) {
                    o.push(q)
                }
            }
        }
    }
    o
}
/// packets that are nearly the same, one after the other
pub fn near(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    let mut bad = 0;
    let other = User::Enc { ps: vec![MqttPacket::Pingreq], vs: vec![5] };
    for k in 0..pool {
        let v = [5u8, 5, 4, 3][k % 4];
        let t = TYPES[(k / 4) % TYPES.len()];
        let fo = *r.pick(&[Focus::Any, Focus::Props, Focus::User]);
        let p = packets::packet(r, t, v, fo);
        let wire = |p: &MqttPacket| match encode(p, v) {
            Enc::Ok(b) => Some(User::Dec { b, vs: vec![v], sizes: vec![] }),
            _ => None,
        };
        let stream = |p: &MqttPacket, x: &MqttPacket| match (encode(p, v), encode(x, v)) {
            (Enc::Ok(mut b), Enc::Ok(c)) => {
                b.extend(c);
                Some(User::Dec { b, vs: vec![v, v], sizes: vec![] })
            }
            _ => None,
        };
        let single = |p: &MqttPacket| User::Enc { ps: vec![p.clone()], vs: vec![v] };
        let unlike = packets::packet(r, "publish", v, Focus::Any);
        let z = wire(&unlike).unwrap_or_else(|| other.clone());
        for (how, x) in relatives(&p, r).into_iter().enumerate() {
            for (kind, pair) in [
                (0, wire(&p).and_then(|a| Some((a, wire(&x)?)))),
                (1, Some((single(&p), single(&x)))),
                (2, wire(&x).map(|c| (single(&p), c))),
                (3, stream(&p, &x).map(|c| (c, single(&p)))),
            ] {
                let Some((a, c)) = pair else { continue };
                BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                crate::sweep::SCREENED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let away = || (alone(&z), alone(&single(&unlike)));
                away();
                let one = alone(&a);
                away();
                let two = alone(&c);
                let odd = alone(&a) != one || {
                    away();
                    alone(&c) != two
                };
                bad += odd as usize;
                let sig = hash(&[k as u64 % 60, kind, how as u64]);
                if odd && bad < 40 || !odd && sig % 13 == 0 {
                    q.offer(sig, odd, || share_event(&[a.clone(), c.clone()], &[0, 1], "nested").0);
                }
            }
        }
    }
    q.take()
}

pub fn share_given(list: &[J]) -> Vec<J> {
    let mut o = vec![];
    for (k, g) in list.iter().enumerate() {
        let us: Result<Vec<User>, String> = g.get("us").and_then(|x| x.list()).and_then(|x| x.iter().map(User::parse).collect());
        let us = us.unwrap_or_else(|e| {
            eprintln!("cannot build generated users: {}", e);
            std::process::exit(2)
        });
        let sched: Vec<usize> = g.get("sched").and_then(|x| x.list()).expect("sched").iter().map(|x| x.int().unwrap() as usize - 1).collect();
        match g.get("mode") {
            Ok(m) => o.push(share_event(&us, &sched, m.str().unwrap()).0),
            _ => {
                o.push(share_event(&us, &sched, "threads").0);
                if k % 2 == 0 {
                    o.push(share_event(&us, &sched, "nested").0)
                }
            }
        }
    }
    o
}
