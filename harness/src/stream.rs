//! Suites about streams: several packets in a row, cut streams, delivery of the bytes.
use crate::codec::{random_wire, shape};
use crate::exec::*;
use crate::json::*;
use crate::model::to_j;
use crate::packets::TYPES;
use crate::pool::*;
use crate::rng::Rng;
use crate::wire;
use std::io::ErrorKind;
use std::rc::Rc;

const KINDS: [&str; 6] = ["plain", "short", "user", "odd", "mutant", "mix"];

/// a complete packet: valid, odd or mutated, but with a correct total length
pub fn complete(r: &mut Rng) -> (Vec<u8>, u8) {
    loop {
        let kind = if r.chance(45) { "mutant" } else { *r.pick(&KINDS) };
        let (x, v, _) = random_wire(r, &TYPES, kind);
        if let Some((_, st, len)) = wire::split(&x) {
            if st + len == x.len() {
                return (x, v);
            }
        }
        // a few lost streams are wanted as well
        if r.chance(3) {
            return (x, v);
        }
    }
}

pub fn tail(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 | 1 => vec![],
        2 => {
            let (x, _) = complete(r);
            let n = r.below(x.len());
            x[..n].to_vec()
        }
        _ => {
            let n = r.range(1, 6);
            r.bytes(n)
        }
    }
}

pub fn stream_event(pk: &[Vec<u8>], tail: &[u8], vs: &[u8]) -> (J, Vec<Call>) {
    let mut data = pk.concat();
    data.extend_from_slice(tail);
    about_to(|| obj(vec![("e", s("stream")), ("b", b(&data)), ("vs", arr(vs.iter().map(|v| i(*v))))]));
    let calls = run_exact(&data, vs, data.len() + 2);
    let iso = pk.iter().zip(vs.iter().cycle()).map(|(x, v)| {
        let c = run_exact(x, &[*v], 1);
        obj(vec![("b", b(x)), ("out", c[0].out.j())])
    });
    let j = obj(vec![
        ("e", s("stream")),
        ("b", b(&data)),
        ("vs", arr(vs.iter().map(|v| i(*v)))),
        ("calls", arr(calls.iter().map(|c| obj(vec![("out", c.out.j()), ("pos", n(c.pos)), ("more", s(c.more))])))),
        ("iso", arr(iso)),
    ]);
    (j, calls)
}

fn stream_sig(calls: &[Call]) -> u64 {
    hash(
        &calls
            .iter()
            .take(6)
            .map(|c| match &c.out {
                Out::Ok(p) => shape(&to_j(p)),
                Out::Err(m) => m.sig(),
                Out::Panic => 7,
            })
            .collect::<Vec<_>>(),
    )
}

pub fn stream(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    for _ in 0..pool {
        // large packets come in twos and threes, small ones now and then by the hundred
        let k = if r.large {
            r.range(1, 3)
        } else if r.chance(70) {
            r.range(2, 4)
        } else if r.chance(97) {
            r.range(1, 9)
        } else {
            r.range(60, 250)
        };
        let one = *r.pick(&[0u8, 3, 4, 5, 5]);
        let (mut pk, mut vs) = (vec![], vec![]);
        for _ in 0..k {
            let (x, v) = complete(r);
            pk.push(x);
            vs.push(if one == 0 || r.chance(20) { v } else { one });
        }
        vs.push(*r.pick(&[3, 4, 5]));
        let t = tail(r);
        let (j, calls) = stream_event(&pk, &t, &vs);
        // a packet that comes out differently than alone
        let mut sus = false;
        for (n, c) in calls.iter().enumerate() {
            if n < pk.len() && decode_one(&pk[n], vs[n]) != c.out {
                sus = true
            }
            if c.out == Out::Panic {
                sus = true
            }
        }
        q.offer(stream_sig(&calls), sus, || j);
    }
    q.take()
}

/// any bytes at all, any version number
pub fn garbage(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    for _ in 0..pool {
        let data = match r.below(4) {
            0 => {
                let n = r.range(1, 12);
                r.bytes(n)
            }
            1 => {
                let n = r.range(1, 80);
                (0..n).map(|_| r.next() as u8).collect()
            }
            2 => {
                // real packets with overwritten bytes, cut anywhere
                let (mut x, _) = complete(r);
                for _ in 0..r.range(1, 4) {
                    let p = r.below(x.len());
                    x[p] = r.u8()
                }
                let n = r.below(x.len()) + 1;
                x[..n].to_vec()
            }
            _ => {
                // many tiny packets
                let n = r.range(1, 30);
                (0..n)
                    .flat_map(|_| {
                        let h = (r.below(16) as u8) << 4 | *r.pick(&[0, 0, 2, 15, 6, 8]);
                        let n = r.below(4);
                        wire::assemble(h, &r.bytes(n))
                    })
                    .collect()
            }
        };
        let vs: Vec<u8> = (0..r.range(1, 3)).map(|_| if r.chance(70) { *r.pick(&[3, 4, 5]) } else { r.u8() }).collect();
        let (j, calls) = stream_event(&[], &data, &vs);
        let sus = calls.iter().any(|c| c.out == Out::Panic || c.more == "panic");
        q.offer(stream_sig(&calls), sus, || j);
    }
    q.take()
}

pub fn stream_given(list: &[J]) -> Vec<J> {
    list.iter()
        .map(|g| {
            let vs = g.get("vs").and_then(|x| x.bytes()).expect("vs");
            let pk: Vec<Vec<u8>> = match g.get("pk") {
                Ok(x) => x.list().unwrap().iter().map(|y| y.bytes().unwrap()).collect(),
                Err(_) => vec![],
            };
            let t = g.get("b").and_then(|x| x.bytes()).unwrap_or_default();
            stream_event(&pk, &t, &vs).0
        })
        .collect()
}

const FAULTS: [(&str, Option<ErrorKind>, bool); 14] = [
    ("eof", None, false),
    ("reset", Some(ErrorKind::ConnectionReset), false),
    ("timeout", Some(ErrorKind::TimedOut), false),
    ("other", Some(ErrorKind::Other), false),
    ("ueof", Some(ErrorKind::UnexpectedEof), false),
    ("wouldblock-once", Some(ErrorKind::WouldBlock), true),
    ("timeout-once", Some(ErrorKind::TimedOut), true),
    ("other-once", Some(ErrorKind::Other), true),
    ("ueof-once", Some(ErrorKind::UnexpectedEof), true),
    ("wouldblock", Some(ErrorKind::WouldBlock), false),
    ("aborted", Some(ErrorKind::ConnectionAborted), false),
    ("pipe", Some(ErrorKind::BrokenPipe), false),
    ("data-once", Some(ErrorKind::InvalidData), true),
    ("reset-once", Some(ErrorKind::ConnectionReset), true),
];

/// every place a packet can break off x every fault x buffer sizes, with and without
/// another packet before it
pub fn cut_event(x: &[u8], v: u8, cuts: &[usize], all: bool) -> J {
    about_to(|| obj(vec![("e", s("cut")), ("v", i(v)), ("b", b(x))]));
    let full = run_exact(x, &[v], 1);
    let before = [0xc0u8, 0];
    let mut runs: Vec<(usize, &str, &str)> = vec![];
    for &c in cuts {
        for (fi, (name, kind, once)) in FAULTS.iter().enumerate() {
            if !all && (fi + c) % 3 != 0 && fi > 0 {
                continue;
            }
            let end = match (kind, once) {
                (None, _) => End::Eof,
                (Some(k), false) => End::Error(*k),
                (Some(k), true) => End::ErrorOnce(*k),
            };
            for (cap, pre) in [(8192usize, false), (1, false), (5, true)] {
                if pre && fi != 0 && fi != 5 {
                    continue;
                }
                let mut data = if pre { before.to_vec() } else { vec![] };
                let off = data.len();
                // at the end of file there is nothing after the cut; otherwise more follows
                data.extend_from_slice(x);
                data.extend_from_slice(&[0xd0, 0, 0xd0, 0]);
                let plan = Plan::cut(off + c, end.clone());
                let mut d = decoder(Src::new(Rc::new(data), plan), Ctor::Buf(cap));
                if pre {
                    let _ = guarded(|| d.decode_packet(v));
                }
                let out = Out::of(guarded(|| d.decode_packet(v)));
                let e = (c, *name, out.k());
                if !runs.contains(&e) {
                    runs.push(e)
                }
            }
        }
    }
    obj(vec![
        ("e", s("cut")),
        ("v", i(v)),
        ("b", b(x)),
        ("full", s(full[0].out.k())),
        (
            "runs",
            arr(runs.iter().map(|(c, f, k)| obj(vec![("cut", n(*c)), ("f", s(f)), ("k", s(k))]))),
        ),
    ])
}

pub fn cut(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    for _ in 0..pool {
        let kind = if r.chance(85) { "plain" } else { "mix" };
        let (x, v, _) = random_wire(r, &TYPES, kind);
        let cuts: Vec<usize> = if x.len() <= 40 {
            (0..x.len()).collect()
        } else {
            let mut c: Vec<usize> = (0..12).chain(x.len() - 6..x.len()).collect();
            for _ in 0..22 {
                c.push(r.range(12, x.len() - 7))
            }
            // where buffers end
            for m in [512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] {
                for q in [m - 1, m, m + 1, m + 3] {
                    if q < x.len() {
                        c.push(q)
                    }
                }
            }
            c
        };
        let out = decode_one(&x, v);
        let all = r.chance(25);
        let ev = cut_event(&x, v, &cuts, all);
        let sus = ev
            .get("runs")
            .unwrap()
            .list()
            .unwrap()
            .iter()
            .any(|e| e.get("k").unwrap().str() != Ok("err"));
        let sig = match &out {
            Out::Ok(p) => shape(&to_j(p)),
            Out::Err(m) => m.sig(),
            _ => 0,
        };
        q.offer(hash(&[sig, (x[0] >> 4) as u64, v as u64]), sus, || ev);
    }
    q.take()
}
pub fn cut_given(list: &[J]) -> Vec<J> {
    list.iter()
        .map(|g| {
            let v = g.get("v").and_then(|x| x.int()).expect("v") as u8;
            let x = g.get("b").and_then(|x| x.bytes()).expect("b");
            let cuts: Vec<usize> = (0..x.len()).collect();
            cut_event(&x, v, &cuts, true)
        })
        .collect()
}

/// the same bytes delivered in many ways; outcome lists that differ are all recorded
pub fn chunk_event(r: &mut Rng, data: Vec<u8>, vs: &[u8], nruns: usize, given: Option<Vec<usize>>) -> (J, usize) {
    about_to(|| obj(vec![("e", s("chunk")), ("b", b(&data)), ("vs", arr(vs.iter().map(|v| i(*v))))]));
    let data = Rc::new(data);
    let max = data.len() + 2;
    let reference = run_any(&data, vs, Plan::whole(), Ctor::Stream, 1, max);
    let calls = reference.len();
    let mut classes: Vec<(Vec<Out>, String)> = vec![(reference, "whole stream polls 1".into())];
    let mut runs = 1;
    for k in 0..nruns {
        let sizes: Vec<usize> = match k {
            _ if given.is_some() => given.clone().unwrap(),
            0 => vec![1],
            1 => vec![0, 1],
            2 => vec![0, 0, usize::MAX],
            3 => vec![2],
            4 => vec![1, 0, 0, 3],
            5 => vec![usize::MAX],
            6 => vec![5, 0],
            _ => {
                let n = r.range(1, 8);
                let mut v: Vec<usize> =
                    (0..n).map(|_| *r.pick(&[0, 1, 1, 2, 3, 4, 5, 7, 8, 13, 16, 64, 127, 128, 1000, 4096, 8191, 8192, 8193])).collect();
                v.push(r.range(1, 9));
                v
            }
        };
        let cap = *r.pick(&[1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 128, 1024, 8192]);
        let ctor = match if k < 4 { k } else { r.below(4) } {
            0 => Ctor::Buf(cap),
            1 => Ctor::Stream,
            2 => Ctor::Reader(cap),
            _ => Ctor::Looked(cap),
        };
        let polls = match k {
            5 | 6 => 0,
            _ => *r.pick(&[0, 1, 1, 2, 3]),
        };
        let limit = if polls == 0 { calls } else { max };
        let outs = run_any(&data, vs, Plan::sizes(sizes.clone()), ctor, polls, limit);
        runs += 1;
        if !classes.iter().any(|c| c.0 == outs) {
            let short: Vec<usize> = sizes.iter().map(|x| *x.min(&999999)).collect();
            let how = format!("{:?} {:?} polls {}", short, ctor, polls);
            classes.push((outs, how.replace(|c: char| !c.is_ascii_alphanumeric(), " ")));
        }
    }
    let nc = classes.len();
    (
        obj(vec![
            ("e", s("chunk")),
            ("b", b(&data)),
            ("vs", arr(vs.iter().map(|v| i(*v)))),
            ("runs", n(runs)),
            (
                "classes",
                arr(classes
                    .iter()
                    .map(|(o, how)| obj(vec![("how", s(how)), ("outs", arr(o.iter().map(|x| x.j())))]))),
            ),
        ]),
        nc,
    )
}

pub fn chunk(r: &mut Rng, limit: usize, pool: usize, nruns: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    for _ in 0..pool {
        let k = r.range(1, 4);
        let (mut data, mut vs) = (vec![], vec![]);
        for _ in 0..k {
            let (x, v) = complete(r);
            data.extend(x);
            vs.push(v);
        }
        if r.chance(20) {
            data.extend(tail(r))
        }
        let (ev, nc) = chunk_event(r, data, &vs, nruns, None);
        let sig = shape(&ev);
        q.offer(sig, nc > 1, || ev);
    }
    q.take()
}
pub fn chunk_given(r: &mut Rng, list: &[J]) -> Vec<J> {
    list.iter()
        .map(|g| {
            let vs = g.get("vs").and_then(|x| x.bytes()).expect("vs");
            let x = g.get("b").and_then(|x| x.bytes()).expect("b");
            let sizes = g.get("sizes").ok().map(|x| {
                x.list().unwrap().iter().map(|y| y.int().unwrap() as usize).collect::<Vec<_>>()
            });
            let runs = if sizes.is_some() { 3 } else { 12 };
            chunk_event(r, x, &vs, runs, sizes).0
        })
        .collect()
}
