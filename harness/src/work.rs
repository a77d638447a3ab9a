//! How much work a call is: processor time, memory reserved in total and how often, for packets
//! that differ in nothing but how many there are of one part of them.
use crate::exec::*;
use crate::json::*;
use crate::live::spent;
use crate::model::*;
use crate::packets::{self, Focus, TYPES};
use crate::rng::Rng;
use mqtt_packet_3_5::*;
use std::rc::Rc;

extern "C" {
    fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
}
/// processor time of this thread
fn clock() -> i64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] * 1_000_000_000 + t[1]
}

fn section<'a>(p: &'a mut MqttPacket, place: &str) -> Option<&'a mut UserProperties> {
    use MqttPacket::*;
    Some(match (place, p) {
        ("will", Connect(p)) => &mut p.will.as_mut()?.properties.as_mut()?.user_properties,
        ("up", Connect(p)) => &mut p.properties.as_mut()?.user_properties,
        ("up", Connack(p)) => &mut p.properties.as_mut()?.user_properties,
        ("up", Publish(p)) => &mut p.properties.as_mut()?.user_properties,
        ("up", Puback(p)) | ("up", Pubrec(p)) | ("up", Pubrel(p)) | ("up", Pubcomp(p)) => {
            &mut p.properties.as_mut()?.user_properties
        }
        ("up", Subscribe(p)) => &mut p.properties.as_mut()?.user_properties,
        ("up", Suback(p)) => &mut p.properties.as_mut()?.user_properties,
        ("up", Unsubscribe(p)) => &mut p.properties.as_mut()?.user_properties,
        ("up", Unsuback(p)) => &mut p.properties.as_mut()?.user_properties,
        ("up", Disconnect(p)) => &mut p.properties.as_mut()?.user_properties,
        ("up", Auth(p)) => &mut p.properties.as_mut()?.user_properties,
        _ => return None,
    })
}
fn cycle<T: Clone>(l: &mut Vec<T>, k: usize) -> Option<()> {
    let of = l.clone();
    l.first()?;
    *l = (0..k).map(|j| of[j % of.len()].clone()).collect();
    Some(())
}
/// the packet with k of one part; how: all the same, or different
fn grown(p: &MqttPacket, place: &str, how: &str, k: usize) -> Option<MqttPacket> {
    use MqttPacket::*;
    let mut p = p.clone();
    let name = |j: usize| if how == "same" { "t00000".to_string() } else { format!("t{:05}", j) };
    if place == "up" || place == "will" {
        let u = section(&mut p, place)?;
        u.clear();
        match how {
            "same" | "values" => {
                u.insert("k".into(), (0..k).map(name).collect());
            }
            "keys" => (0..k).for_each(|j| {
                u.insert(name(j), vec!["v".into()]);
            }),
            // some of each
            _ => (0..k).for_each(|j| u.entry(name(j / 30)).or_default().push(name(j))),
        }
        return Some(p);
    }
    match (place, &mut p) {
        ("subs", Subscribe(q)) => {
            cycle(&mut q.subscriptions, k)?;
            q.subscriptions.iter_mut().enumerate().for_each(|(j, x)| x.topic = name(j));
        }
        ("topics", Unsubscribe(q)) => q.unsubscriptions = (0..k).map(name).collect(),
        ("codes", Suback(q)) => {
            cycle(&mut q.granted_reason_codes, k * 8)?;
            cycle(&mut q.granted, k * 8).unwrap_or(());
        }
        ("granted", Suback(q)) => {
            cycle(&mut q.granted, k * 8)?;
        }
        ("codes", Unsuback(q)) => {
            cycle(&mut q.granted, k * 8)?;
        }
        ("payload", Publish(q)) => q.payload = (0..k * 16).map(|j| if how == "same" { 0 } else { (j * 7 + j / 256) as u8 }).collect(),
        ("stream", _) => {}
        _ => return None,
    }
    Some(p)
}

/// nanoseconds, bytes and times reserved; None: panics or does not do what it is about
fn once(p: &MqttPacket, v: u8, place: &str, side: &str, k: usize) -> Option<[i64; 3]> {
    BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if side == "enc" {
        let all: Vec<MqttPacket> = vec![p.clone(); if place == "stream" { k } else { 1 }];
        let (t, m) = (clock(), spent());
        let out: Vec<_> = all.into_iter().map(|p| guarded(|| p.encode(v))).collect();
        let (t, m) = (clock() - t, minus(spent(), m));
        return out.iter().all(|x| x.is_ok()).then_some([t, m.0, m.1]);
    }
    let mut x = match encode(p, v) {
        Enc::Ok(x) => x,
        _ => return None,
    };
    match side {
        // refused at once, in the end, or on the way
        "flag" => x[0] ^= 0x0f,
        "cut" => {
            x.pop();
        }
        "odd" => {
            let at = x.len() * 2 / 3;
            x[at] ^= 0x80
        }
        _ => {}
    }
    let calls = if place == "stream" {
        x = x.repeat(k);
        k
    } else {
        1
    };
    let plan = match side {
        "drip" => Plan::sizes(vec![1, 0]),
        "bits" => Plan::sizes(vec![100, 3, 0, 700]),
        _ => Plan::whole(),
    };
    let src = Src::new(Rc::new(x), plan);
    let (t, m) = (clock(), spent());
    let mut d = decoder(src, Ctor::Stream);
    let mut out = Vec::with_capacity(calls);
    for _ in 0..calls {
        out.push(guarded(|| {
            d.has_more();
            d.decode_packet(v)
        }));
    }
    let (t, m) = (clock() - t, minus(spent(), m));
    out.iter().all(|x| x.is_ok()).then_some([t, m.0, m.1])
}
fn minus(a: (i64, i64), c: (i64, i64)) -> (i64, i64) {
    (a.0 - c.0, a.1 - c.1)
}

const FACTOR: i64 = 8;
const FLOOR: [i64; 3] = [500, 64, 200];
fn above(small: i64, large: i64, times: i64, floor: i64) -> bool {
    large > FACTOR * times * small.max(floor)
}

fn event(p: &MqttPacket, v: u8, place: &str, how: &str, side: &str, sizes: &[usize]) -> Option<J> {
    let head = |k: &str, w: &[[i64; 3]]| {
        obj(vec![
            ("e", s("work")),
            ("v", i(v)),
            ("p", to_j(p)),
            ("place", s(place)),
            ("how", s(how)),
            ("side", s(side)),
            ("k", s(k)),
            ("sizes", arr(sizes.iter().map(|x| n(*x)))),
            ("ns", arr(sizes[..w.len()].iter().map(|x| n(*x)))),
            ("w", arr(w.iter().map(|x| arr(x.iter().map(|y| n((*y).clamp(0, 2_000_000_000) as usize)))))),
        ])
    };
    about_to(|| head("", &[]));
    let mut w: Vec<[i64; 3]> = vec![];
    for (j, k) in sizes.iter().enumerate() {
        let q = grown(p, place, how, *k)?;
        let measure = |reps: usize| {
            let mut best: Option<[i64; 3]> = None;
            for _ in 0..reps {
                match once(&q, v, place, side, *k) {
                    None => return None,
                    Some(x) => best = Some(best.map_or(x, |y| [x[0].min(y[0]), x[1].min(y[1]), x[2].min(y[2])])),
                }
                if best.is_some_and(|x| x[0] > 500_000_000) {
                    break;
                }
            }
            // microseconds, kilobytes, times
            best.map(|x| [x[0] / 1000, x[1] / 1024, x[2]])
        };
        let odd = |w: &[[i64; 3]], x: [i64; 3]| {
            (0..j).any(|z| (0..3).any(|m| above(w[z][m], x[m], (*k / sizes[z]) as i64, FLOOR[m])))
        };
        let mut x = match measure(2) {
            Some(x) => x,
            None => return Some(head("panic", &w)),
        };
        // somebody else may have been in the way
        for _ in 0..4 {
            if odd(&w, x) {
                if let Some(y) = measure(3) {
                    x = [x[0].min(y[0]), x[1].min(y[1]), x[2].min(y[2])]
                }
            }
        }
        let end = odd(&w, x);
        w.push(x);
        if end {
            break;
        }
    }
    Some(head("ok", &w))
}

pub fn sizes(deep: bool) -> Vec<usize> {
    if deep {
        vec![500, 4000, 32000, 256000]
    } else {
        vec![500, 4000, 32000]
    }
}
pub fn work(r: &mut Rng, deep: bool) -> Vec<J> {
    let mut jobs = vec![];
    for t in TYPES {
        for v in [5u8, 4, 3] {
            for (place, hows) in [
                ("up", &["same", "values", "keys", "mixed"][..]),
                ("will", &["values", "keys"]),
                ("subs", &["same", "different"]),
                ("topics", &["same", "different"]),
                ("codes", &["different"]),
                ("granted", &["different"]),
                ("payload", &["same", "different"]),
                ("stream", &["same"]),
            ] {
                for how in hows {
                    for side in ["enc", "dec", "drip", "bits", "flag", "cut", "odd"] {
                        if v == 5 || v == 4 && place != "up" && place != "will" || deep {
                            jobs.push((t, v, place, *how, side, r.next()));
                        }
                    }
                }
            }
        }
    }
    let one = |j: usize| -> Vec<J> {
        let (t, v, place, how, side, seed) = jobs[j];
        let mut r = Rng::new(seed);
        for _ in 0..60 {
            let p = packets::packet(&mut r, t, v, Focus::Props);
            if matches!(&p, MqttPacket::Connect(c) if c.protocol_version != v) {
                continue;
            }
            match grown(&p, place, how, 3).map(|q| encode(&q, v)) {
                Some(Enc::Ok(_)) => return event(&p, v, place, how, side, &sizes(deep)).into_iter().collect(),
                _ => continue,
            }
        }
        vec![]
    };
    crate::sweep::parallel(jobs.len(), one)
}
pub fn work_given(list: &[J]) -> Vec<J> {
    let text = |g: &J, k: &str| g.get(k).and_then(|x| x.str().map(|x| x.to_string())).expect("work");
    list.iter()
        .filter_map(|g| {
            let p = g.get("p").and_then(from_j).expect("packet");
            let v = g.get("v").and_then(|x| x.int()).expect("v") as u8;
            let sizes: Vec<usize> = g.get("sizes").and_then(|x| x.list()).expect("sizes").iter().map(|x| x.int().unwrap() as usize).collect();
            event(&p, v, &text(g, "place"), &text(g, "how"), &text(g, "side"), &sizes)
        })
        .collect()
}
