//! Packets at the limit of the remaining length: lists and property sections of 256 MiB.  What is
//! repeated is kept out of the record; the specification computes the size from the small packet.
use crate::exec::*;
use crate::json::*;
use crate::model::*;
use crate::packets::{self, Focus};
use crate::rng::Rng;
use mqtt_packet_3_5::*;

const MAX: usize = 268_435_455;
const ITEM: usize = 1000;

fn set(j: &mut J, k: &str, x: J) {
    if let J::Obj(l) = j {
        for y in l.iter_mut().filter(|y| y.0 == k) {
            y.1 = x.clone();
        }
    }
}
fn first<'a>(j: &'a mut J, k: &str) -> Option<&'a mut J> {
    match j {
        J::Obj(l) => match l.iter_mut().find(|y| y.0 == k).map(|y| &mut y.1) {
            Some(J::Arr(l)) => l.first_mut(),
            _ => None,
        },
        _ => None,
    }
}
fn text(n: usize) -> J {
    b(&vec![b'y'; n])
}
/// the small packet: an item to repeat, and one of another length
fn small(p: &MqttPacket, place: &str, other: usize) -> Option<J> {
    let mut j = to_j(p);
    let pairs = |q: &mut J| {
        let up = arr([obj(vec![("k", b(b"k")), ("vs", arr([text(ITEM), text(other)]))])]);
        set(q, "up", up)
    };
    match place {
        "up" => pairs(first(&mut j, "props")?),
        "will" => pairs(first(first(&mut j, "will")?, "props")?),
        "subs" => {
            let mut x = first(&mut j, "subs")?.clone();
            let mut y = x.clone();
            set(&mut x, "topic", text(ITEM));
            set(&mut y, "topic", text(other));
            set(&mut j, "subs", arr([x, y]));
        }
        "topics" => set(&mut j, "topics", arr([text(ITEM), text(other)])),
        _ => {
            let x = first(&mut j, place)?.clone();
            set(&mut j, place, arr([x]));
        }
    }
    Some(j)
}
fn repeat<T: Clone>(l: &mut Vec<T>, times: usize) {
    let x = l[0].clone();
    l.splice(0..1, std::iter::repeat(x).take(times));
}
fn pairs(u: &mut UserProperties, times: usize) {
    u.values_mut().for_each(|l| repeat(l, times))
}
/// the first item repeated
fn grow(p: &mut MqttPacket, place: &str, times: usize) -> Option<()> {
    use MqttPacket::*;
    match (place, p) {
        ("will", Connect(p)) => pairs(&mut p.will.as_mut()?.properties.as_mut()?.user_properties, times),
        ("subs", Subscribe(p)) => repeat(&mut p.subscriptions, times),
        ("topics", Unsubscribe(p)) => repeat(&mut p.unsubscriptions, times),
        ("codes", Suback(p)) => repeat(&mut p.granted_reason_codes, times),
        ("granted", Suback(p)) => repeat(&mut p.granted, times),
        ("codes", Unsuback(p)) => repeat(&mut p.granted, times),
        ("up", p) => pairs(
            match p {
                Connect(p) => &mut p.properties.as_mut()?.user_properties,
                Connack(p) => &mut p.properties.as_mut()?.user_properties,
                Publish(p) => &mut p.properties.as_mut()?.user_properties,
                Puback(p) | Pubrec(p) | Pubrel(p) | Pubcomp(p) => &mut p.properties.as_mut()?.user_properties,
                Subscribe(p) => &mut p.properties.as_mut()?.user_properties,
                Suback(p) => &mut p.properties.as_mut()?.user_properties,
                Unsubscribe(p) => &mut p.properties.as_mut()?.user_properties,
                Unsuback(p) => &mut p.properties.as_mut()?.user_properties,
                Disconnect(p) => &mut p.properties.as_mut()?.user_properties,
                Auth(p) => &mut p.properties.as_mut()?.user_properties,
                Pingreq | Pingresp => return None,
            },
            times,
        ),
        _ => return None,
    }
    Some(())
}
fn size(j: &J, v: u8) -> Option<usize> {
    let p = from_j(j).ok()?;
    let x = guarded(|| p.encode(v)).ok()?.ok()?;
    Some(x.len() - if x.len() > 16385 { 4 } else if x.len() > 129 { 3 } else { 2 })
}
fn decoded(x: &[u8], v: u8) -> Option<MqttPacket> {
    guarded(|| PacketDecoder::from_stream(x).decode_packet(v)).ok()?.ok()
}
/// a packet whose remaining length is about n (exactly, if no length in front changes otherwise)
fn event(r: &mut Rng, t: &'static str, v: u8, place: &str, n_: usize, back: bool) -> Option<J> {
    let (j, times) = (0..100).find_map(|_| {
        let p = packets::packet(r, t, v, Focus::User);
        if matches!(&p, MqttPacket::Connect(c) if c.protocol_version != v) {
            return None;
        }
        let one = small(&p, place, 1)?;
        let c = size(&one, v)?;
        let codes = place == "codes" || place == "granted";
        let per = match place {
            "up" | "will" => 6 + ITEM,
            "subs" => 3 + ITEM,
            "topics" => 2 + ITEM,
            _ => 1,
        };
        // the length of the section grows from two bytes to four
        let c = c + if place == "up" || place == "will" { 2 } else { 0 };
        let left = n_ - c;
        if codes {
            return Some((one, left + 1));
        }
        Some((small(&p, place, 1 + left % per)?, 1 + left / per))
    })?;
    let head = |k: &str, first: &[u8], total: usize, rt: bool| {
        obj(vec![
            ("e", s("vast")),
            ("v", i(v)),
            ("p", j.clone()),
            ("place", s(place)),
            ("times", n(times)),
            ("k", s(k)),
            ("head", b(first)),
            ("total", n(total)),
            ("rt", J::Bool(rt)),
        ])
    };
    about_to(|| head("", &[], 0, false));
    let mut p = from_j(&j).ok()?;
    grow(&mut p, place, times)?;
    let out = guarded(|| p.encode(v));
    BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    Some(match out {
        Ok(Ok(x)) => {
            // what a version leaves out is told by the small packet
            let rt = !back || {
                let small = from_j(&j).ok()?;
                let mut a = guarded(|| small.encode(v)).ok()?.ok().and_then(|x| decoded(&x, v))?;
                grow(&mut a, place, times)?;
                decoded(&x, v).is_some_and(|y| y == a)
            };
            BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            head("ok", &x[..x.len().min(16)], x.len(), rt)
        }
        Ok(Err(_)) => head("err", &[], 0, false),
        Err(_) => head("panic", &[], 0, false),
    })
}

pub fn vast(r: &mut Rng, back: bool) -> Vec<J> {
    let mut todo: Vec<(&'static str, u8, &'static str)> = vec![
        ("suback", 4, "granted"),
        ("suback", 5, "codes"),
        ("unsuback", 5, "codes"),
        ("subscribe", 5, "subs"),
        ("subscribe", 3, "subs"),
        ("unsubscribe", 5, "topics"),
        ("unsubscribe", 4, "topics"),
        ("connect", 5, "will"),
    ];
    for t in packets::TYPES {
        if !t.starts_with("ping") {
            todo.push((t, 5, "up"));
        }
    }
    let mut jobs = vec![];
    for (t, v, place) in todo {
        for size in [MAX, MAX + 1, MAX - 64, MAX + 5000] {
            jobs.push((t, v, place, size, r.next()));
        }
    }
    let at = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..4 {
            sc.spawn(|| loop {
                let k = at.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let Some((t, v, place, size, seed)) = jobs.get(k) else { break };
                let e = event(&mut Rng::new(*seed), t, *v, place, *size, back);
                out.lock().unwrap().extend(e.map(|e| (k, e)));
            });
        }
    });
    let mut l = out.into_inner().unwrap();
    l.sort_by_key(|x| x.0);
    l.into_iter().map(|x| x.1).collect()
}
