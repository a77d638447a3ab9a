//! The two levels of the interface: MqttPacket::encode and PacketDecoder::decode_packet on
//! one side, the packet types' own encode and decode with the byte reader on the other.
use crate::codec::{random_wire, shape};
use crate::exec::*;
use crate::json::*;
use crate::model::{from_j, to_j};
use crate::packets::{self, Focus, TYPES};
use crate::pool::*;
use crate::rng::Rng;
use crate::stream::{complete, tail};
use crate::sweep;
use mqtt_packet_3_5::*;
use std::rc::Rc;
use std::sync::atomic::Ordering;

/// the packet type's own encoder
fn own(p: &MqttPacket, v: u8) -> Enc {
    let r = guarded(|| match p {
        MqttPacket::Connect(x) => x.encode(v),
        MqttPacket::Connack(x) => x.encode(v),
        MqttPacket::Subscribe(x) => x.encode(v),
        MqttPacket::Suback(x) => x.encode(v),
        MqttPacket::Publish(x) => x.encode(v),
        MqttPacket::Puback(x) | MqttPacket::Pubrec(x) | MqttPacket::Pubrel(x) | MqttPacket::Pubcomp(x) => x.encode(v),
        MqttPacket::Unsubscribe(x) => x.encode(v),
        MqttPacket::Unsuback(x) => x.encode(v),
        MqttPacket::Pingreq => PingreqPacket {}.encode(v),
        MqttPacket::Pingresp => PingrespPacket {}.encode(v),
        MqttPacket::Disconnect(x) => x.encode(v),
        MqttPacket::Auth(x) => x.encode(v),
    });
    match r {
        Ok(Ok(x)) => Enc::Ok(x),
        Ok(Err(m)) => Enc::Err(Msg(m)),
        Err(_) => Enc::Panic,
    }
}
fn level_event(p: &MqttPacket, v: u8) -> (J, bool) {
    about_to(|| obj(vec![("e", s("level")), ("v", i(v)), ("p", to_j(p))]));
    let before = to_j(p);
    let low = own(p, v);
    let again = own(p, v);
    let same = to_j(p) == before;
    let top = encode(p, v);
    let sus = low != top || again != low || !same || top == Enc::Panic;
    let j = obj(vec![
        ("e", s("level")),
        ("v", i(v)),
        ("p", before),
        ("top", top.j()),
        ("low", low.j()),
        ("again", again.j()),
        ("same", J::Bool(same)),
    ]);
    (j, sus)
}
pub fn level(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    for _ in 0..pool {
        let t = *r.pick(&TYPES);
        let v = *r.pick(&[3, 4, 5, 5]);
        let focus = match r.below(5) {
            0 => Focus::Wild,
            1 => Focus::Props,
            2 => Focus::User,
            _ => Focus::Any,
        };
        let p = packets::packet(r, t, v, focus);
        let (j, sus) = level_event(&p, v);
        q.offer(hash(&[shape(&to_j(&p)), v as u64]), sus, || j);
    }
    q.take()
}
pub fn level_given(list: &[J]) -> Vec<J> {
    list.iter()
        .map(|g| {
            let v = g.get("v").and_then(|x| x.int()).expect("v") as u8;
            let p = g.get("p").and_then(from_j).expect("packet");
            level_event(&p, v).0
        })
        .collect()
}

struct Step {
    how: &'static str,
    out: Out,
    left: usize,
    pos: usize,
    more: &'static str,
}
/// a packet by hand; true: there is no going on
fn by_hand(d: &mut PacketDecoder<Src>, v: u8) -> (Out, usize, bool) {
    let h = guarded(|| d.reader.read_header());
    let (len, f) = match h {
        Ok(Ok(x)) => x,
        Ok(Err(m)) => return (Out::Err(Msg(m)), 0, false),
        Err(_) => return (Out::Panic, 0, true),
    };
    let r = &mut d.reader;
    let out = Out::of(guarded(|| {
        Ok(match f.cmd {
            PacketType::Connect => MqttPacket::Connect(ConnectPacket::decode(r, f, len, v)?),
            PacketType::Connack => MqttPacket::Connack(ConnackPacket::decode(r, f, len, v)?),
            PacketType::Subscribe => MqttPacket::Subscribe(SubscribePacket::decode(r, f, len, v)?),
            PacketType::Suback => MqttPacket::Suback(SubackPacket::decode(r, f, len, v)?),
            PacketType::Publish => MqttPacket::Publish(PublishPacket::decode(r, f, len, v)?),
            PacketType::Puback => MqttPacket::Puback(ConfirmationPacket::decode(r, f, len, v)?),
            PacketType::Pubrec => MqttPacket::Pubrec(ConfirmationPacket::decode(r, f, len, v)?),
            PacketType::Pubrel => MqttPacket::Pubrel(ConfirmationPacket::decode(r, f, len, v)?),
            PacketType::Pubcomp => MqttPacket::Pubcomp(ConfirmationPacket::decode(r, f, len, v)?),
            PacketType::Unsubscribe => MqttPacket::Unsubscribe(UnsubscribePacket::decode(r, f, len, v)?),
            PacketType::Unsuback => MqttPacket::Unsuback(UnsubackPacket::decode(r, f, len, v)?),
            PacketType::Pingreq => {
                PingreqPacket::decode(r, f, len, v)?;
                MqttPacket::Pingreq
            }
            PacketType::Pingresp => {
                PingrespPacket::decode(r, f, len, v)?;
                MqttPacket::Pingresp
            }
            PacketType::Disconnect => MqttPacket::Disconnect(DisconnectPacket::decode(r, f, len, v)?),
            PacketType::Auth => MqttPacket::Auth(AuthPacket::decode(r, f, len, v)?),
            PacketType::Reserved => return Err("reserved".into()),
        })
    }));
    let r = &mut d.reader;
    match out {
        Out::Ok(_) => match guarded(|| r.consume()) {
            Ok(Ok(x)) => {
                r.reset_limit();
                (out, x.len(), false)
            }
            Ok(Err(m)) => (Out::Err(Msg(m)), 0, true),
            Err(_) => (Out::Panic, 0, true),
        },
        o => (o, 0, true),
    }
}
fn session(data: &[u8], vs: &[u8], how: &[u8]) -> Vec<Step> {
    let src = Src::new(Rc::new(data.to_vec()), Plan::whole());
    let (delivered, reads) = (src.delivered.clone(), src.reads.clone());
    let mut d = decoder(src, Ctor::Buf(1));
    let mut o = vec![];
    for k in 0..data.len() + 2 {
        let v = vs[k % vs.len()];
        BEAT.fetch_add(1, Ordering::Relaxed);
        let hand = how[k % how.len()] == 1;
        let (out, left, over) =
            if hand { by_hand(&mut d, v) } else { (Out::of(guarded(|| d.decode_packet(v))), 0, false) };
        let (d0, r0) = (delivered.get(), reads.get());
        let more = match guarded(|| d.has_more()) {
            Ok(true) => "yes",
            Ok(false) => "no",
            Err(_) => "panic",
        };
        let pos = if reads.get() > r0 || more != "yes" { d0 } else { d0 - 1 };
        let stop = over || out == Out::Panic || more != "yes";
        o.push(Step { how: if hand { "hand" } else { "dec" }, out, left, pos, more });
        if stop {
            break;
        }
    }
    o
}
fn hand_event(pk: &[Vec<u8>], tail: &[u8], vs: &[u8], how: &[u8]) -> (J, Vec<Step>) {
    let mut data = pk.concat();
    data.extend_from_slice(tail);
    let jh = || arr(how.iter().map(|h| s(if *h == 1 { "hand" } else { "dec" })));
    let jpk = || arr(pk.iter().map(|x| b(x)));
    about_to(|| obj(vec![("e", s("hand")), ("pk", jpk()), ("b", b(tail)), ("vs", arr(vs.iter().map(|v| i(*v)))), ("how", jh())]));
    let steps = session(&data, vs, how);
    let iso = pk.iter().zip(vs.iter().cycle()).map(|(x, v)| {
        let c = run_exact(x, &[*v], 1);
        obj(vec![("b", b(x)), ("out", c[0].out.j())])
    });
    let j = obj(vec![
        ("e", s("hand")),
        ("b", b(&data)),
        ("tail", b(tail)),
        ("vs", arr(vs.iter().map(|v| i(*v)))),
        ("how", jh()),
        (
            "calls",
            arr(steps.iter().map(|c| {
                obj(vec![
                    ("how", s(c.how)),
                    ("out", c.out.j()),
                    ("left", n(c.left)),
                    ("pos", n(c.pos)),
                    ("more", s(c.more)),
                ])
            })),
        ),
        ("iso", arr(iso)),
    ]);
    (j, steps)
}
const HOWS: [&[u8]; 6] = [&[1], &[1], &[1, 0], &[0, 1], &[1, 1, 0], &[0, 0, 1]];

pub fn hand(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    for _ in 0..pool {
        let k = if r.large { r.range(1, 2) } else { r.range(1, 5) };
        let (mut pk, mut vs) = (vec![], vec![]);
        for _ in 0..k {
            // by hand a packet that is refused ends the session
            let (x, v) = if r.chance(60) {
                let (x, v, _) = random_wire(r, &TYPES, "plain");
                (x, v)
            } else {
                complete(r)
            };
            pk.push(x);
            vs.push(if r.chance(12) { *r.pick(&[3, 4, 5]) } else { v });
        }
        vs.push(*r.pick(&[3, 4, 5]));
        let t = if r.chance(25) { tail(r) } else { vec![] };
        let how = *r.pick(&HOWS);
        let (j, steps) = hand_event(&pk, &t, &vs, how);
        let mut sus = false;
        for (n, c) in steps.iter().enumerate() {
            if n < pk.len() {
                let alone = decode_one(&pk[n], vs[n]);
                let got = if c.left > 0 { Out::Err(Msg(String::new())) } else { c.out.clone() };
                sus |= alone != got;
            }
            sus |= c.out == Out::Panic;
        }
        let sig: Vec<u64> = steps
            .iter()
            .take(6)
            .map(|c| match &c.out {
                Out::Ok(p) => shape(&to_j(p)) ^ (c.how.len() as u64),
                Out::Err(m) => m.sig() ^ (c.how.len() as u64),
                Out::Panic => 7,
            })
            .collect();
        q.offer(hash(&sig), sus, || j);
    }
    q.take()
}
pub fn hand_given(list: &[J]) -> Vec<J> {
    let mut o = vec![];
    for (k, g) in list.iter().enumerate() {
        let vs = g.get("vs").and_then(|x| x.bytes()).expect("vs");
        let pk: Vec<Vec<u8>> = match g.get("pk") {
            Ok(x) => x.list().unwrap().iter().map(|y| y.bytes().unwrap()).collect(),
            Err(_) => vec![],
        };
        let t = g.get("b").and_then(|x| x.bytes()).unwrap_or_default();
        let how: Vec<u8> = match g.get("how") {
            Ok(x) => x.list().unwrap().iter().map(|h| (h.str() == Ok("hand")) as u8).collect(),
            Err(_) => HOWS[k % HOWS.len()].to_vec(),
        };
        o.push(hand_event(&pk, &t, &vs, &how).0)
    }
    o
}

/// every packet of a set after every other, by every way of taking turns
pub fn hand_words(seed: u64, deep: bool) -> Vec<J> {
    let set = sweep::word_packets(seed);
    let mut o = vec![];
    let keep = if deep { 8 } else { 90 };
    for (a, x) in set.iter().enumerate() {
        for (c, y) in set.iter().enumerate() {
            for (h, how) in [[1u8, 1], [1, 0], [0, 1]].iter().enumerate() {
                let pk = vec![x.0.clone(), y.0.clone()];
                let vs = [x.1, y.1];
                let steps = session(&pk.concat(), &vs, how);
                sweep::SCREENED.fetch_add(1, Ordering::SeqCst);
                let mut odd = false;
                for (k, st) in steps.iter().enumerate().take(2) {
                    let alone = decode_one(&pk[k], vs[k]);
                    let got = if st.left > 0 { Out::Err(Msg(String::new())) } else { st.out.clone() };
                    odd |= alone != got;
                }
                if odd || (a * 7 + c * 3 + h + seed as usize) % keep == 0 {
                    o.push(hand_event(&pk, &[], &vs, how).0)
                }
            }
        }
    }
    o
}

/// what the two levels do differently with a packet; all 0: nothing
pub fn differs(p: &MqttPacket, v: u8, bytes: &[u8], rv: u8) -> Vec<u64> {
    let (low, again, top) = (own(p, v), own(p, v), encode(p, v));
    // only the order of user properties is open
    let equal = |x: &Enc, y: &Enc| match (x, y) {
        (Enc::Ok(a), Enc::Ok(c)) => a == c || a.len() == c.len() && decode_one(a, rv) == decode_one(c, rv),
        _ => x == y,
    };
    let mut o = vec![!equal(&low, &top) as u64, !equal(&low, &again) as u64];
    if !bytes.is_empty() {
        let data = [bytes, &[0xc0, 0]].concat();
        let steps = session(&data, &[rv, 4], &[1]);
        let alone = decode_one(bytes, rv);
        let fine = match (steps.first(), &alone) {
            (Some(a), Out::Ok(_)) => {
                a.out == alone && a.left == 0 && a.pos == bytes.len() && steps.get(1).map_or(false, |z| z.out == Out::Ok(MqttPacket::Pingreq))
            }
            (Some(a), _) => a.out == alone || a.left > 0,
            _ => false,
        };
        o.push(!fine as u64)
    }
    o
}
pub fn both(p: &MqttPacket, v: u8, bytes: &[u8], rv: u8) -> Vec<J> {
    let mut o = vec![level_event(p, v).0];
    if !bytes.is_empty() {
        o.push(hand_event(&[bytes.to_vec(), vec![0xc0, 0]], &[], &[rv, 4], &[1]).0)
    }
    o
}
