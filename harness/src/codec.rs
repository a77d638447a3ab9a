//! Suites about single packets: encode, decode, relay, boundary sizes.
use crate::exec::*;
use crate::json::*;
use crate::model::*;
use crate::packets::{self, Focus, TYPES};
use crate::pool::*;
use crate::rng::Rng;
use crate::wire::{self, Opt};
use mqtt_packet_3_5::*;

/// shape of a value: what is present, lengths and magnitudes by class
pub fn shape(j: &J) -> u64 {
    match j {
        J::Bool(x) => 10 + *x as u64,
        J::Int(x) => match x {
            0..=3 => 20 + *x as u64,
            _ => 30 + (64 - x.leading_zeros() as u64) / 4,
        },
        J::Str(x) => hash_bytes(x.as_bytes()),
        J::Bytes(x) => 100 + size_class(x.len()) + if x.is_ascii() { 0 } else { 50 },
        J::Arr(x) => {
            let mut h = vec![200 + size_class(x.len())];
            h.extend(x.iter().take(3).map(shape));
            hash(&h)
        }
        J::Obj(x) => hash(&x.iter().map(|(k, v)| hash(&[hash_bytes(k.as_bytes()), shape(v)])).collect::<Vec<_>>()),
    }
}

pub fn enc_event(p: &MqttPacket, v: u8) -> (J, Enc, bool) {
    about_to(|| obj(vec![("e", s("enc")), ("v", i(v)), ("p", to_j(p))]));
    let out = encode(p, v);
    let (mut rt, mut used, mut same) = (obj(vec![("k", s("none"))]), 0, false);
    if let Enc::Ok(x) = &out {
        let dv = match p {
            MqttPacket::Connect(c) if (3..=5).contains(&c.protocol_version) => c.protocol_version,
            _ => v,
        };
        let c = run_exact(x, &[dv], 1);
        rt = c[0].out.j();
        used = c[0].pos;
        same = c[0].out == Out::Ok(p.clone()) && used == x.len();
    }
    (
        obj(vec![
            ("e", s("enc")),
            ("v", i(v)),
            ("p", to_j(p)),
            ("out", out.j()),
            ("rt", rt),
            ("used", n(used)),
        ]),
        out,
        same,
    )
}

fn ver_of(r: &mut Rng) -> u8 {
    *r.pick(&[5, 5, 5, 4, 3])
}

fn enc_sig(p: &MqttPacket, v: u8, out: &Enc) -> u64 {
    match out {
        Enc::Err(m) => hash(&[1, v as u64, m.sig(), shape(&to_j(p))]),
        _ => hash(&[2, v as u64, shape(&to_j(p))]),
    }
}

/// random packets; the focus decides which part of the packet space is sampled
pub fn enc(r: &mut Rng, limit: usize, pool: usize, focus: &str, types: &[&str]) -> Vec<J> {
    // refused packets get a fixed share
    let share = limit * if focus == "wild" { 45 } else { 15 } / 100;
    let mut refused = Pool::new(share);
    let mut q = Pool::new(limit - share);
    for _ in 0..pool {
        let t = *r.pick(types);
        let v = ver_of(r);
        let fo = match focus {
            "user" => Focus::User,
            "props" => Focus::Props,
            "wild" => Focus::Wild,
            "plain" => Focus::Any,
            _ => *r.pick(&[Focus::Any, Focus::Any, Focus::Props, Focus::User, Focus::Wild]),
        };
        let p = packets::packet(r, t, v, fo);
        // CONNECT names its own version
        let pass = if t == "connect" && r.chance(30) { *r.pick(&[0, 3, 4, 5, 6, 132, 255]) } else { v };
        let (ev, out, same) = enc_event(&p, pass);
        let sus = matches!(out, Enc::Panic) || (matches!(out, Enc::Ok(_)) && !same);
        let to = if matches!(out, Enc::Err(_)) { &mut refused } else { &mut q };
        to.offer(enc_sig(&p, pass, &out), sus, || ev);
    }
    let mut all = q.take();
    all.extend(refused.take());
    all
}

pub fn enc_given(list: &[J]) -> Vec<J> {
    let mut o = vec![];
    for g in list {
        let v = g.get("v").and_then(|x| x.int()).expect("v") as u8;
        match from_j(g.get("p").expect("p")) {
            Ok(p) => o.push(enc_event(&p, v).0),
            Err(e) => {
                eprintln!("cannot build generated packet: {}", e);
                std::process::exit(2)
            }
        }
    }
    o
}

pub fn dec_event(x: &[u8], v: u8) -> (J, Out) {
    about_to(|| obj(vec![("e", s("dec")), ("v", i(v)), ("b", b(x))]));
    let c = run_exact(x, &[v], 1);
    (
        obj(vec![
            ("e", s("dec")),
            ("v", i(v)),
            ("b", b(x)),
            ("out", c[0].out.j()),
            ("used", n(c[0].pos)),
            ("more", s(c[0].more)),
        ]),
        c.into_iter().next().unwrap().out,
    )
}

fn dec_sig(x: &[u8], v: u8, out: &Out, extra: u64) -> u64 {
    match out {
        Out::Ok(p) => hash(&[1, v as u64, shape(&to_j(p)), extra]),
        Out::Err(m) => hash(&[2, v as u64, (x[0] >> 4) as u64, m.sig(), extra]),
        Out::Panic => 3,
    }
}

/// does decoding and re-encoding keep the packet?  (only used to choose cases)
fn unfaithful(out: &Out, x: &[u8], v: u8) -> bool {
    if let Out::Ok(p) = out {
        if let Enc::Ok(y) = encode(p, v) {
            return y != x && decode_one(&y, v) != *out;
        }
    }
    *out == Out::Panic
}

pub fn random_wire(r: &mut Rng, types: &[&str], kind: &str) -> (Vec<u8>, u8, &'static str) {
    let v = ver_of(r);
    let t = *r.pick(types);
    let o = Opt { odd: kind == "odd" || (kind == "mix" && r.chance(30)), user: kind == "user", short: kind == "short" };
    let w = wire::packet(r, t, v, o);
    if kind == "mutant" || (kind == "mix" && r.chance(50)) {
        let mut m = wire::mutate(r, &w);
        if r.chance(15) {
            m = wire::mutate(r, &m)
        }
        return (m.bytes, v, m.note);
    }
    // now and then at another version than it was written for
    (w.bytes, if r.chance(6) { *r.pick(&[3, 4, 5]) } else { v }, w.note)
}

pub fn dec(r: &mut Rng, limit: usize, pool: usize, kind: &str, types: &[&str]) -> Vec<J> {
    let mut q = Pool::new(limit);
    for _ in 0..pool {
        let (x, v, note) = random_wire(r, types, kind);
        let (ev, out) = dec_event(&x, v);
        let sus = unfaithful(&out, &x, v);
        q.offer(dec_sig(&x, v, &out, hash_bytes(note.as_bytes())), sus, || ev);
    }
    q.take()
}

/// every value of every structural byte; which: notes to keep ("" for all)
pub fn dec_enum(limit: usize, which: &[&str], seed: u64) -> Vec<J> {
    let all = wire::enumerate();
    let mut cases = vec![];
    for (x, note) in all {
        if !which.is_empty() && !which.contains(&note) {
            continue;
        }
        for v in [5u8, 4, 3] {
            if note == "property pair" && v != 5 {
                continue;
            }
            // CONNECT does not depend on the version passed
            if x[0] == 0x10 && v != 5 && x.len() % 7 != (seed % 7) as usize {
                continue;
            }
            cases.push((x.clone(), v, note));
        }
    }
    let mut q = Pool::new(limit);
    for (x, v, note) in cases {
        let (ev, out) = dec_event(&x, v);
        let sus = unfaithful(&out, &x, v);
        // at most a few per kind of rejection, all accepted ones
        let extra = if matches!(out, Out::Ok(_)) || note == "protocol name" { hash_bytes(&x) } else { hash(&[hash_bytes(note.as_bytes()), (x[x.len() - 1] / 8) as u64]) };
        q.offer(dec_sig(&x, v, &out, extra), sus, || ev);
    }
    q.take()
}

pub fn dec_given(list: &[J]) -> Vec<J> {
    list.iter()
        .map(|g| {
            let v = g.get("v").and_then(|x| x.int()).expect("v") as u8;
            let x = g.get("b").and_then(|x| x.bytes()).expect("b");
            dec_event(&x, v).0
        })
        .collect()
}

/// decode, encode, decode ... a few times
pub fn relay_event(x: &[u8], v: u8, rounds: usize) -> Option<J> {
    about_to(|| obj(vec![("e", s("relay")), ("v", i(v)), ("b", b(x))]));
    let mut chain = vec![];
    let mut cur = x.to_vec();
    for k in 0..rounds {
        let out = decode_one(&cur, v);
        chain.push(out.j());
        match out {
            Out::Ok(p) => match encode(&p, v) {
                Enc::Ok(y) => {
                    if k + 1 < rounds {
                        chain.push(obj(vec![("k", s("bytes")), ("b", b(&y))]));
                    }
                    cur = y
                }
                e => {
                    chain.push(e.j());
                    break;
                }
            },
            _ => break,
        }
    }
    if chain[0].get("k").unwrap().str() == Ok("err") {
        return None;
    }
    Some(obj(vec![("e", s("relay")), ("v", i(v)), ("b", b(x)), ("chain", J::Arr(chain))]))
}

pub fn relay(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    let kinds = ["odd", "mutant", "mix", "user", "short", "plain"];
    for _ in 0..pool {
        let kind = *r.pick(&kinds);
        let (x, v, _) = random_wire(r, &TYPES, kind);
        let v = if x[0] >> 4 == 1 && r.chance(20) { *r.pick(&[3, 4, 5]) } else { v };
        if let Some(ev) = relay_event(&x, v, 4) {
            let out = decode_one(&x, v);
            let sus = unfaithful(&out, &x, v);
            q.offer(dec_sig(&x, v, &out, 0), sus, || ev);
        }
    }
    q.take()
}
pub fn relay_enum(limit: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    for (x, _) in wire::enumerate() {
        for v in [5u8, 4, 3] {
            if let Some(ev) = relay_event(&x, v, 3) {
                let out = decode_one(&x, v);
                let sus = unfaithful(&out, &x, v);
                q.offer(dec_sig(&x, v, &out, 0), sus, || ev);
            }
        }
    }
    q.take()
}
pub fn relay_given(list: &[J]) -> Vec<J> {
    list.iter()
        .filter_map(|g| {
            let v = g.get("v").and_then(|x| x.int()).expect("v") as u8;
            let x = g.get("b").and_then(|x| x.bytes()).expect("b");
            relay_event(&x, v, 4)
        })
        .collect()
}

// ---------------------------------------------------------------------------
// sizes

/// PUBLISH payloads around every size class of the remaining length.  Only the sizes, the
/// first bytes and whether the decoded packet is equal are recorded.
pub fn big(sizes: &[u64]) -> Vec<J> {
    let mut o = vec![];
    for &size in sizes {
        for (v, props) in [(4u8, false), (5, false), (5, true)] {
            if size > 1 << 24 && props {
                continue;
            }
            let head = obj(vec![("e", s("big")), ("v", i(v)), ("n", n(size as usize)), ("props", J::Bool(props))]);
            about_to(|| head.clone());
            let huge = size >= 1 << 31;
            let mut payload = vec![0u8; size as usize];
            if !huge {
                for (k, x) in payload.iter_mut().enumerate() {
                    *x = (k % 251) as u8
                }
            }
            let p = PublishPacket {
                dup: false,
                qos: 1,
                retain: false,
                topic: "t".into(),
                message_id: Some(258),
                payload,
                properties: if props {
                    Some(PublishProperties {
                        content_type: Some("c".into()),
                        payload_format_indicator: false,
                        message_expiry_interval: None,
                        topic_alias: None,
                        response_topic: None,
                        correlation_data: vec![],
                        user_properties: UserProperties::new(),
                        subscription_identifiers: vec![],
                    })
                } else {
                    None
                },
            };
            let out = guarded(|| p.encode(v));
            let (k, headb, total, rt) = match out {
                Ok(Ok(x)) => {
                    BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let head = x[..x.len().min(16)].to_vec();
                    let total = x.len();
                    let mut d = PacketDecoder::from_stream(std::io::Cursor::new(x));
                    let rt = match guarded(|| d.decode_packet(v)) {
                        Ok(Ok(MqttPacket::Publish(q))) => q == p,
                        _ => false,
                    };
                    ("ok", head, total, rt)
                }
                Ok(Err(_)) => ("err", vec![], 0, false),
                Err(_) => ("panic", vec![], 0, false),
            };
            let (h, l) = (total >> 16, total & 0xffff);
            o.push(obj(vec![
                ("e", s("big")),
                ("v", i(v)),
                // sizes beyond TLC's integers are only known to be huge
                ("n", if huge { n(i32::MAX as usize) } else { n(size as usize) }),
                ("huge", J::Bool(huge)),
                ("props", J::Bool(props)),
                ("k", s(k)),
                ("head", b(&headb)),
                ("total", arr([n(h.min(i32::MAX as usize)), n(l)])),
                ("rt", J::Bool(rt)),
            ]));
        }
    }
    o
}

/// Text and binary fields of 65535 and 65536 bytes, one field at a time.  The long value
/// (the byte x repeated n times) is kept out of the record and put back by the specification.
pub fn long_fields(r: &mut Rng, sizes: &[usize]) -> Vec<J> {
    let mut o = vec![];
    for &size in sizes {
        for t in TYPES {
            for v in [5u8, 4] {
                for (loc, set) in locations(t) {
                    if v != 5 && loc[0] != "top" && loc[0] != "opt" && loc[0] != "sub" && loc[0] != "topic" && loc[0] != "wopt" && loc[0] != "raw" {
                        continue;
                    }
                    // a packet that has the field
                    let base = loop {
                        let p = packets::packet(r, t, v, Focus::Props);
                        if matches!(encode(&p, v), Enc::Ok(_)) {
                            let mut q = p.clone();
                            if set(&mut q, "x".into()) && matches!(encode(&q, v), Enc::Ok(_)) {
                                break q;
                            }
                        }
                    };
                    o.push(long_event(&base, v, &loc, &*set, size));
                }
            }
        }
    }
    o
}

pub fn long_event(base: &MqttPacket, v: u8, loc: &[&'static str], set: &dyn Fn(&mut MqttPacket, String) -> bool, size: usize) -> J {
    let long = || String::from_utf8(vec![b'x'; size]).unwrap();
    let mut p = base.clone();
    set(&mut p, long());
    let jloc = arr(loc.iter().map(|l| s(l)));
    about_to(|| obj(vec![("e", s("long")), ("v", i(v)), ("p", to_j(base)), ("loc", jloc.clone()), ("n", n(size))]));
    let out = encode(&p, v);
    // the decoded short packet with the long value put in
    let want = match encode(base, v) {
        Enc::Ok(y) => match decode_one(&y, v) {
            Out::Ok(mut q) => {
                set(&mut q, long());
                Some(q)
            }
            _ => None,
        },
        _ => None,
    };
    let (total, rt) = match &out {
        Enc::Ok(y) => (y.len(), want.map(|q| decode_one(y, v) == Out::Ok(q)).unwrap_or(false)),
        _ => (0, false),
    };
    obj(vec![
        ("e", s("long")),
        ("v", i(v)),
        ("p", to_j(base)),
        ("loc", jloc),
        ("n", n(size)),
        ("k", s(out.k())),
        ("head", b(match &out { Enc::Ok(y) => &y[..y.len().min(8)], _ => &[] })),
        ("total", n(total)),
        ("rt", J::Bool(rt)),
    ])
}

pub type Setter = Box<dyn Fn(&mut MqttPacket, String) -> bool>;
pub fn locations(t: &str) -> Vec<(Vec<&'static str>, Setter)> {
    macro_rules! loc {
        ($o:ident, [$($l:expr),+], $v:ident, $p:ident, $x:ident => $body:expr) => {
            $o.push((vec![$($l),+], Box::new(|p: &mut MqttPacket, $x: String| -> bool {
                if let MqttPacket::$v($p) = p { $body } else { false }
            }) as Setter));
        };
    }
    macro_rules! props {
        ($o:ident, $l:expr, $f:ident, $v:ident) => {
            loc!($o, ["popt", $l], $v, p, x => match &mut p.properties { Some(q) => { q.$f = Some(x); true } None => false });
        };
    }
    macro_rules! up {
        ($o:ident, $v:ident) => {
            loc!($o, ["upk"], $v, p, x => match &mut p.properties { Some(q) => { q.user_properties.clear(); q.user_properties.insert(x, vec!["v".into()]); true } None => false });
            loc!($o, ["upv"], $v, p, x => match &mut p.properties { Some(q) => { q.user_properties.clear(); q.user_properties.insert("k".into(), vec![x]); true } None => false });
        };
    }
    let mut o: Vec<(Vec<&'static str>, Setter)> = vec![];
    match t {
        "connect" => {
            loc!(o, ["top", "cid"], Connect, p, x => { p.client_id = x; true });
            loc!(o, ["opt", "user"], Connect, p, x => { p.user_name = Some(x); true });
            loc!(o, ["opt", "pass"], Connect, p, x => { if p.user_name.is_some() { p.password = Some(x); true } else { false } });
            loc!(o, ["wopt", "topic"], Connect, p, x => match &mut p.will { Some(w) => { w.topic = Some(x); true } None => false });
            loc!(o, ["wopt", "payload"], Connect, p, x => match &mut p.will { Some(w) => { w.payload = Some(x); true } None => false });
            props!(o, "am", authentication_method, Connect);
            props!(o, "ad", authentication_data, Connect);
            up!(o, Connect);
            loc!(o, ["wpopt", "ct"], Connect, p, x => match p.will.as_mut().and_then(|w| w.properties.as_mut()) { Some(q) => { q.content_type = Some(x); true } None => false });
            loc!(o, ["wpopt", "rt"], Connect, p, x => match p.will.as_mut().and_then(|w| w.properties.as_mut()) { Some(q) => { q.response_topic = Some(x); true } None => false });
            loc!(o, ["wp", "cd"], Connect, p, x => match p.will.as_mut().and_then(|w| w.properties.as_mut()) { Some(q) => { q.correlation_data = x.into_bytes(); true } None => false });
            loc!(o, ["wupk"], Connect, p, x => match p.will.as_mut().and_then(|w| w.properties.as_mut()) { Some(q) => { q.user_properties.clear(); q.user_properties.insert(x, vec!["v".into()]); true } None => false });
            loc!(o, ["wupv"], Connect, p, x => match p.will.as_mut().and_then(|w| w.properties.as_mut()) { Some(q) => { q.user_properties.clear(); q.user_properties.insert("k".into(), vec![x]); true } None => false });
        }
        "connack" => {
            props!(o, "aci", assigned_client_identifier, Connack);
            props!(o, "rs", reason_string, Connack);
            props!(o, "ri", response_information, Connack);
            props!(o, "sr", server_reference, Connack);
            props!(o, "am", authentication_method, Connack);
            props!(o, "ad", authentication_data, Connack);
            up!(o, Connack);
        }
        "publish" => {
            loc!(o, ["top", "topic"], Publish, p, x => { p.topic = x; true });
            loc!(o, ["raw", "payload"], Publish, p, x => { p.payload = x.into_bytes(); true });
            props!(o, "rt", response_topic, Publish);
            props!(o, "ct", content_type, Publish);
            loc!(o, ["p", "cd"], Publish, p, x => match &mut p.properties { Some(q) => { q.correlation_data = x.into_bytes(); true } None => false });
            up!(o, Publish);
        }
        "puback" => {
            props!(o, "rs", reason_string, Puback);
            up!(o, Puback);
        }
        "pubrec" => {
            props!(o, "rs", reason_string, Pubrec);
            up!(o, Pubrec);
        }
        "pubrel" => {
            props!(o, "rs", reason_string, Pubrel);
            up!(o, Pubrel);
        }
        "pubcomp" => {
            props!(o, "rs", reason_string, Pubcomp);
            up!(o, Pubcomp);
        }
        "subscribe" => {
            loc!(o, ["sub", "topic"], Subscribe, p, x => { p.subscriptions[0].topic = x; true });
            up!(o, Subscribe);
        }
        "suback" => {
            props!(o, "rs", reason_string, Suback);
            up!(o, Suback);
        }
        "unsubscribe" => {
            loc!(o, ["topic", "topics"], Unsubscribe, p, x => { p.unsubscriptions[0] = x; true });
            up!(o, Unsubscribe);
        }
        "unsuback" => {
            props!(o, "rs", reason_string, Unsuback);
            up!(o, Unsuback);
        }
        "disconnect" => {
            props!(o, "rs", reason_string, Disconnect);
            props!(o, "sr", server_reference, Disconnect);
            up!(o, Disconnect);
        }
        "auth" => {
            loc!(o, ["p", "am"], Auth, p, x => match &mut p.properties { Some(q) => { q.authentication_method = x; true } None => false });
            props!(o, "ad", authentication_data, Auth);
            props!(o, "rs", reason_string, Auth);
            up!(o, Auth);
        }
        _ => {}
    }
    o
}
