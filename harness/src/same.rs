//! Comparing and copying: two packets, what == and != say, and a copy of the first one.
use crate::codec::shape;
use crate::exec::*;
use crate::json::*;
use crate::model::*;
use crate::packets::{self, Focus, TYPES};
use crate::pool::*;
use crate::rng::Rng;
use mqtt_packet_3_5::*;

fn b3<T: PartialEq + Clone>(p: &T, q: &T, j: impl Fn(&T) -> J) -> (J, [bool; 4]) {
    let r = guarded(|| {
        let c = p.clone();
        ([p == q, q == p, p != q, c == *p && *p == c], c)
    });
    match r {
        Ok((x, c)) => {
            let y = obj(vec![
                ("k", s("ok")),
                ("pq", J::Bool(x[0])),
                ("qp", J::Bool(x[1])),
                ("ne", J::Bool(x[2])),
                ("copy", j(&c)),
                ("alike", J::Bool(x[3])),
            ]);
            (y, x)
        }
        _ => (obj(vec![("k", s("panic"))]), [false; 4]),
    }
}
fn event<T: PartialEq + Clone>(p: &T, q: &T, j: impl Fn(&T) -> J) -> (J, [bool; 4]) {
    about_to(|| obj(vec![("e", s("same")), ("p", j(p)), ("q", j(q))]));
    let (r, x) = b3(p, q, &j);
    (obj(vec![("e", s("same")), ("p", j(p)), ("q", j(q)), ("r", r)]), x)
}
pub fn same_event(p: &MqttPacket, q: &MqttPacket) -> (J, [bool; 4]) {
    event(p, q, to_j)
}
/// the packet structures themselves
fn inner_event(p: &MqttPacket, q: &MqttPacket) -> Option<J> {
    macro_rules! each {
        ($($v:ident)*) => {
            match (p, q) {
                $((MqttPacket::$v(x), MqttPacket::$v(y)) => Some(event(x, y, |z| to_j(&MqttPacket::$v(z.clone()))).0),)*
                _ => None,
            }
        };
    }
    each!(Connect Connack Subscribe Suback Publish Puback Pubrec Pubrel Pubcomp Unsubscribe Unsuback Disconnect Auth)
}

fn leaves(j: &J) -> usize {
    match j {
        J::Arr(l) => 1 + l.iter().map(leaves).sum::<usize>(),
        J::Obj(l) => l.iter().map(|x| leaves(&x.1)).sum(),
        _ => 1,
    }
}
/// the n-th part changed
fn change(j: &mut J, n: &mut usize, r: &mut Rng) -> bool {
    match j {
        J::Obj(l) => l.iter_mut().any(|x| change(&mut x.1, n, r)),
        J::Arr(l) => {
            if *n == 0 {
                match r.below(5) {
                    0 if !l.is_empty() => {
                        l.remove(r.below(l.len()));
                    }
                    1 if !l.is_empty() => {
                        let x = l[r.below(l.len())].clone();
                        l.insert(r.below(l.len() + 1), x)
                    }
                    2 if l.len() > 1 => {
                        let (a, c) = (r.below(l.len()), r.below(l.len()));
                        l.swap(a, c)
                    }
                    3 => l.push(i(r.u8())),
                    _ => l.clear(),
                }
                return true;
            }
            *n -= 1;
            l.iter_mut().any(|x| change(x, n, r))
        }
        x => {
            if *n > 0 {
                *n -= 1;
                return false;
            }
            *x = match &*x {
                J::Bytes(y) => {
                    let mut y = y.clone();
                    match r.below(4) {
                        0 => y.push(b'a'),
                        1 => y.insert(0, 0),
                        2 if !y.is_empty() => {
                            y.pop();
                        }
                        _ if !y.is_empty() => {
                            let at = r.below(y.len());
                            y[at] ^= *r.pick(&[1, 0x20, 2]);
                        }
                        _ => {}
                    }
                    J::Bytes(y)
                }
                J::Bool(y) => J::Bool(!*y),
                J::Str(_) => s(*r.pick(&["Success", "NormalDisconnection", "GrantedQoS0", "QoS0", "QoS1", "QoS2", "Failure", "NotAuthorized", "MQTT", "MQIsdp", "puback", "pubrec"])),
                J::Int(y) => {
                    let y = *y;
                    J::Int(*r.pick(&[y + 1, (y - 1).max(0), y ^ 0x20, y ^ 0x80, 0]))
                }
                y => y.clone(),
            };
            true
        }
    }
}
/// the packet with one thing changed, if that is a packet
fn variant(p: &MqttPacket, r: &mut Rng) -> MqttPacket {
    let j = to_j(p);
    for _ in 0..8 {
        let mut c = j.clone();
        let mut n = r.below(leaves(&c));
        change(&mut c, &mut n, r);
        if let Ok(q) = from_j(&c) {
            return q;
        }
    }
    p.clone()
}

pub fn same(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut o = vec![];
    if !r.large {
        macro_rules! table {
            ($fam:expr, $from:ident, $to:ident, $all:expr) => {
                for x in $all {
                    for y in $all {
                        o.push(event(&$from(x).unwrap(), &$from(y).unwrap(), |z| arr([s($fam), s($to(z))])).0)
                    }
                }
            };
        }
        table!("puback", puback_from, puback_name, PUBACK_ALL);
        table!("pubcomp", pubcomp_from, pubcomp_name, PUBCOMP_ALL);
        table!("suback", suback_from, suback_name, SUBACK_ALL);
        table!("unsuback", unsuback_from, unsuback_name, UNSUBACK_ALL);
        table!("disconnect", disconnect_from, disconnect_name, DISCONNECT_ALL);
        table!("auth", auth_from, auth_name, AUTH_ALL);
        table!("granted", granted_from, granted_name, GRANTED_ALL);
        table!("qos", qos_from, qos_name, QOS_ALL);
        table!("ptype", ptype_from, ptype_name, PTYPE_ALL);
        let heads: Vec<FixedHeader> = (0..=255u8).filter_map(|x| FixedHeader::from_byte(x).ok()).collect();
        for x in &heads {
            for y in &heads {
                let j = |h: &FixedHeader| arr([s(ptype_name(&h.cmd)), J::Bool(h.dup), i(h.qos), J::Bool(h.retain)]);
                o.push(event(x, y, j).0)
            }
        }
    }
    let mut q = Pool::new(limit);
    for _ in 0..pool {
        let (t, v) = (*r.pick(&TYPES), *r.pick(&[3, 4, 5, 5, 5]));
        let focus = *r.pick(&[Focus::Wild, Focus::Props, Focus::User, Focus::Any, Focus::Any]);
        let p = packets::packet(r, t, v, focus);
        let x = match r.below(8) {
            // put together anew, or as a decoder gives it
            0 => {
                let (a, on) = (&p, r.chance(50));
                let back = if on { guarded(|| {
                        let b = from_j(&to_j(a)).ok()?.encode(v).ok()?;
                        PacketDecoder::from_stream(&b[..]).decode_packet(v).ok()
                    })
                    .ok()
                    .flatten() } else { None };
                match back {
                    Some(x) => x,
                    _ => from_j(&to_j(&p)).expect("packet"),
                }
            }
            1 => {
                let t = *r.pick(&TYPES);
                packets::packet(r, t, v, focus)
            }
            2 => {
                let z = variant(&p, r);
                variant(&z, r)
            }
            _ => variant(&p, r),
        };
        let (j, y) = same_event(&p, &x);
        let equal = to_j(&p) == to_j(&x);
        let sus = y != [equal, equal, !equal, true];
        let mut d = vec![shape(&to_j(&p)) % 512, equal as u64];
        crate::sweep::parts(&to_j(&p), &to_j(&x), 0, &mut d);
        q.offer(hash(&d), sus, || j);
        if let (Some(j), true) = (inner_event(&p, &x), r.chance(30)) {
            d.push(1);
            q.offer(hash(&d), sus, || j);
        }
    }
    o.extend(q.take());
    o
}
pub fn same_given(list: &[J]) -> Vec<J> {
    let mut o = vec![];
    for g in list {
        let p = g.get("p").and_then(from_j).expect("packet");
        let q = g.get("q").and_then(from_j).expect("packet");
        o.push(same_event(&p, &q).0);
        o.extend(inner_event(&p, &q));
    }
    o
}
