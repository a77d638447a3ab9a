//! Suites about the byte reader, the primitive encodings, the code tables, the
//! acknowledgement constructors and serde.
use crate::exec::*;
use crate::json::*;
use crate::model::*;
use crate::packets::{self, Focus};
use crate::pool::*;
use crate::rng::Rng;
use crate::wire;
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::connect::ConnectFlags;
use mqtt_packet_3_5::mqtt_writer::MqttWriter;
use mqtt_packet_3_5::*;
use std::io::BufReader;
use std::rc::Rc;

fn ok(x: J) -> J {
    obj(vec![("k", s("ok")), ("x", x)])
}
fn res<T>(r: Result<Res<T>, String>, f: impl FnOnce(T) -> J) -> J {
    match r {
        Ok(Ok(x)) => ok(f(x)),
        Ok(Err(_)) => obj(vec![("k", s("err"))]),
        Err(_) => obj(vec![("k", s("panic"))]),
    }
}

// ---------------------------------------------------------------------------
// byte reader sessions

/// ops: (name, argument)
pub fn rd_event(data: &[u8], ops: &[(String, u32)], cap: usize, plan: Plan) -> J {
    about_to(|| {
        obj(vec![
            ("e", s("rd")),
            ("b", b(data)),
            ("ops", arr(ops.iter().map(|(o, a)| obj(vec![("op", s(o)), ("n", n(*a as usize))])))),
        ])
    });
    let src = Src::new(Rc::new(data.to_vec()), plan);
    let mut r = ByteReader::new(BufReader::with_capacity(cap, src));
    let mut o = vec![];
    for (op, a) in ops {
        let x = match op.as_str() {
            "take" => {
                res(guarded(|| {
                    r.take(*a);
                    Ok(())
                }), |_| J::Bool(true))
            }
            "reset" => res(guarded(|| {
                r.reset_limit();
                Ok(())
            }), |_| J::Bool(true)),
            "len" => res(guarded(|| r.read_len(*a)), |x| b(&x)),
            "u8" => res(guarded(|| r.read_u8()), i),
            "u16" => res(guarded(|| r.read_u16()), i),
            "u32" => res(guarded(|| r.read_u32()), u32h),
            "bool" => res(guarded(|| r.read_bool_byte()), J::Bool),
            "var" => res(guarded(|| r.read_variable_int()), |x| n(x as usize)),
            "str" => res(guarded(|| r.read_utf8_string()), |x| b(x.as_bytes())),
            "bin" => res(guarded(|| r.read_binary()), |x| b(&x)),
            "more" => res(guarded(|| Ok(r.has_more())), J::Bool),
            "consume" => res(guarded(|| r.consume()), |x| b(&x)),
            "header" => res(guarded(|| r.read_header()), |(len, h)| header(len, &h)),
            "props" => res(guarded(|| r.read_properties()), |x| props(x.unwrap_or_default())),
            _ => panic!("op {}", op),
        };
        let k = x.get("k").unwrap().str().unwrap().to_string();
        o.push(obj(vec![("op", s(op)), ("n", n((*a).min(1 << 30) as usize)), ("r", x)]));
        if k == "panic" {
            break;
        }
    }
    obj(vec![("e", s("rd")), ("b", b(data)), ("ops", J::Arr(o))])
}

fn header(len: u32, h: &FixedHeader) -> J {
    obj(vec![
        ("t", s(ptype_name(&h.cmd))),
        ("dup", J::Bool(h.dup)),
        ("qos", i(h.qos)),
        ("retain", J::Bool(h.retain)),
        ("len", n(len as usize)),
    ])
}

/// properties as read without knowing the packet: [id, value] in order, user properties apart
fn props(list: Vec<(u8, PropType)>) -> J {
    let mut o = vec![];
    let mut ups = UserProperties::new();
    for (id, x) in list {
        let x = match x {
            PropType::U32(x) | PropType::VarInt(x) => u32h(x),
            PropType::U16(x) => i(x),
            PropType::U8(x) => i(x),
            PropType::Bool(x) => J::Bool(x),
            PropType::Str(x) => b(x.as_bytes()),
            PropType::String(x) => b(x.as_bytes()),
            PropType::Binary(x) => b(&x),
            PropType::BinaryRef(x) => b(x),
            PropType::Pair(k, v) => {
                ups.entry(k).or_default().push(v);
                continue;
            }
            PropType::Map(m) => {
                for (k, v) in m {
                    ups.entry(k).or_default().extend(v)
                }
                continue;
            }
            other => s(&format!("{:?}", other)),
        };
        o.push(arr([i(id), x]));
    }
    obj(vec![("list", J::Arr(o)), ("up", up(&ups))])
}

fn rd_data(r: &mut Rng) -> Vec<u8> {
    let mut d: Vec<u8> = vec![];
    let total = r.range(0, 60);
    while d.len() < total {
        match r.below(9) {
            // the beginning of a packet
            6 => {
                d.push(if r.chance(80) { *r.pick(&[0x10, 0x20, 0x30, 0x33, 0x3d, 0x35, 0x40, 0x62, 0x82, 0xc0, 0xe0, 0xf0]) } else { r.u8() });
                d.extend(wire::var(r.below(30) as u32));
            }
            // a property section
            7 | 8 => {
                let mut x = vec![];
                for _ in 0..r.below(4) {
                    let id = *r.pick(&[1, 2, 3, 9, 11, 17, 18, 19, 22, 23, 31, 33, 36, 38, 38, 38, 41]);
                    let odd = r.chance(5);
                    x.extend(wire::property(r, id, odd));
                }
                if x.len() < 60 {
                    let by = if r.chance(15) { r.below(5) } else { 0 };
                    d.extend(wire::var((x.len() + by) as u32));
                    d.extend(x);
                }
            }
            0 => {
                let n = r.below(6);
                let t = r.string_of(n);
                d.extend([0, t.len() as u8]);
                d.extend(t.bytes());
            }
            1 => d.extend(wire::var(r.var(false))),
            2 => {
                d.extend([0, 3, 0xff, 0xc3, 0x28]);
            }
            _ => {
                let n = r.range(1, 6);
                let base = r.below(200) as u8;
                d.extend((0..n as u8).map(|k| base + k));
            }
        }
    }
    d
}

pub fn rd(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    for _ in 0..pool {
        let data = rd_data(r);
        let nops = r.range(3, 24);
        let mut ops: Vec<(String, u32)> = vec![];
        // what is left of the limits, roughly, the innermost last
        let mut left: Vec<u32> = vec![];
        for _ in 0..nops {
            let op = match r.below(112) {
                100..=105 => "header",
                106..=111 => "props",
                0..=22 => "take",
                23..=36 => "reset",
                37..=50 => "len",
                51..=62 => "u8",
                63..=67 => "u16",
                68..=70 => "u32",
                71..=73 => "bool",
                74..=77 => "var",
                78..=81 => "str",
                82..=85 => "bin",
                86..=95 => "more",
                _ => "consume",
            };
            let near = match left.last() {
                Some(l) if *l < 100000 && r.chance(40) => Some(*r.pick(&[*l, *l, l.saturating_sub(1), l.saturating_add(1)])),
                _ => None,
            };
            let a = match op {
                "take" | "len" if near.is_some() => near.unwrap(),
                "take" => match r.below(10) {
                    0 => 0,
                    1..=6 => r.below(12) as u32,
                    7 | 8 => r.below(70) as u32,
                    _ => *r.pick(&[65535, 65536, 268435455, 2147483647, 2147483648, 4294967295]),
                },
                "len" => match r.below(8) {
                    0 => 0,
                    1 => r.below(70) as u32,
                    _ => r.below(6) as u32,
                },
                _ => 0,
            };
            match op {
                "take" => left.push(left.last().map_or(a, |l| a.min(*l))),
                "reset" => {
                    left.pop();
                }
                _ => {
                    let used = match op {
                        "len" => a,
                        "u8" | "bool" | "var" => 1,
                        "u16" => 2,
                        "u32" => 4,
                        "consume" => left.last().cloned().unwrap_or(0),
                        _ => 0,
                    };
                    if left.last().map_or(false, |l| *l >= used) {
                        for l in left.iter_mut() {
                            *l = l.saturating_sub(used)
                        }
                    }
                }
            }
            ops.push((op.to_string(), a));
        }
        // in the end unwind everything and read the rest
        if r.chance(60) {
            for _ in 0..ops.iter().filter(|o| o.0 == "take").count() {
                ops.push(("reset".into(), 0));
                ops.push(("more".into(), 0));
            }
            for _ in 0..r.range(1, 4) {
                ops.push(("u8".into(), 0));
            }
        }
        let cap = *r.pick(&[1, 2, 3, 8, 64, 8192]);
        let plan = if r.flag() { Plan::whole() } else { Plan::sizes(vec![*r.pick(&[1, 2, 3, 7]), 0, 4]) };
        let ev = rd_event(&data, &ops, cap, plan);
        let sig = hash(
            &ev.get("ops")
                .unwrap()
                .list()
                .unwrap()
                .iter()
                .map(|o| {
                    hash(&[
                        hash_bytes(o.get("op").unwrap().str().unwrap().as_bytes()),
                        hash_bytes(o.get("r").unwrap().get("k").unwrap().str().unwrap().as_bytes()),
                    ])
                })
                .collect::<Vec<_>>(),
        );
        let sus = ev.text().contains("\"panic\"");
        q.offer(sig, sus, || ev);
    }
    q.take()
}
pub fn rd_given(r: &mut Rng, list: &[J]) -> Vec<J> {
    list.iter()
        .map(|g| {
            let x = g.get("b").and_then(|x| x.bytes()).expect("b");
            let ops: Vec<(String, u32)> = g
                .get("ops")
                .unwrap()
                .list()
                .unwrap()
                .iter()
                .map(|o| (o.get("op").unwrap().str().unwrap().to_string(), o.get("n").unwrap().int().unwrap() as u32))
                .collect();
            let cap = *r.pick(&[1, 2, 3, 8192]);
            rd_event(&x, &ops, cap, Plan::whole())
        })
        .collect()
}

// ---------------------------------------------------------------------------
// primitives

pub fn prim_read(op: &str, x: &[u8]) -> J {
    about_to(|| obj(vec![("e", s("prim")), ("op", s(op)), ("b", b(x))]));
    let src = Src::new(Rc::new(x.to_vec()), Plan::whole());
    let mut r = ByteReader::new(BufReader::with_capacity(4, src));
    let out = match op {
        "u8" => res(guarded(|| r.read_u8()), i),
        "bool" => res(guarded(|| r.read_bool_byte()), J::Bool),
        "u16" => res(guarded(|| r.read_u16()), i),
        "u32" => res(guarded(|| r.read_u32()), u32h),
        "var" => res(guarded(|| r.read_variable_int()), |x| u32h(x)),
        "str" => res(guarded(|| r.read_utf8_string()), |x| b(x.as_bytes())),
        _ => res(guarded(|| r.read_binary()), |x| b(&x)),
    };
    let mut rest = vec![];
    while let Ok(c) = r.read_u8() {
        rest.push(c)
    }
    obj(vec![("e", s("prim")), ("op", s(op)), ("b", b(x)), ("r", out), ("rest", b(&rest))])
}

fn prim_write(op: &str, arg: J, f: impl FnOnce(&mut MqttWriter) -> Res<()>) -> J {
    about_to(|| obj(vec![("e", s("prim")), ("op", s(op)), ("x", arg.clone())]));
    let r = guarded(|| {
        let mut w = MqttWriter::new(4);
        f(&mut w).map(|_| w.into_vec())
    });
    // a reader of its own reads it back
    obj(vec![("e", s("prim")), ("op", s(op)), ("x", arg), ("r", res(r, |x| b(&x)))])
}

pub fn prim_write_op(op: &str, num: u64, x: &[u8]) -> J {
    match op {
        "wvar" => prim_write(op, u32h(num as u32), |w| w.write_variable_num(num as u32)),
        "wu32" => prim_write(op, u32h(num as u32), |w| {
            w.write_u32(num as u32);
            Ok(())
        }),
        "wu16" => prim_write(op, i(num as u16), |w| {
            w.write_u16(num as u16);
            Ok(())
        }),
        "wnum" => prim_write(op, i(num as u16), |w| {
            w.write_vec(MqttWriter::encode_multibyte_num(num as u16 as u32));
            Ok(())
        }),
        "wvarnum" => prim_write(op, u32h(num as u32), |w| {
            w.write_vec(MqttWriter::encode_variable_num(num as u32));
            Ok(())
        }),
        "wstr" => prim_write(op, b(x), |w| w.write_utf8_str(std::str::from_utf8(x).expect("text"))),
        _ => prim_write(op, b(x), |w| w.write_binary_ref(x)),
    }
}

/// {op, b}: read, {op, x}: write
pub fn prim_given(list: &[J]) -> Vec<J> {
    list.iter()
        .map(|g| {
            let op = g.get("op").unwrap().str().unwrap();
            if !op.starts_with('w') {
                return prim_read(op, &g.get("b").and_then(|x| x.bytes()).expect("b"));
            }
            let x = g.get("x").expect("x");
            match op {
                "wvar" | "wu32" | "wvarnum" => {
                    let h = x.list().unwrap();
                    prim_write_op(op, (h[0].int().unwrap() as u64) << 16 | h[1].int().unwrap() as u64, &[])
                }
                "wu16" | "wnum" => prim_write_op(op, x.int().unwrap() as u64, &[]),
                _ => prim_write_op(op, 0, &x.bytes().expect("x")),
            }
        })
        .collect()
}

pub fn prim(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut o = vec![];
    // variable integers around every boundary
    let mut nums: Vec<u32> = vec![];
    for c in [0u32, 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536, 2097151, 2097152, 16777215, 268435455] {
        for d in 0..4 {
            nums.push(c.saturating_sub(d));
            nums.push(c + d);
        }
    }
    nums.extend([0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 536870911, 0x1000_0000, 0xf000_0000]);
    for k in 0..28 {
        nums.push(1 << k);
        nums.push((1u32 << k) - 1);
        nums.push((0x0fff_ffffu32 >> k) ^ 0x55);
    }
    for _ in 0..limit / 8 {
        nums.push(r.var(true));
        nums.push((r.next() as u32) >> r.below(32));
    }
    nums.sort();
    nums.dedup();
    for x in &nums {
        o.push(prim_write("wvar", u32h(*x), |w| w.write_variable_num(*x)));
        o.push(prim_write("wu32", u32h(*x), |w| {
            w.write_u32(*x);
            Ok(())
        }));
    }
    for x in nums.iter().filter(|x| (1..1 << 28).contains(*x)) {
        o.push(prim_write_op("wvarnum", *x as u64, &[]));
    }
    for x in [0u16, 1, 127, 128, 255, 256, 257, 511, 32767, 32768, 65279, 65280, 65534, 65535, 0x1234] {
        o.push(prim_write_op("wnum", x as u64, &[]));
        o.push(prim_write("wu16", i(x), |w| {
            w.write_u16(x);
            Ok(())
        }));
    }
    for k in 0..limit / 20 {
        let len = if k < 40 { k } else { r.len() };
        let t = r.string_of(len);
        o.push(prim_write("wstr", b(t.as_bytes()), |w| w.write_utf8_str(&t)));
        o.push(prim_write("wstr", b(t.as_bytes()), |w| w.write_utf8_string(t.clone())));
        let x = r.bytes(len);
        o.push(prim_write("wbin", b(&x), |w| w.write_binary_ref(&x)));
        o.push(prim_write("wbin", b(&x), |w| w.write_binary(x.clone())));
    }
    // every byte sequence over the interesting digits of a variable integer
    let digits = [0u8, 1, 0x7f, 0x80, 0x81, 0xff];
    for a in digits {
        o.push(prim_read("var", &[a]));
        for c in digits {
            o.push(prim_read("var", &[a, c]));
            for d in digits {
                o.push(prim_read("var", &[a, c, d]));
                for e in [0u8, 1, 0x7f, 0x80, 0xff] {
                    o.push(prim_read("var", &[a, c, d, e]));
                    if e >= 0x80 {
                        for f in [0u8, 1, 0x7f, 0x80] {
                            o.push(prim_read("var", &[a, c, d, e, f, 9]));
                        }
                    }
                }
            }
        }
    }
    for x in 0..=255u8 {
        for op in ["u8", "bool", "var"] {
            o.push(prim_read(op, &[x, 7]));
        }
        o.push(prim_read("u16", &[x, 255 - x, 7]));
        o.push(prim_read("u32", &[x, 255 - x, x ^ 0x5a, 255 - (x ^ 0x5a), 7]));
    }
    // text: every lead byte with boundary continuations
    for a in 0x7f..=0xffu8 {
        o.push(prim_read("str", &[0, 1, a]));
        for c in [0x28u8, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0] {
            o.push(prim_read("str", &[0, 2, a, c]));
            if a >= 0xe0 {
                for d in [0x7fu8, 0x80, 0xbf, 0xc0] {
                    o.push(prim_read("str", &[0, 3, a, c, d]));
                    if a >= 0xf0 {
                        for e in [0x7fu8, 0x80, 0xbf] {
                            o.push(prim_read("str", &[0, 4, a, c, d, e]));
                        }
                    }
                }
            }
        }
    }
    let mut q = Pool::new(limit / 2);
    for k in 0..pool {
        let len = r.len();
        let (op, mut x): (&str, Vec<u8>) = match r.below(5) {
            0 => ("str", r.string_of(len).into_bytes()),
            1 => ("str", r.bytes(len.min(12))),
            2 => ("bin", r.bytes(len)),
            3 => ("u32", r.bytes(len.min(7))),
            _ => ("u16", r.bytes(len.min(4))),
        };
        if op == "str" || op == "bin" {
            let mut l = x.len() as u16;
            if r.chance(25) {
                l = l.wrapping_add(*r.pick(&[1u16, 2, 255, 256, 65535, 65280]))
            }
            let mut y = l.to_be_bytes().to_vec();
            y.extend(x);
            x = y;
            if r.chance(30) {
                let n = r.below(3);
                x.extend(r.bytes(n))
            }
            if r.chance(10) {
                let n = r.below(x.len() + 1);
                x.truncate(n)
            }
        }
        let ev = prim_read(op, &x);
        let sig = if k % 2 == 0 { hash_bytes(&x) } else { crate::codec::shape(&ev) };
        q.offer(sig, false, || ev);
    }
    o.extend(q.take());
    // long fields
    for len in [255usize, 256, 257, 65534, 65535] {
        let x = vec![b'x'; len];
        for op in ["str", "bin"] {
            let mut y = (len as u16).to_be_bytes().to_vec();
            y.extend(&x);
            y.push(7);
            if len < 1000 {
                o.push(prim_read(op, &y));
            }
        }
    }
    o
}

// ---------------------------------------------------------------------------
// byte writer sessions

fn halves(x: &J) -> u64 {
    let h = x.list().expect("halves");
    (h[0].int().unwrap() as u64) << 16 | h[1].int().unwrap() as u64
}

fn kv(x: &J) -> UserProperties {
    x.list()
        .expect("up")
        .iter()
        .map(|u| {
            let t = |y: &J| String::from_utf8(y.bytes().expect("text")).expect("text");
            (t(u.get("k").unwrap()), u.get("vs").unwrap().list().unwrap().iter().map(t).collect())
        })
        .collect()
}

/// ops: {op, x}; `own` picks among operations that are the same but for ownership
pub fn wr_event(ops: &[J], own: u64) -> J {
    about_to(|| obj(vec![("e", s("wr")), ("ops", J::Arr(ops.to_vec()))]));
    let mut w = Some(MqttWriter::new((own % 50) as usize));
    let mut o = vec![];
    for (at, g) in ops.iter().enumerate() {
        let own = (own >> (at % 16)) % 2 == 0;
        let op = g.get("op").unwrap().str().unwrap();
        let x = g.get("x").unwrap();
        let r = guarded(|| {
            let w = w.as_mut().unwrap();
            match op {
                "u8" => Ok(w.write_u8(x.int().unwrap() as u8)),
                "u16" => Ok(w.write_u16(x.int().unwrap() as u16)),
                "u32" => Ok(w.write_u32(halves(x) as u32)),
                "var" => w.write_variable_num(halves(x) as u32),
                "len" => w.write_length(halves(x) as usize),
                "str" => {
                    let t = String::from_utf8(x.bytes().unwrap()).expect("text");
                    if own { w.write_utf8_string(t) } else { w.write_utf8_str(&t) }
                }
                "bin" => {
                    let y = x.bytes().unwrap();
                    if own { w.write_binary(y) } else { w.write_binary_ref(&y) }
                }
                "sized" => {
                    let y = x.bytes().unwrap();
                    let size = if y.is_empty() { vec![0] } else { MqttWriter::encode_variable_num(y.len() as u32) };
                    w.write_sized(&y, &size)
                }
                "raw" => {
                    let y = x.bytes().unwrap();
                    Ok(if own { w.write_vec(y) } else { w.write_slice(&y) })
                }
                "header" => Ok(w.write_header(FixedHeader {
                    cmd: ptype_from(x.get("t").unwrap().str().unwrap()).expect("type"),
                    dup: x.get("dup").unwrap() == &J::Bool(true),
                    qos: x.get("qos").unwrap().int().unwrap() as u8,
                    retain: x.get("retain").unwrap() == &J::Bool(true),
                })),
                "props" => {
                    let ups = kv(x.get("up").unwrap());
                    let mut held: Vec<(u8, Vec<u8>)> = vec![];
                    for p in x.get("list").unwrap().list().unwrap() {
                        let p = p.list().unwrap();
                        held.push((p[0].int().unwrap() as u8, p[1].bytes().unwrap_or_default()));
                    }
                    let mut l = vec![];
                    for (k, p) in x.get("list").unwrap().list().unwrap().iter().enumerate() {
                        let id = held[k].0;
                        let y = &p.list().unwrap()[1];
                        let text = || String::from_utf8(held[k].1.clone()).expect("text");
                        l.push((id, match id {
                            2 | 17 | 24 | 39 => PropType::U32(halves(y) as u32),
                            1 | 23 | 25 | 37 | 40 | 41 | 42 => PropType::Bool(y == &J::Bool(true)),
                            19 | 33 | 34 | 35 => PropType::U16(y.int().unwrap() as u16),
                            36 => PropType::U8(y.int().unwrap() as u8),
                            11 => PropType::VarInt(halves(y) as u32),
                            9 | 22 if own => PropType::Binary(held[k].1.clone()),
                            9 | 22 => PropType::BinaryRef(&held[k].1),
                            _ if own => PropType::String(text()),
                            _ => PropType::Str(std::str::from_utf8(&held[k].1).expect("text")),
                        }));
                    }
                    if !ups.is_empty() {
                        l.push((38, if own { PropType::Map(ups.clone()) } else { PropType::MapRef(&ups) }));
                    }
                    w.write_properties(l)
                }
                _ => panic!("op {}", op),
            }
        });
        let k = match r {
            Ok(Ok(_)) => "ok",
            Ok(Err(_)) => "err",
            Err(_) => "panic",
        };
        o.push(obj(vec![("op", s(op)), ("x", x.clone()), ("k", s(k))]));
        if k != "ok" {
            break;
        }
    }
    obj(vec![("e", s("wr")), ("ops", J::Arr(o)), ("out", b(&w.take().unwrap().into_vec()))])
}

pub fn wr_given(r: &mut Rng, list: &[J]) -> Vec<J> {
    list.iter().map(|g| wr_event(g.get("ops").unwrap().list().unwrap(), r.next())).collect()
}

pub fn wr(r: &mut Rng, limit: usize, pool: usize) -> Vec<J> {
    let mut q = Pool::new(limit);
    for _ in 0..pool {
        let mut ops = vec![];
        for _ in 0..r.range(1, 9) {
            let (op, x) = match r.below(14) {
                13 => {
                    let len = r.len();
                    ("sized", b(&r.bytes(len)))
                }
                0 | 1 => ("u8", i(r.u8())),
                2 => ("u16", i(r.u16())),
                3 => ("u32", u32h(r.next() as u32 >> r.below(32))),
                4 | 5 => ("var", u32h(r.var(true))),
                6 => ("len", u32h(r.var(true))),
                7 | 8 => {
                    let len = r.len();
                    ("str", b(r.string_of(len).as_bytes()))
                }
                9 => {
                    let len = r.len();
                    ("bin", b(&r.bytes(len)))
                }
                10 => {
                    let len = r.len();
                    ("raw", b(&r.bytes(len)))
                }
                11 => {
                    let t = *r.pick(&packets::TYPES);
                    let t = if t == "pubrel" || r.flag() { "publish" } else { t };
                    ("header", obj(vec![("t", s(t)), ("dup", J::Bool(r.flag())), ("qos", n(r.below(3))), ("retain", J::Bool(r.flag()))]))
                }
                _ => {
                    let mut l = vec![];
                    for _ in 0..r.below(5) {
                        let id = *r.pick(&[1u8, 2, 3, 8, 9, 11, 11, 17, 18, 19, 21, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 39, 40, 41, 42]);
                        let len = r.len();
                        l.push(arr([i(id), match id {
                            2 | 17 | 24 | 39 => u32h(r.next() as u32 >> r.below(32)),
                            1 | 23 | 25 | 37 | 40 | 41 | 42 => J::Bool(r.flag()),
                            19 | 33 | 34 | 35 => i(r.u16()),
                            36 => i(r.u8()),
                            11 => u32h(r.var(true)),
                            9 => b(&r.bytes(len)),
                            _ => b(r.string_of(len).as_bytes()),
                        }]));
                    }
                    ("props", obj(vec![("list", J::Arr(l)), ("up", up(&packets::user_props(r, Focus::User)))]))
                }
            };
            ops.push(obj(vec![("op", s(op)), ("x", x)]));
        }
        let own = r.next();
        let ev = wr_event(&ops, own);
        let sig = hash(
            &ev.get("ops")
                .unwrap()
                .list()
                .unwrap()
                .iter()
                .map(|o| {
                    hash(&[
                        hash_bytes(o.get("op").unwrap().str().unwrap().as_bytes()),
                        hash_bytes(o.get("k").unwrap().str().unwrap().as_bytes()),
                        size_class(o.get("x").unwrap().text().len()),
                    ])
                })
                .collect::<Vec<_>>(),
        );
        let sus = ev.text().contains("\"panic\"");
        q.offer(sig, sus, || ev);
    }
    q.take()
}

// ---------------------------------------------------------------------------
// tables

pub fn codes() -> Vec<J> {
    let mut o = vec![];
    macro_rules! fam {
        ($name:expr, $ty:ident, $to:ident, $from:ident, $all:ident) => {
            for x in 0..=255u8 {
                about_to(|| obj(vec![("e", s("code")), ("fam", s($name)), ("x", i(x))]));
                o.push(obj(vec![
                    ("e", s("code")),
                    ("dir", s("from")),
                    ("fam", s($name)),
                    ("x", i(x)),
                    ("r", res(guarded(|| $ty::from_byte(x)), |c| s($to(&c)))),
                ]));
            }
            for m in $all {
                let c = $from(m).unwrap();
                o.push(obj(vec![
                    ("e", s("code")),
                    ("dir", s("to")),
                    ("fam", s($name)),
                    ("m", s(m)),
                    ("r", res(guarded(|| Ok(c.to_byte())), i)),
                ]));
            }
        };
    }
    fam!("puback", PubackPubrecCode, puback_name, puback_from, PUBACK_ALL);
    fam!("pubcomp", PubcompPubrelCode, pubcomp_name, pubcomp_from, PUBCOMP_ALL);
    fam!("suback", SubscriptionReasonCode, suback_name, suback_from, SUBACK_ALL);
    fam!("unsuback", UnsubackCode, unsuback_name, unsuback_from, UNSUBACK_ALL);
    fam!("disconnect", DisconnectCode, disconnect_name, disconnect_from, DISCONNECT_ALL);
    fam!("auth", AuthCode, auth_name, auth_from, AUTH_ALL);
    fam!("granted", Granted, granted_name, granted_from, GRANTED_ALL);
    fam!("qos", QoS, qos_name, qos_from, QOS_ALL);
    for x in 0..=255u8 {
        o.push(obj(vec![
            ("e", s("code")),
            ("dir", s("bits")),
            ("fam", s("ptype")),
            ("x", i(x)),
            ("r", res(guarded(|| Ok(PacketType::from_bits(x))), |c| s(ptype_name(&c)))),
        ]));
        o.push(obj(vec![
            ("e", s("code")),
            ("dir", s("header")),
            ("fam", s("ptype")),
            ("x", i(x)),
            (
                "r",
                res(guarded(|| FixedHeader::from_byte(x)), |h| {
                    obj(vec![
                        ("t", s(ptype_name(&h.cmd))),
                        ("dup", J::Bool(h.dup)),
                        ("qos", i(h.qos)),
                        ("retain", J::Bool(h.retain)),
                        ("enc", res(guarded(|| Ok(h.encode())), i)),
                    ])
                }),
            ),
        ]));
    }
    let flags = |f: &ConnectFlags| {
        obj(vec![
            ("user", J::Bool(f.user_name)),
            ("password", J::Bool(f.password)),
            ("retain", J::Bool(f.will_retain)),
            ("qos", i(f.will_qos)),
            ("will", J::Bool(f.will)),
            ("clean", J::Bool(f.clean_session)),
        ])
    };
    for x in 0..=255u8 {
        o.push(obj(vec![
            ("e", s("code")),
            ("dir", s("flags")),
            ("fam", s("connect")),
            ("x", i(x)),
            ("new", res(guarded(|| Ok(ConnectFlags::new(x))), |f| flags(&f))),
            (
                "r",
                res(guarded(|| ConnectFlags::from_byte(x)), |(f, w)| {
                    let w = w.iter().map(|w| {
                        let empty = w.topic.is_none() && w.payload.is_none() && w.properties.is_none();
                        obj(vec![("qos", i(w.qos)), ("retain", J::Bool(w.retain)), ("empty", J::Bool(empty))])
                    });
                    obj(vec![("flags", flags(&f)), ("will", arr(w))])
                }),
            ),
        ]));
    }
    for m in PTYPE_ALL {
        let t = ptype_from(m).unwrap();
        o.push(obj(vec![
            ("e", s("code")),
            ("dir", s("type")),
            ("fam", s("ptype")),
            ("m", s(m)),
            ("r", res(guarded(|| Ok(FixedHeader::for_type(t).encode())), i)),
        ]));
    }
    let mut names: Vec<Vec<u8>> = vec![b"MQTT".to_vec(), b"MQIsdp".to_vec(), b"".to_vec()];
    for base in [&b"MQTT"[..], b"MQIsdp"] {
        for k in 0..base.len() {
            for c in 0..128u8 {
                let mut x = base.to_vec();
                x[k] = c;
                names.push(x);
            }
            names.push(base[..k].to_vec());
            let mut x = base.to_vec();
            x.remove(k);
            names.push(x);
        }
        for k in 0..=base.len() {
            for c in 0..128u8 {
                let mut x = base.to_vec();
                x.insert(k, c);
                names.push(x);
            }
        }
    }
    for x in names {
        let t = String::from_utf8(x.clone()).unwrap();
        o.push(obj(vec![
            ("e", s("code")),
            ("dir", s("name")),
            ("fam", s("proto")),
            ("x", b(&x)),
            ("r", res(guarded(|| Protocol::from_source(&t)), |c| s(proto_name(&c)))),
        ]));
    }
    o
}

/// property sections that nobody filled
pub fn defaults() -> Vec<J> {
    let of = |x: J, path: &[&str]| {
        let mut x = x;
        for p in path {
            x = x.get(p).unwrap().list().unwrap()[0].clone();
        }
        x
    };
    let ev = |sec: &str, r: Result<J, String>| {
        let r = match r {
            Ok(x) => obj(vec![("k", s("ok")), ("x", x)]),
            Err(_) => obj(vec![("k", s("panic"))]),
        };
        obj(vec![("e", s("none")), ("sec", s(sec)), ("r", r)])
    };
    let connect = |w: Option<LastWill>, q: Option<ConnectProperties>| {
        to_j(&MqttPacket::Connect(ConnectPacket {
            client_id: "c".into(),
            protocol_version: 5,
            protocol_id: Protocol::Mqtt,
            clean_session: true,
            keep_alive: 0,
            user_name: None,
            password: None,
            will: w,
            properties: q,
        }))
    };
    vec![
        ev("connect", guarded(|| of(connect(None, Some(ConnectProperties::default())), &["props"]))),
        ev("will", guarded(|| {
            let w = LastWill { topic: None, payload: None, qos: 0, retain: false, properties: Some(WillProperties::default()) };
            of(connect(Some(w), None), &["will", "props"])
        })),
        ev("connack", guarded(|| {
            let p = ConnackPacket { properties: Some(ConnackProperties::default()), ..ConnackPacket::default() };
            of(to_j(&MqttPacket::Connack(p)), &["props"])
        })),
    ]
}

/// packets that carry each member of each enumeration, at every version
pub fn code_packets() -> Vec<MqttPacket> {
    let mut o = vec![];
    let ack = |cmd: PacketType, a: Option<&str>, c: Option<&str>| ConfirmationPacket {
        cmd,
        message_id: 9,
        puback_reason_code: a.map(|x| puback_from(x).unwrap()),
        pubcomp_reason_code: c.map(|x| pubcomp_from(x).unwrap()),
        properties: None,
    };
    for m in PUBACK_ALL {
        o.push(MqttPacket::Puback(ack(PacketType::Puback, Some(m), None)));
        o.push(MqttPacket::Pubrec(ack(PacketType::Pubrec, Some(m), None)));
    }
    for m in PUBCOMP_ALL {
        o.push(MqttPacket::Pubrel(ack(PacketType::Pubrel, None, Some(m))));
        o.push(MqttPacket::Pubcomp(ack(PacketType::Pubcomp, None, Some(m))));
    }
    let suback = |c: &str, g: &str| {
        MqttPacket::Suback(SubackPacket {
            reason_code: None,
            message_id: 9,
            properties: None,
            granted_reason_codes: vec![suback_from(c).unwrap()],
            granted: vec![granted_from(g).unwrap()],
        })
    };
    for m in SUBACK_ALL {
        o.push(suback(m, "QoS1"));
    }
    for m in GRANTED_ALL {
        o.push(suback("GrantedQoS2", m));
    }
    for m in UNSUBACK_ALL {
        o.push(MqttPacket::Unsuback(UnsubackPacket {
            message_id: 9,
            granted: vec![unsuback_from(m).unwrap(), UnsubackCode::Success],
            properties: None,
        }));
    }
    for m in DISCONNECT_ALL {
        for props in [false, true] {
            o.push(MqttPacket::Disconnect(DisconnectPacket {
                reason_code: Some(disconnect_from(m).unwrap()),
                properties: if props {
                    Some(DisconnectProperties {
                        session_expiry_interval: None,
                        server_reference: None,
                        reason_string: Some("r".into()),
                        user_properties: UserProperties::new(),
                    })
                } else {
                    None
                },
            }));
        }
    }
    for m in AUTH_ALL {
        for props in [false, true] {
            o.push(MqttPacket::Auth(AuthPacket {
                reason_code: auth_from(m).unwrap(),
                properties: if props {
                    Some(AuthProperties {
                        authentication_method: "m".into(),
                        authentication_data: None,
                        reason_string: None,
                        user_properties: UserProperties::new(),
                    })
                } else {
                    None
                },
            }));
        }
    }
    for m in QOS_ALL {
        o.push(MqttPacket::Subscribe(SubscribePacket {
            qos: 1,
            message_id: 9,
            properties: None,
            subscriptions: vec![Subscription {
                topic: "t".into(),
                qos: qos_from(m).unwrap(),
                nl: false,
                rap: false,
                rh: Some(0),
            }],
        }));
    }
    o
}
pub fn code_enc() -> Vec<J> {
    let mut o = vec![];
    for p in code_packets() {
        for v in [3, 4, 5] {
            o.push(crate::codec::enc_event(&p, v).0)
        }
    }
    o
}

// ---------------------------------------------------------------------------
// acknowledgement constructors

pub fn ack(r: &mut Rng, limit: usize) -> Vec<J> {
    let mut o = vec![];
    let mut put = |name: &str, v: u8, mid: u16, code: &str, props: J, p: Result<ConfirmationPacket, String>| {
        let (pj, enc) = match p {
            Ok(p) => {
                let m = match ptype_name(&p.cmd) {
                    "pubrec" => MqttPacket::Pubrec(p),
                    "pubrel" => MqttPacket::Pubrel(p),
                    "pubcomp" => MqttPacket::Pubcomp(p),
                    _ => MqttPacket::Puback(p),
                };
                (ok(to_j(&m)), crate::codec::enc_event(&m, v).0)
            }
            Err(_) => (obj(vec![("k", s("panic"))]), J::Bool(false)),
        };
        o.push(obj(vec![
            ("e", s("ack")),
            ("fn", s(name)),
            ("v", i(v)),
            ("mid", i(mid)),
            ("code", s(code)),
            ("props", props),
            ("p", pj),
            ("enc", enc),
        ]));
    };
    let per = (limit / 25).max(2);
    for k in 0..per {
        for v in [3u8, 4] {
            let m = if k == 0 { 1 } else { r.u16() };
            put("puback", v, m, "", J::Arr(vec![]), guarded(|| ConfirmationPacket::puback_v3(m)));
            put("pubrec", v, m, "", J::Arr(vec![]), guarded(|| ConfirmationPacket::pubrec_v3(m)));
            put("pubrel", v, m, "", J::Arr(vec![]), guarded(|| ConfirmationPacket::pubrel_v3(m)));
            put("pubcomp", v, m, "", J::Arr(vec![]), guarded(|| ConfirmationPacket::pubcomp_v3(m)));
        }
        for code in PUBACK_ALL {
            let (m, props) = conf(r, k);
            let pj = props_j(&props);
            put("puback", 5, m, code, pj.clone(), guarded(|| ConfirmationPacket::puback_v5(m, puback_from(code).unwrap(), props.clone())));
            put("pubrec", 5, m, code, pj, guarded(|| ConfirmationPacket::pubrec_v5(m, puback_from(code).unwrap(), props)));
        }
        for code in PUBCOMP_ALL {
            let (m, props) = conf(r, k);
            let pj = props_j(&props);
            put("pubrel", 5, m, code, pj.clone(), guarded(|| ConfirmationPacket::pubrel_v5(m, pubcomp_from(code).unwrap(), props.clone())));
            put("pubcomp", 5, m, code, pj, guarded(|| ConfirmationPacket::pubcomp_v5(m, pubcomp_from(code).unwrap(), props)));
        }
    }
    o
}
fn conf(r: &mut Rng, k: usize) -> (u16, Option<ConfirmationProperties>) {
    if k == 0 {
        return (258, None);
    }
    let p = match packets::packet(r, "puback", 5, Focus::Any) {
        MqttPacket::Puback(p) => p,
        _ => unreachable!(),
    };
    (p.message_id, p.properties)
}
fn props_j(p: &Option<ConfirmationProperties>) -> J {
    let m = MqttPacket::Puback(ConfirmationPacket {
        cmd: PacketType::Puback,
        message_id: 1,
        puback_reason_code: None,
        pubcomp_reason_code: None,
        properties: p.clone(),
    });
    to_j(&m).get("props").unwrap().clone()
}

/// every combination of variant, named type, codes and version
pub fn ack_matrix() -> Vec<J> {
    let mut o = vec![];
    for variant in ["puback", "pubrec", "pubrel", "pubcomp"] {
        for cmd in PTYPE_ALL {
            for a in [None, Some("Success"), Some("NotAuthorized")] {
                for c in [None, Some("Success"), Some("PacketIdentifierNotFound")] {
                    for props in [None, Some(ConfirmationProperties { reason_string: Some("r".into()), user_properties: UserProperties::new() })] {
                        let p = ConfirmationPacket {
                            cmd: ptype_from(cmd).unwrap(),
                            message_id: 77,
                            puback_reason_code: a.map(|x| puback_from(x).unwrap()),
                            pubcomp_reason_code: c.map(|x| pubcomp_from(x).unwrap()),
                            properties: props,
                        };
                        let m = match variant {
                            "puback" => MqttPacket::Puback(p),
                            "pubrec" => MqttPacket::Pubrec(p),
                            "pubrel" => MqttPacket::Pubrel(p),
                            _ => MqttPacket::Pubcomp(p),
                        };
                        // the variant only matters when it disagrees with the named type
                        if variant != "puback" && variant != *cmd && (a.is_some() || c.is_some()) {
                            continue;
                        }
                        for v in [5u8, 4, 3] {
                            o.push(crate::codec::enc_event(&m, v).0);
                        }
                    }
                }
            }
        }
    }
    o
}

// ---------------------------------------------------------------------------

#[cfg(feature = "serde")]
mod formats {
    use super::*;
    use serde::de::DeserializeOwned;
    use serde::Serialize;
    type Back<T> = Result<T, &'static str>;

    fn step<T>(f: impl FnOnce() -> Option<T>) -> Back<T> {
        match guarded(f) {
            Ok(Some(x)) => Ok(x),
            Ok(None) => Err("err"),
            Err(_) => Err("panic"),
        }
    }
    fn text<T: Serialize + DeserializeOwned>(p: &T) -> Back<T> {
        step(|| serde_json::from_str(&serde_json::to_string(p).ok()?).ok())
    }
    /// the same data on other routes: members in another order, escaped, from a reader, as a tree of
    /// values, in a sequence; and a format of bare values in order
    fn ways<T: Serialize + DeserializeOwned>(p: &T, all: bool) -> Vec<(&'static str, Back<T>)> {
        let bare = step(|| {
            let b = bincode::serialize(&(p, 0x1234u16)).ok()?;
            let (q, end): (T, u16) = bincode::deserialize(&b).ok()?;
            Some(q).filter(|_| end == 0x1234)
        });
        let tree = step(|| serde_json::from_value(serde_json::to_value(p).ok()?).ok());
        if !all {
            return vec![("bare", bare), ("tree", tree)];
        }
        let sorted = step(|| serde_json::from_str(&serde_json::to_string(&serde_json::to_value(p).ok()?).ok()?).ok());
        let pretty = step(|| serde_json::from_slice(&serde_json::to_vec_pretty(p).ok()?).ok());
        let reader = step(|| serde_json::from_reader(&serde_json::to_vec(p).ok()?[..]).ok());
        let list = step(|| {
            let mut l: Vec<T> = serde_json::from_str(&serde_json::to_string(&[p, p]).ok()?).ok()?;
            l.pop().filter(|_| l.len() == 1)
        });
        vec![("bare", bare), ("tree", tree), ("sorted", sorted), ("pretty", pretty), ("reader", reader), ("list", list)]
    }
    fn out<T>(x: &Back<T>, j: impl Fn(&T) -> J) -> Vec<(&'static str, J)> {
        match x {
            Ok(q) => vec![("k", s("ok")), ("p", j(q))],
            Err(k) => vec![("k", s(k))],
        }
    }
    pub fn event<T: Serialize + DeserializeOwned>(p: &T, all: bool, j: impl Fn(&T) -> J) -> (J, bool) {
        let me = j(p);
        about_to(|| obj(vec![("e", s("serde")), ("p", me.clone())]));
        let first = text(p);
        let mut same = matches!(&first, Ok(q) if j(q) == me);
        let mut other = vec![];
        for (how, x) in ways(p, all) {
            let o = obj(out(&x, &j));
            if o != obj(out(&first, &j)) {
                same = false;
                other.push(obj(vec![("how", s(how)), ("out", o)]));
            }
        }
        (obj(vec![("e", s("serde")), ("p", me), ("out", obj(out(&first, &j))), ("ways", J::Arr(other))]), same)
    }
    pub fn tables() -> Vec<J> {
        let mut o = vec![];
        macro_rules! table {
            ($fam:expr, $from:ident, $to:ident, $all:expr) => {
                for x in $all {
                    o.push(event(&$from(x).unwrap(), true, |z| obj(vec![("t", s($fam)), ("x", s($to(z)))])).0)
                }
            };
        }
        table!("code puback", puback_from, puback_name, PUBACK_ALL);
        table!("code pubcomp", pubcomp_from, pubcomp_name, PUBCOMP_ALL);
        table!("code suback", suback_from, suback_name, SUBACK_ALL);
        table!("code unsuback", unsuback_from, unsuback_name, UNSUBACK_ALL);
        table!("code disconnect", disconnect_from, disconnect_name, DISCONNECT_ALL);
        table!("code auth", auth_from, auth_name, AUTH_ALL);
        table!("granted", granted_from, granted_name, GRANTED_ALL);
        table!("qos", qos_from, qos_name, QOS_ALL);
        table!("packet type", ptype_from, ptype_name, PTYPE_ALL);
        for x in (0..=255u8).filter_map(|x| FixedHeader::from_byte(x).ok()) {
            let j = |h: &FixedHeader| obj(vec![("t", s("header")), ("x", arr([s(ptype_name(&h.cmd)), J::Bool(h.dup), i(h.qos), J::Bool(h.retain)]))]);
            o.push(event(&x, true, j).0);
        }
        for x in 0..=255u8 {
            let j = |f: &connect::ConnectFlags| {
                let b = |x| J::Bool(x);
                obj(vec![
                    ("t", s("flags")),
                    ("x", arr([b(f.user_name), b(f.password), b(f.will_retain), i(f.will_qos), b(f.will), b(f.clean_session)])),
                ])
            };
            o.push(event(&connect::ConnectFlags::new(x), true, j).0);
        }
        o
    }
    /// the parts of the interface on their own
    pub fn parts(p: &MqttPacket) -> Option<(J, bool)> {
        macro_rules! each {
            ($($v:ident)*) => {
                match p {
                    $(MqttPacket::$v(x) => Some(event(x, true, |z| to_j(&MqttPacket::$v(z.clone())))),)*
                    MqttPacket::Pingreq | MqttPacket::Pingresp => None,
                }
            };
        }
        each!(Connect Connack Subscribe Suback Publish Puback Pubrec Pubrel Pubcomp Unsubscribe Unsuback Disconnect Auth)
    }
}
#[cfg(feature = "serde")]
pub fn serde_event(p: &MqttPacket, all: bool) -> (J, bool) {
    formats::event(p, all, to_j)
}
#[cfg(not(feature = "serde"))]
pub fn serde_event(_: &MqttPacket, _: bool) -> (J, bool) {
    eprintln!("built without serde");
    std::process::exit(2)
}

#[cfg(feature = "serde")]
pub fn serde_suite(r: &mut Rng, limit: usize, pool: usize, given: &[J]) -> Vec<J> {
    let mut q = Pool::new(limit);
    let mut o = vec![];
    let mut run = |p: &MqttPacket| {
        let (ev, same) = serde_event(p, true);
        q.offer(crate::codec::shape(&to_j(p)), !same, || ev);
        if let Some((ev, false)) = formats::parts(p) {
            q.offer(crate::codec::shape(&to_j(p)) ^ 1, true, || ev);
        }
    };
    for g in given {
        run(&from_j(g.get("p").unwrap()).unwrap());
    }
    if !given.is_empty() {
        return q.take();
    }
    if !r.large {
        for p in code_packets() {
            run(&p);
        }
        o.extend(formats::tables());
    }
    for _ in 0..pool {
        let t = *r.pick(&packets::TYPES);
        let v = *r.pick(&[3, 4, 5, 5]);
        let fo = *r.pick(&[Focus::Any, Focus::Props, Focus::User, Focus::Wild]);
        run(&packets::packet(r, t, v, fo));
    }
    o.extend(q.take());
    o
}
#[cfg(not(feature = "serde"))]
pub fn serde_suite(_: &mut Rng, _: usize, _: usize, _: &[J]) -> Vec<J> {
    eprintln!("built without serde");
    std::process::exit(2)
}
