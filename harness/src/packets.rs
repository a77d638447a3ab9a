//! Random packet values: mostly representable ones, with deviations.
use crate::model::*;
use crate::rng::Rng;
use mqtt_packet_3_5::*;

pub const TYPES: [&str; 15] = [
    "connect", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback",
    "unsubscribe", "unsuback", "pingreq", "pingresp", "disconnect", "auth",
];

/// what a generated packet should concentrate on
#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Any,
    /// as many user properties as possible
    User,
    /// rich property sets
    Props,
    /// inconsistent packets
    Wild,
}

fn opt<T>(r: &mut Rng, pct: usize, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(pct) {
        Some(f(r))
    } else {
        None
    }
}

pub fn user_props(r: &mut Rng, fo: Focus) -> UserProperties {
    let mut m = UserProperties::new();
    let nkeys = match (fo, r.below(100)) {
        (Focus::User, 0..=9) => r.range(8, 20),
        (Focus::User, _) => r.range(1, 4),
        (_, 0..=54) => 0,
        (_, 55..=84) => 1,
        _ => r.range(2, 4),
    };
    for _ in 0..nkeys {
        let k = if r.chance(50) {
            r.pick(&["", "a", "b", "test", "k", "key", "\u{e9}"]).to_string()
        } else {
            r.string()
        };
        let nv = match r.below(100) {
            0..=2 => 0,
            3..=59 => 1,
            60..=94 => r.range(2, 4),
            _ => r.range(5, 12),
        };
        let vs: Vec<String> = (0..nv)
            .map(|_| {
                if r.chance(50) {
                    r.pick(&["", "a", "b", "1", "2", "3", "test"]).to_string()
                } else {
                    r.string()
                }
            })
            .collect();
        m.insert(k, vs);
    }
    m
}

fn pp(fo: Focus) -> usize {
    match fo {
        Focus::User | Focus::Props => 90,
        _ => 55,
    }
}

fn conf_props(r: &mut Rng, fo: Focus) -> Option<ConfirmationProperties> {
    opt(r, pp(fo), |r| ConfirmationProperties {
        reason_string: opt(r, 50, |r| r.string()),
        user_properties: user_props(r, fo),
    })
}

pub fn packet(r: &mut Rng, t: &str, v: u8, fo: Focus) -> MqttPacket {
    r.packet();
    let wild = fo == Focus::Wild;
    // below version 5 the version 5 fields are mostly, not always, left out
    let v5 = v == 5 || r.chance(35);
    let code = |r: &mut Rng, all: &[&'static str]| -> &'static str {
        if r.chance(35) {
            all[0]
        } else {
            all[r.below(all.len())]
        }
    };
    match t {
        "connect" => {
            let ver = if wild && r.chance(10) { *r.pick(&[0, 1, 2, 6, 131, 132, 133, 255]) } else { v };
            let v5 = ver == 5 || r.chance(20);
            let user = opt(r, 50, |r| r.string());
            let pass = if user.is_some() || ver == 5 || (wild && r.chance(30)) {
                opt(r, 50, |r| r.string())
            } else {
                None
            };
            let clean = r.flag();
            let cid = {
                let s = if r.chance(15) { String::new() } else { r.string() };
                if s.is_empty() && !wild && !(ver == 5 || ver == 4 && clean) {
                    "c".to_string()
                } else {
                    s
                }
            };
            MqttPacket::Connect(ConnectPacket {
                client_id: cid,
                protocol_version: ver,
                protocol_id: if (ver == 3) != r.chance(5) { Protocol::MQIsdp } else { Protocol::Mqtt },
                clean_session: clean,
                keep_alive: r.u16(),
                user_name: user,
                password: pass,
                will: opt(r, 55, |r| LastWill {
                    topic: if wild && r.chance(20) {
                        opt(r, 30, |_| String::new())
                    } else {
                        let n = r.len().max(1);
                        Some(r.string_of(n))
                    },
                    payload: opt(r, 85, |r| r.string()),
                    qos: if wild && r.chance(20) { r.u8() } else { r.below(3) as u8 },
                    retain: r.flag(),
                    properties: if v5 {
                        opt(r, pp(fo), |r| WillProperties {
                            payload_format_indicator: r.flag(),
                            message_expiry_interval: opt(r, 50, |r| r.u32()),
                            content_type: opt(r, 50, |r| r.string()),
                            response_topic: opt(r, 50, |r| r.string()),
                            correlation_data: if r.flag() {
                                let n = r.len();
                                r.bytes(n)
                            } else {
                                vec![]
                            },
                            will_delay_interval: if r.flag() { r.u32() } else { 0 },
                            user_properties: user_props(r, fo),
                        })
                    } else {
                        None
                    },
                }),
                properties: if v5 {
                    opt(r, pp(fo), |r| ConnectProperties {
                        session_expiry_interval: if r.flag() { r.u32() } else { 0 },
                        receive_maximum: if r.flag() { r.u16() } else { 65535 },
                        maximum_packet_size: opt(r, 50, |r| r.u32()),
                        topic_alias_maximum: if r.flag() { r.u16() } else { 0 },
                        request_response_information: r.flag(),
                        request_problem_information: r.flag(),
                        user_properties: user_props(r, fo),
                        authentication_method: opt(r, 60, |r| r.string()),
                        authentication_data: opt(r, 40, |r| r.string()),
                    })
                } else {
                    None
                },
            })
        }
        "connack" => MqttPacket::Connack(ConnackPacket {
            return_code: if v < 5 && !(wild && r.chance(20)) || r.chance(20) {
                Some(if r.chance(80) { r.below(6) as u8 } else { r.u8() })
            } else {
                None
            },
            reason_code: if v == 5 && !(wild && r.chance(20)) || r.chance(20) {
                Some(if r.chance(80) {
                    *r.pick(&[
                        0, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151, 153, 154,
                        155, 156, 157, 159,
                    ])
                } else {
                    r.u8()
                })
            } else {
                None
            },
            session_present: r.flag(),
            properties: if v5 {
                opt(r, pp(fo), |r| ConnackProperties {
                    session_expiry_interval: if r.flag() { r.u32() } else { 0 },
                    receive_maximum: if r.flag() { r.u16() } else { 65535 },
                    maximum_qos: if wild && r.chance(20) { r.u8() } else { *r.pick(&[0, 1, 2, 2]) },
                    retain_available: r.flag(),
                    maximum_packet_size: opt(r, 50, |r| r.u32()),
                    assigned_client_identifier: opt(r, 40, |r| r.string()),
                    topic_alias_maximum: if r.flag() { r.u16() } else { 0 },
                    reason_string: opt(r, 40, |r| r.string()),
                    user_properties: user_props(r, fo),
                    wildcard_subscription_available: r.flag(),
                    subscription_identifiers_available: r.flag(),
                    shared_subscription_available: r.flag(),
                    server_keep_alive: opt(r, 40, |r| r.u16()),
                    response_information: opt(r, 40, |r| r.string()),
                    server_reference: opt(r, 40, |r| r.string()),
                    authentication_method: opt(r, 50, |r| r.string()),
                    authentication_data: opt(r, 30, |r| r.string()),
                    is_default: r.flag(),
                })
            } else {
                None
            },
        }),
        "publish" => {
            let qos = if wild && r.chance(15) { r.u8() } else { r.below(3) as u8 };
            let properties = if v5 {
                opt(r, pp(fo), |r| PublishProperties {
                    payload_format_indicator: r.flag(),
                    message_expiry_interval: opt(r, 50, |r| r.u32()),
                    topic_alias: opt(r, 50, |r| r.u16()),
                    response_topic: opt(r, 50, |r| r.string()),
                    correlation_data: if r.flag() {
                        let n = r.len();
                        r.bytes(n)
                    } else {
                        vec![]
                    },
                    user_properties: user_props(r, fo),
                    subscription_identifiers: (0..if r.flag() { 0 } else { r.range(1, 4) })
                        .map(|_| r.var(wild))
                        .collect(),
                    content_type: opt(r, 50, |r| r.string()),
                })
            } else {
                None
            };
            let topic = if (wild || v == 5) && r.chance(12) {
                String::new()
            } else {
                let n = r.len().max(1);
                r.string_of(n)
            };
            MqttPacket::Publish(PublishPacket {
                dup: r.chance(if qos > 0 { 50 } else { 8 }),
                qos,
                retain: r.flag(),
                topic,
                message_id: if qos > 0 && !(wild && r.chance(25)) || r.chance(15) { Some(r.u16()) } else { None },
                payload: {
                    let n = r.len();
                    r.bytes(n)
                },
                properties,
            })
        }
        "puback" | "pubrec" | "pubrel" | "pubcomp" => {
            let cmd = if wild && r.chance(40) {
                ptype_from(r.pick(PTYPE_ALL)).unwrap()
            } else {
                ptype_from(t).unwrap()
            };
            let fam_a = matches!(cmd, PacketType::Puback | PacketType::Pubrec);
            let flip = wild && r.chance(40);
            let want_a = if flip { r.flag() } else { fam_a && v5 };
            let want_c = if flip { r.flag() } else { !fam_a && v5 };
            let a = if want_a { Some(puback_from(code(r, PUBACK_ALL)).unwrap()) } else { None };
            let c = if want_c { Some(pubcomp_from(code(r, PUBCOMP_ALL)).unwrap()) } else { None };
            let p = ConfirmationPacket {
                cmd,
                puback_reason_code: a,
                pubcomp_reason_code: c,
                properties: if v5 { conf_props(r, fo) } else { None },
                message_id: r.u16(),
            };
            match t {
                "puback" => MqttPacket::Puback(p),
                "pubrec" => MqttPacket::Pubrec(p),
                "pubrel" => MqttPacket::Pubrel(p),
                _ => MqttPacket::Pubcomp(p),
            }
        }
        "subscribe" => MqttPacket::Subscribe(SubscribePacket {
            qos: if r.chance(70) { 1 } else { r.u8() },
            message_id: r.u16(),
            properties: if v5 {
                opt(r, pp(fo), |r| SubscribeProperties {
                    subscription_identifier: if r.chance(70) { r.var(wild) } else { 0 },
                    user_properties: user_props(r, fo),
                })
            } else {
                None
            },
            subscriptions: {
                let n = if wild && r.chance(15) { 0 } else { list_len(r) };
                (0..n)
                    .map(|_| Subscription {
                        topic: if wild && r.chance(15) {
                            String::new()
                        } else {
                            let n = r.len().max(1);
                            r.string_of(n)
                        },
                        qos: qos_from(r.pick(QOS_ALL)).unwrap(),
                        nl: r.chance(if v5 { 50 } else { 10 }),
                        rap: r.chance(if v5 { 50 } else { 10 }),
                        rh: if wild && r.chance(15) {
                            opt(r, 60, |r| r.u8())
                        } else if v5 {
                            Some(r.below(3) as u8)
                        } else {
                            None
                        },
                    })
                    .collect()
            },
        }),
        "suback" => MqttPacket::Suback(SubackPacket {
            reason_code: opt(r, 10, |r| r.u8()),
            message_id: r.u16(),
            properties: if v5 { conf_props(r, fo) } else { None },
            granted_reason_codes: if v == 5 || r.chance(15) {
                let n = if wild && r.chance(20) { 0 } else { list_len(r) };
                (0..n).map(|_| suback_from(r.pick(SUBACK_ALL)).unwrap()).collect()
            } else {
                vec![]
            },
            granted: if v != 5 || r.chance(15) {
                let n = if wild && r.chance(20) { 0 } else { list_len(r) };
                (0..n).map(|_| granted_from(r.pick(GRANTED_ALL)).unwrap()).collect()
            } else {
                vec![]
            },
        }),
        "unsubscribe" => MqttPacket::Unsubscribe(UnsubscribePacket {
            qos: if r.chance(70) { 1 } else { r.u8() },
            message_id: r.u16(),
            properties: if v5 {
                opt(r, pp(fo), |r| UnsubscribeProperties { user_properties: user_props(r, fo) })
            } else {
                None
            },
            unsubscriptions: {
                let n = if wild && r.chance(15) { 0 } else { list_len(r) };
                (0..n)
                    .map(|_| {
                        let n = if r.chance(4) { 0 } else { r.len().max(1) };
                        r.string_of(n)
                    })
                    .collect()
            },
        }),
        "unsuback" => MqttPacket::Unsuback(UnsubackPacket {
            message_id: r.u16(),
            granted: if v == 5 || r.chance(20) {
                let n = if r.chance(5) { 0 } else { list_len(r) };
                (0..n).map(|_| unsuback_from(r.pick(UNSUBACK_ALL)).unwrap()).collect()
            } else {
                vec![]
            },
            properties: if v5 { conf_props(r, fo) } else { None },
        }),
        "pingreq" => MqttPacket::Pingreq,
        "pingresp" => MqttPacket::Pingresp,
        "disconnect" => MqttPacket::Disconnect(DisconnectPacket {
            reason_code: if v5 {
                opt(r, 85, |r| disconnect_from(code(r, DISCONNECT_ALL)).unwrap())
            } else {
                None
            },
            properties: if v5 {
                opt(r, pp(fo), |r| DisconnectProperties {
                    session_expiry_interval: opt(r, 50, |r| r.u32()),
                    server_reference: opt(r, 50, |r| r.string()),
                    reason_string: opt(r, 50, |r| r.string()),
                    user_properties: user_props(r, fo),
                })
            } else {
                None
            },
        }),
        _ => MqttPacket::Auth(AuthPacket {
            reason_code: auth_from(r.pick(AUTH_ALL)).unwrap(),
            properties: opt(r, pp(fo).max(80), |r| AuthProperties {
                authentication_method: r.string(),
                authentication_data: opt(r, 50, |r| r.string()),
                reason_string: opt(r, 50, |r| r.string()),
                user_properties: user_props(r, fo),
            }),
        }),
    }
}

fn list_len(r: &mut Rng) -> usize {
    if let Some(n) = r.many() {
        return n;
    }
    match r.below(100) {
        0..=49 => 1,
        50..=89 => r.range(2, 4),
        90..=97 => r.range(5, 12),
        _ => *r.pick(&[60, 125, 126, 127, 128, 130]),
    }
}
