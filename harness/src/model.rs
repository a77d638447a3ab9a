//! Abstraction function between the library's packet values and the records of the
//! specification (spec/MqttPackets.tla).  Field by field, no interpretation.
use crate::json::*;
use mqtt_packet_3_5::*;

type R<T> = Result<T, String>;

macro_rules! names {
    ($ty:ident, $to:ident, $from:ident, $all:ident, $($var:ident = $name:expr),+ $(,)?) => {
        #[allow(unreachable_patterns)]
        pub fn $to(x: &$ty) -> &'static str {
            match x { $($ty::$var => $name,)+ _ => "Unknown" }
        }
        pub fn $from(x: &str) -> R<$ty> {
            $(if x == $name { return Ok($ty::$var); })+
            Err(format!("no {} {}", stringify!($ty), x))
        }
        #[allow(dead_code)]
        pub const $all: &[&str] = &[$($name),+];
    };
}

names!(PubackPubrecCode, puback_name, puback_from, PUBACK_ALL,
    Success = "Success", NoMatchingSubscribers = "NoMatchingSubscribers",
    UnspecifiedError = "UnspecifiedError",
    ImplementationSpecificError = "ImplementationSpecificError",
    NotAuthorized = "NotAuthorized", TopicNameInvalid = "TopicNameInvalid",
    PacketIdentifierInUse = "PacketIdentifierInUse", QuotaExceeded = "QuotaExceeded",
    PayloadFormatInvalid = "PayloadFormatInvalid");
names!(PubcompPubrelCode, pubcomp_name, pubcomp_from, PUBCOMP_ALL,
    Success = "Success", PacketIdentifierNotFound = "PacketIdentifierNotFound");
names!(SubscriptionReasonCode, suback_name, suback_from, SUBACK_ALL,
    GrantedQoS0 = "GrantedQoS0", GrantedQoS1 = "GrantedQoS1", GrantedQoS2 = "GrantedQoS2",
    UnspecifiedError = "UnspecifiedError",
    ImplementationSpecificError = "ImplementationSpecificError",
    NotAuthorized = "NotAuthorized", TopicFilterInvalid = "TopicFilterInvalid",
    PacketIdentifierInUse = "PacketIdentifierInUse", QuotaExceeded = "QuotaExceeded",
    SharedSubscriptionsNotSupported = "SharedSubscriptionsNotSupported",
    SubscriptionIdentifiersNotSupported = "SubscriptionIdentifiersNotSupported",
    WildcardSubscriptionsNotSupported = "WildcardSubscriptionsNotSupported");
names!(UnsubackCode, unsuback_name, unsuback_from, UNSUBACK_ALL,
    Success = "Success", NoSubscriptionExisted = "NoSubscriptionExisted",
    UnspecifiedError = "UnspecifiedError",
    ImplementationSpecificError = "ImplementationSpecificError",
    NotAuthorized = "NotAuthorized", TopicFilterInvalid = "TopicFilterInvalid",
    PacketIdentifierInUse = "PacketIdentifierInUse");
names!(DisconnectCode, disconnect_name, disconnect_from, DISCONNECT_ALL,
    NormalDisconnection = "NormalDisconnection",
    DisconnectWithWillMessage = "DisconnectWithWillMessage",
    UnspecifiedError = "UnspecifiedError", MalformedPacket = "MalformedPacket",
    ProtocolError = "ProtocolError",
    ImplementationSpecificError = "ImplementationSpecificError",
    NotAuthorized = "NotAuthorized", ServerBusy = "ServerBusy",
    ServerShuttingDown = "ServerShuttingDown", KeepAliveTimeout = "KeepAliveTimeout",
    SessionTakenVver = "SessionTakenOver", TopicFilterInvalid = "TopicFilterInvalid",
    TopicNameInvalid = "TopicNameInvalid", ReceiveMaximumExceeded = "ReceiveMaximumExceeded",
    TopicAliasInvalid = "TopicAliasInvalid", PacketTooLarge = "PacketTooLarge",
    MessageRateTooHigh = "MessageRateTooHigh", QuotaExceeded = "QuotaExceeded",
    AdministrativeAction = "AdministrativeAction",
    PayloadFormatInvalid = "PayloadFormatInvalid", RetainNotSupported = "RetainNotSupported",
    QoSNotSupported = "QoSNotSupported", UseAnotherServer = "UseAnotherServer",
    ServerMoved = "ServerMoved",
    SharedSubscriptionsNotSupported = "SharedSubscriptionsNotSupported",
    ConnectionRateExceeded = "ConnectionRateExceeded",
    MaximumConnectTime = "MaximumConnectTime",
    SubscriptionIdentifiersNotSupported = "SubscriptionIdentifiersNotSupported",
    WildcardSubscriptionsNotSupported = "WildcardSubscriptionsNotSupported");
names!(AuthCode, auth_name, auth_from, AUTH_ALL,
    Success = "Success", ContinueAuthentication = "ContinueAuthentication",
    ReAuthenticate = "ReAuthenticate");
names!(Granted, granted_name, granted_from, GRANTED_ALL,
    QoS0 = "QoS0", QoS1 = "QoS1", QoS2 = "QoS2", Failure = "Failure");
names!(QoS, qos_name, qos_from, QOS_ALL, QoS0 = "QoS0", QoS1 = "QoS1", QoS2 = "QoS2");
names!(PacketType, ptype_name, ptype_from, PTYPE_ALL,
    Reserved = "reserved", Connect = "connect", Connack = "connack", Publish = "publish",
    Puback = "puback", Pubrec = "pubrec", Pubrel = "pubrel", Pubcomp = "pubcomp",
    Subscribe = "subscribe", Suback = "suback", Unsubscribe = "unsubscribe",
    Unsuback = "unsuback", Pingreq = "pingreq", Pingresp = "pingresp",
    Disconnect = "disconnect", Auth = "auth");
names!(Protocol, proto_name, proto_from, PROTO_ALL, Mqtt = "MQTT", MQIsdp = "MQIsdp");

fn st(x: &str) -> J {
    b(x.as_bytes())
}
fn ost(x: &Option<String>) -> J {
    opt(x.as_ref().map(|v| st(v)))
}
fn ou32(x: &Option<u32>) -> J {
    opt(x.map(u32h))
}
fn ou16(x: &Option<u16>) -> J {
    opt(x.map(i))
}
fn ou8(x: &Option<u8>) -> J {
    opt(x.map(i))
}
pub fn up(x: &UserProperties) -> J {
    let mut v: Vec<_> = x.iter().collect();
    v.sort();
    arr(v.into_iter().map(|(k, vs)| obj(vec![("k", st(k)), ("vs", arr(vs.iter().map(|w| st(w))))])))
}
fn conf_props(x: &Option<ConfirmationProperties>) -> J {
    opt(x.as_ref().map(|p| obj(vec![("rs", ost(&p.reason_string)), ("up", up(&p.user_properties))])))
}
fn confirmation(t: &str, p: &ConfirmationPacket) -> J {
    obj(vec![
        ("t", s(t)),
        ("cmd", s(ptype_name(&p.cmd))),
        ("a", opt(p.puback_reason_code.as_ref().map(|c| s(puback_name(c))))),
        ("c", opt(p.pubcomp_reason_code.as_ref().map(|c| s(pubcomp_name(c))))),
        ("mid", i(p.message_id)),
        ("props", conf_props(&p.properties)),
    ])
}

pub fn to_j(p: &MqttPacket) -> J {
    match p {
        MqttPacket::Connect(p) => obj(vec![
            ("t", s("connect")),
            ("cid", st(&p.client_id)),
            ("ver", i(p.protocol_version)),
            ("proto", s(proto_name(&p.protocol_id))),
            ("clean", J::Bool(p.clean_session)),
            ("ka", i(p.keep_alive)),
            ("user", ost(&p.user_name)),
            ("pass", ost(&p.password)),
            (
                "will",
                opt(p.will.as_ref().map(|w| {
                    obj(vec![
                        ("topic", ost(&w.topic)),
                        ("payload", ost(&w.payload)),
                        ("qos", i(w.qos)),
                        ("retain", J::Bool(w.retain)),
                        (
                            "props",
                            opt(w.properties.as_ref().map(|q| {
                                obj(vec![
                                    ("wdi", u32h(q.will_delay_interval)),
                                    ("pfi", J::Bool(q.payload_format_indicator)),
                                    ("mei", ou32(&q.message_expiry_interval)),
                                    ("ct", ost(&q.content_type)),
                                    ("rt", ost(&q.response_topic)),
                                    ("cd", b(&q.correlation_data)),
                                    ("up", up(&q.user_properties)),
                                ])
                            })),
                        ),
                    ])
                })),
            ),
            (
                "props",
                opt(p.properties.as_ref().map(|q| {
                    obj(vec![
                        ("sei", u32h(q.session_expiry_interval)),
                        ("rm", i(q.receive_maximum)),
                        ("mps", ou32(&q.maximum_packet_size)),
                        ("tam", i(q.topic_alias_maximum)),
                        ("rri", J::Bool(q.request_response_information)),
                        ("rpi", J::Bool(q.request_problem_information)),
                        ("am", ost(&q.authentication_method)),
                        ("ad", ost(&q.authentication_data)),
                        ("up", up(&q.user_properties)),
                    ])
                })),
            ),
        ]),
        MqttPacket::Connack(p) => obj(vec![
            ("t", s("connack")),
            ("ret", ou8(&p.return_code)),
            ("rea", ou8(&p.reason_code)),
            ("sp", J::Bool(p.session_present)),
            (
                "props",
                opt(p.properties.as_ref().map(|q| {
                    obj(vec![
                        ("sei", u32h(q.session_expiry_interval)),
                        ("rm", i(q.receive_maximum)),
                        ("mq", i(q.maximum_qos)),
                        ("ra", J::Bool(q.retain_available)),
                        ("mps", ou32(&q.maximum_packet_size)),
                        ("aci", ost(&q.assigned_client_identifier)),
                        ("tam", i(q.topic_alias_maximum)),
                        ("rs", ost(&q.reason_string)),
                        ("up", up(&q.user_properties)),
                        ("wsa", J::Bool(q.wildcard_subscription_available)),
                        ("sia", J::Bool(q.subscription_identifiers_available)),
                        ("ssa", J::Bool(q.shared_subscription_available)),
                        ("ska", ou16(&q.server_keep_alive)),
                        ("ri", ost(&q.response_information)),
                        ("sr", ost(&q.server_reference)),
                        ("am", ost(&q.authentication_method)),
                        ("ad", ost(&q.authentication_data)),
                        ("dflt", J::Bool(q.is_default)),
                    ])
                })),
            ),
        ]),
        MqttPacket::Publish(p) => obj(vec![
            ("t", s("publish")),
            ("dup", J::Bool(p.dup)),
            ("qos", i(p.qos)),
            ("retain", J::Bool(p.retain)),
            ("topic", st(&p.topic)),
            ("mid", ou16(&p.message_id)),
            ("payload", b(&p.payload)),
            (
                "props",
                opt(p.properties.as_ref().map(|q| {
                    obj(vec![
                        ("pfi", J::Bool(q.payload_format_indicator)),
                        ("mei", ou32(&q.message_expiry_interval)),
                        ("ta", ou16(&q.topic_alias)),
                        ("rt", ost(&q.response_topic)),
                        ("cd", b(&q.correlation_data)),
                        ("up", up(&q.user_properties)),
                        ("sids", arr(q.subscription_identifiers.iter().map(|x| u32h(*x)))),
                        ("ct", ost(&q.content_type)),
                    ])
                })),
            ),
        ]),
        MqttPacket::Puback(p) => confirmation("puback", p),
        MqttPacket::Pubrec(p) => confirmation("pubrec", p),
        MqttPacket::Pubrel(p) => confirmation("pubrel", p),
        MqttPacket::Pubcomp(p) => confirmation("pubcomp", p),
        MqttPacket::Subscribe(p) => obj(vec![
            ("t", s("subscribe")),
            ("qos", i(p.qos)),
            ("mid", i(p.message_id)),
            (
                "props",
                opt(p.properties.as_ref().map(|q| {
                    obj(vec![
                        ("sid", u32h(q.subscription_identifier)),
                        ("up", up(&q.user_properties)),
                    ])
                })),
            ),
            (
                "subs",
                arr(p.subscriptions.iter().map(|x| {
                    obj(vec![
                        ("topic", st(&x.topic)),
                        ("qos", s(qos_name(&x.qos))),
                        ("nl", J::Bool(x.nl)),
                        ("rap", J::Bool(x.rap)),
                        ("rh", ou8(&x.rh)),
                    ])
                })),
            ),
        ]),
        MqttPacket::Suback(p) => obj(vec![
            ("t", s("suback")),
            ("rea", ou8(&p.reason_code)),
            ("mid", i(p.message_id)),
            ("props", conf_props(&p.properties)),
            ("codes", arr(p.granted_reason_codes.iter().map(|c| s(suback_name(c))))),
            ("granted", arr(p.granted.iter().map(|c| s(granted_name(c))))),
        ]),
        MqttPacket::Unsubscribe(p) => obj(vec![
            ("t", s("unsubscribe")),
            ("qos", i(p.qos)),
            ("mid", i(p.message_id)),
            (
                "props",
                opt(p.properties.as_ref().map(|q| obj(vec![("up", up(&q.user_properties))]))),
            ),
            ("topics", arr(p.unsubscriptions.iter().map(|x| st(x)))),
        ]),
        MqttPacket::Unsuback(p) => obj(vec![
            ("t", s("unsuback")),
            ("mid", i(p.message_id)),
            ("codes", arr(p.granted.iter().map(|c| s(unsuback_name(c))))),
            ("props", conf_props(&p.properties)),
        ]),
        MqttPacket::Pingreq => obj(vec![("t", s("pingreq"))]),
        MqttPacket::Pingresp => obj(vec![("t", s("pingresp"))]),
        MqttPacket::Disconnect(p) => obj(vec![
            ("t", s("disconnect")),
            ("code", opt(p.reason_code.as_ref().map(|c| s(disconnect_name(c))))),
            (
                "props",
                opt(p.properties.as_ref().map(|q| {
                    obj(vec![
                        ("sei", ou32(&q.session_expiry_interval)),
                        ("rs", ost(&q.reason_string)),
                        ("up", up(&q.user_properties)),
                        ("sr", ost(&q.server_reference)),
                    ])
                })),
            ),
        ]),
        MqttPacket::Auth(p) => obj(vec![
            ("t", s("auth")),
            ("code", s(auth_name(&p.reason_code))),
            (
                "props",
                opt(p.properties.as_ref().map(|q| {
                    obj(vec![
                        ("am", st(&q.authentication_method)),
                        ("ad", ost(&q.authentication_data)),
                        ("rs", ost(&q.reason_string)),
                        ("up", up(&q.user_properties)),
                    ])
                })),
            ),
        ]),
    }
}

// ---------------------------------------------------------------------------

fn f_opt<T>(x: &J, f: impl Fn(&J) -> R<T>) -> R<Option<T>> {
    match x.list_or_bytes()?.as_slice() {
        [] => Ok(None),
        [v] => f(v).map(Some),
        _ => Err("option with several values".into()),
    }
}
impl J {
    fn list_or_bytes(&self) -> R<Vec<J>> {
        match self {
            J::Arr(x) => Ok(x.clone()),
            J::Bytes(x) => Ok(x.iter().map(|v| i(*v)).collect()),
            _ => Err("not a list".into()),
        }
    }
}
fn f_u8(x: &J) -> R<u8> {
    u8::try_from(x.int()?).map_err(|e| e.to_string())
}
fn f_u16(x: &J) -> R<u16> {
    u16::try_from(x.int()?).map_err(|e| e.to_string())
}
fn f_u32(x: &J) -> R<u32> {
    match x.list_or_bytes()?.as_slice() {
        [a, c] => Ok(((f_u16(a)? as u32) << 16) | f_u16(c)? as u32),
        _ => Err("not 32 bit halves".into()),
    }
}
fn f_up(x: &J) -> R<UserProperties> {
    let mut o = UserProperties::new();
    for e in x.list()? {
        let k = e.get("k")?.string()?;
        let vs: R<Vec<String>> = e.get("vs")?.list()?.iter().map(|v| v.string()).collect();
        o.insert(k, vs?);
    }
    Ok(o)
}
fn f_conf(x: &J) -> R<Option<ConfirmationProperties>> {
    f_opt(x, |q| {
        Ok(ConfirmationProperties {
            reason_string: f_opt(q.get("rs")?, |v| v.string())?,
            user_properties: f_up(q.get("up")?)?,
        })
    })
}

pub fn from_j(x: &J) -> R<MqttPacket> {
    let t = x.get("t")?.str()?;
    Ok(match t {
        "connect" => MqttPacket::Connect(ConnectPacket {
            client_id: x.get("cid")?.string()?,
            protocol_version: f_u8(x.get("ver")?)?,
            protocol_id: proto_from(x.get("proto")?.str()?)?,
            clean_session: x.get("clean")?.boolean()?,
            keep_alive: f_u16(x.get("ka")?)?,
            user_name: f_opt(x.get("user")?, |v| v.string())?,
            password: f_opt(x.get("pass")?, |v| v.string())?,
            will: f_opt(x.get("will")?, |w| {
                Ok(LastWill {
                    topic: f_opt(w.get("topic")?, |v| v.string())?,
                    payload: f_opt(w.get("payload")?, |v| v.string())?,
                    qos: f_u8(w.get("qos")?)?,
                    retain: w.get("retain")?.boolean()?,
                    properties: f_opt(w.get("props")?, |q| {
                        Ok(WillProperties {
                            will_delay_interval: f_u32(q.get("wdi")?)?,
                            payload_format_indicator: q.get("pfi")?.boolean()?,
                            message_expiry_interval: f_opt(q.get("mei")?, f_u32)?,
                            content_type: f_opt(q.get("ct")?, |v| v.string())?,
                            response_topic: f_opt(q.get("rt")?, |v| v.string())?,
                            correlation_data: q.get("cd")?.bytes()?,
                            user_properties: f_up(q.get("up")?)?,
                        })
                    })?,
                })
            })?,
            properties: f_opt(x.get("props")?, |q| {
                Ok(ConnectProperties {
                    session_expiry_interval: f_u32(q.get("sei")?)?,
                    receive_maximum: f_u16(q.get("rm")?)?,
                    maximum_packet_size: f_opt(q.get("mps")?, f_u32)?,
                    topic_alias_maximum: f_u16(q.get("tam")?)?,
                    request_response_information: q.get("rri")?.boolean()?,
                    request_problem_information: q.get("rpi")?.boolean()?,
                    user_properties: f_up(q.get("up")?)?,
                    authentication_method: f_opt(q.get("am")?, |v| v.string())?,
                    authentication_data: f_opt(q.get("ad")?, |v| v.string())?,
                })
            })?,
        }),
        "connack" => MqttPacket::Connack(ConnackPacket {
            return_code: f_opt(x.get("ret")?, f_u8)?,
            reason_code: f_opt(x.get("rea")?, f_u8)?,
            session_present: x.get("sp")?.boolean()?,
            properties: f_opt(x.get("props")?, |q| {
                Ok(ConnackProperties {
                    session_expiry_interval: f_u32(q.get("sei")?)?,
                    receive_maximum: f_u16(q.get("rm")?)?,
                    maximum_qos: f_u8(q.get("mq")?)?,
                    retain_available: q.get("ra")?.boolean()?,
                    maximum_packet_size: f_opt(q.get("mps")?, f_u32)?,
                    assigned_client_identifier: f_opt(q.get("aci")?, |v| v.string())?,
                    topic_alias_maximum: f_u16(q.get("tam")?)?,
                    reason_string: f_opt(q.get("rs")?, |v| v.string())?,
                    user_properties: f_up(q.get("up")?)?,
                    wildcard_subscription_available: q.get("wsa")?.boolean()?,
                    subscription_identifiers_available: q.get("sia")?.boolean()?,
                    shared_subscription_available: q.get("ssa")?.boolean()?,
                    server_keep_alive: f_opt(q.get("ska")?, f_u16)?,
                    response_information: f_opt(q.get("ri")?, |v| v.string())?,
                    server_reference: f_opt(q.get("sr")?, |v| v.string())?,
                    authentication_method: f_opt(q.get("am")?, |v| v.string())?,
                    authentication_data: f_opt(q.get("ad")?, |v| v.string())?,
                    is_default: q.get("dflt")?.boolean()?,
                })
            })?,
        }),
        "publish" => MqttPacket::Publish(PublishPacket {
            dup: x.get("dup")?.boolean()?,
            qos: f_u8(x.get("qos")?)?,
            retain: x.get("retain")?.boolean()?,
            topic: x.get("topic")?.string()?,
            message_id: f_opt(x.get("mid")?, f_u16)?,
            payload: x.get("payload")?.bytes()?,
            properties: f_opt(x.get("props")?, |q| {
                Ok(PublishProperties {
                    payload_format_indicator: q.get("pfi")?.boolean()?,
                    message_expiry_interval: f_opt(q.get("mei")?, f_u32)?,
                    topic_alias: f_opt(q.get("ta")?, f_u16)?,
                    response_topic: f_opt(q.get("rt")?, |v| v.string())?,
                    correlation_data: q.get("cd")?.bytes()?,
                    user_properties: f_up(q.get("up")?)?,
                    subscription_identifiers: q
                        .get("sids")?
                        .list()?
                        .iter()
                        .map(f_u32)
                        .collect::<R<Vec<u32>>>()?,
                    content_type: f_opt(q.get("ct")?, |v| v.string())?,
                })
            })?,
        }),
        "puback" | "pubrec" | "pubrel" | "pubcomp" => {
            let p = ConfirmationPacket {
                cmd: ptype_from(x.get("cmd")?.str()?)?,
                puback_reason_code: f_opt(x.get("a")?, |v| puback_from(v.str()?))?,
                pubcomp_reason_code: f_opt(x.get("c")?, |v| pubcomp_from(v.str()?))?,
                properties: f_conf(x.get("props")?)?,
                message_id: f_u16(x.get("mid")?)?,
            };
            match t {
                "puback" => MqttPacket::Puback(p),
                "pubrec" => MqttPacket::Pubrec(p),
                "pubrel" => MqttPacket::Pubrel(p),
                _ => MqttPacket::Pubcomp(p),
            }
        }
        "subscribe" => MqttPacket::Subscribe(SubscribePacket {
            qos: f_u8(x.get("qos")?)?,
            message_id: f_u16(x.get("mid")?)?,
            properties: f_opt(x.get("props")?, |q| {
                Ok(SubscribeProperties {
                    subscription_identifier: f_u32(q.get("sid")?)?,
                    user_properties: f_up(q.get("up")?)?,
                })
            })?,
            subscriptions: x
                .get("subs")?
                .list()?
                .iter()
                .map(|y| {
                    Ok(Subscription {
                        topic: y.get("topic")?.string()?,
                        qos: qos_from(y.get("qos")?.str()?)?,
                        nl: y.get("nl")?.boolean()?,
                        rap: y.get("rap")?.boolean()?,
                        rh: f_opt(y.get("rh")?, f_u8)?,
                    })
                })
                .collect::<R<Vec<_>>>()?,
        }),
        "suback" => {
            let whole = SubackPacket {
                reason_code: f_opt(x.get("rea")?, f_u8)?,
                message_id: f_u16(x.get("mid")?)?,
                properties: f_conf(x.get("props")?)?,
                granted_reason_codes: x
                    .get("codes")?
                    .list()?
                    .iter()
                    .map(|c| suback_from(c.str()?))
                    .collect::<R<Vec<_>>>()?,
                granted: x
                    .get("granted")?
                    .list()?
                    .iter()
                    .map(|c| granted_from(c.str()?))
                    .collect::<R<Vec<_>>>()?,
            };
            // through the convenience constructor wherever it says the same
            let bare = whole.reason_code.is_none() && whole.properties.is_none() && whole.granted_reason_codes.is_empty();
            MqttPacket::Suback(if bare { SubackPacket::new_v3(whole.message_id, whole.granted) } else { whole })
        }
        "unsubscribe" => MqttPacket::Unsubscribe(UnsubscribePacket {
            qos: f_u8(x.get("qos")?)?,
            message_id: f_u16(x.get("mid")?)?,
            properties: f_opt(x.get("props")?, |q| {
                Ok(UnsubscribeProperties { user_properties: f_up(q.get("up")?)? })
            })?,
            unsubscriptions: x
                .get("topics")?
                .list()?
                .iter()
                .map(|c| c.string())
                .collect::<R<Vec<_>>>()?,
        }),
        "unsuback" => MqttPacket::Unsuback(UnsubackPacket {
            message_id: f_u16(x.get("mid")?)?,
            granted: x
                .get("codes")?
                .list()?
                .iter()
                .map(|c| unsuback_from(c.str()?))
                .collect::<R<Vec<_>>>()?,
            properties: f_conf(x.get("props")?)?,
        }),
        "pingreq" => MqttPacket::Pingreq,
        "pingresp" => MqttPacket::Pingresp,
        "disconnect" => MqttPacket::Disconnect(DisconnectPacket {
            reason_code: f_opt(x.get("code")?, |v| disconnect_from(v.str()?))?,
            properties: f_opt(x.get("props")?, |q| {
                Ok(DisconnectProperties {
                    session_expiry_interval: f_opt(q.get("sei")?, f_u32)?,
                    server_reference: f_opt(q.get("sr")?, |v| v.string())?,
                    reason_string: f_opt(q.get("rs")?, |v| v.string())?,
                    user_properties: f_up(q.get("up")?)?,
                })
            })?,
        }),
        "auth" => MqttPacket::Auth(AuthPacket {
            reason_code: auth_from(x.get("code")?.str()?)?,
            properties: f_opt(x.get("props")?, |q| {
                Ok(AuthProperties {
                    authentication_method: q.get("am")?.string()?,
                    authentication_data: f_opt(q.get("ad")?, |v| v.string())?,
                    reason_string: f_opt(q.get("rs")?, |v| v.string())?,
                    user_properties: f_up(q.get("up")?)?,
                })
            })?,
        }),
        t => return Err(format!("unknown packet {}", t)),
    })
}
