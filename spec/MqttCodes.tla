------------------------------ MODULE MqttCodes ------------------------------
(* Every enumeration of MQTT 3.1 / 3.1.1 / 5 that has a wire value.            *)
EXTENDS Integers, Sequences, FiniteSets

PubackCodes ==      \* PUBACK and PUBREC, MQTT 5 table 3-4, 3-5
  [ Success |-> 0, NoMatchingSubscribers |-> 16, UnspecifiedError |-> 128,
    ImplementationSpecificError |-> 131, NotAuthorized |-> 135,
    TopicNameInvalid |-> 144, PacketIdentifierInUse |-> 145,
    QuotaExceeded |-> 151, PayloadFormatInvalid |-> 153 ]

PubcompCodes ==     \* PUBREL and PUBCOMP, MQTT 5 table 3-6, 3-7
  [ Success |-> 0, PacketIdentifierNotFound |-> 146 ]

SubackCodes ==      \* MQTT 5 table 3-8
  [ GrantedQoS0 |-> 0, GrantedQoS1 |-> 1, GrantedQoS2 |-> 2,
    UnspecifiedError |-> 128, ImplementationSpecificError |-> 131,
    NotAuthorized |-> 135, TopicFilterInvalid |-> 143,
    PacketIdentifierInUse |-> 145, QuotaExceeded |-> 151,
    SharedSubscriptionsNotSupported |-> 158,
    SubscriptionIdentifiersNotSupported |-> 161,
    WildcardSubscriptionsNotSupported |-> 162 ]

UnsubackCodes ==    \* MQTT 5 table 3-9
  [ Success |-> 0, NoSubscriptionExisted |-> 17, UnspecifiedError |-> 128,
    ImplementationSpecificError |-> 131, NotAuthorized |-> 135,
    TopicFilterInvalid |-> 143, PacketIdentifierInUse |-> 145 ]

DisconnectCodes ==  \* MQTT 5 table 3-10
  [ NormalDisconnection |-> 0, DisconnectWithWillMessage |-> 4,
    UnspecifiedError |-> 128, MalformedPacket |-> 129, ProtocolError |-> 130,
    ImplementationSpecificError |-> 131, NotAuthorized |-> 135,
    ServerBusy |-> 137, ServerShuttingDown |-> 139, KeepAliveTimeout |-> 141,
    SessionTakenOver |-> 142, TopicFilterInvalid |-> 143,
    TopicNameInvalid |-> 144, ReceiveMaximumExceeded |-> 147,
    TopicAliasInvalid |-> 148, PacketTooLarge |-> 149,
    MessageRateTooHigh |-> 150, QuotaExceeded |-> 151,
    AdministrativeAction |-> 152, PayloadFormatInvalid |-> 153,
    RetainNotSupported |-> 154, QoSNotSupported |-> 155,
    UseAnotherServer |-> 156, ServerMoved |-> 157,
    SharedSubscriptionsNotSupported |-> 158, ConnectionRateExceeded |-> 159,
    MaximumConnectTime |-> 160, SubscriptionIdentifiersNotSupported |-> 161,
    WildcardSubscriptionsNotSupported |-> 162 ]

AuthCodes ==        \* MQTT 5 table 3-11
  [ Success |-> 0, ContinueAuthentication |-> 24, ReAuthenticate |-> 25 ]

GrantedCodes ==     \* SUBACK of MQTT 3.1.1 (3.1 has no failure code)
  [ QoS0 |-> 0, QoS1 |-> 1, QoS2 |-> 2, Failure |-> 128 ]

QoSCodes == [ QoS0 |-> 0, QoS1 |-> 1, QoS2 |-> 2 ]

PacketTypes ==      \* the upper four bits of the fixed header
  [ reserved |-> 0, connect |-> 1, connack |-> 2, publish |-> 3, puback |-> 4,
    pubrec |-> 5, pubrel |-> 6, pubcomp |-> 7, subscribe |-> 8, suback |-> 9,
    unsubscribe |-> 10, unsuback |-> 11, pingreq |-> 12, pingresp |-> 13,
    disconnect |-> 14, auth |-> 15 ]

ProtoNames ==       \* protocol names as byte strings
  [ MQTT |-> <<77, 81, 84, 84>>, MQIsdp |-> <<77, 81, 73, 115, 100, 112>> ]

(* CONNACK codes: 3.1.1 table 3.1 and MQTT 5 table 3-1 (advisory: the library  *)
(* carries them as plain bytes)                                                *)
ConnackReturn == 0..5
ConnackReason == {0, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140,
                  144, 149, 151, 153, 154, 155, 156, 157, 159}

(* all tables by name *)
Families ==
  [ puback |-> PubackCodes, pubcomp |-> PubcompCodes, suback |-> SubackCodes,
    unsuback |-> UnsubackCodes, disconnect |-> DisconnectCodes,
    auth |-> AuthCodes, granted |-> GrantedCodes, qos |-> QoSCodes,
    ptype |-> PacketTypes ]

HasByte(tab, x) == \E n \in DOMAIN tab : tab[n] = x
NameOf(tab, x) == CHOOSE n \in DOMAIN tab : tab[n] = x

Injective(tab) == \A m, n \in DOMAIN tab : tab[m] = tab[n] => m = n
TablesOk == \A f \in DOMAIN Families : Injective(Families[f])

TypeNames == DOMAIN PacketTypes \ {"reserved"}
AckTypes == {"puback", "pubrec", "pubrel", "pubcomp"}
FamilyA == {"puback", "pubrec"}     \* acknowledgements using PubackCodes
FamilyC == {"pubrel", "pubcomp"}    \* acknowledgements using PubcompCodes

(* flag bits of the fixed header that the protocol prescribes *)
FlagsOf(t) == IF t \in {"pubrel", "subscribe", "unsubscribe"} THEN 2 ELSE 0
=============================================================================
