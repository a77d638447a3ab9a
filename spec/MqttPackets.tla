----------------------------- MODULE MqttPackets -----------------------------
(* The fifteen control packets of MQTT 3.1, 3.1.1 and 5: what a byte string    *)
(* means (Decode), how a packet is written (Enc), which packets have no        *)
(* representation (EncClass) and what of a packet a version carries (Norm).    *)
(*                                                                             *)
(* A packet is a record whose field t names the variant.  Options are          *)
(* sequences of length 0 or 1, strings and binary data sequences of bytes.     *)
EXTENDS MqttProps

Bit(x, n) == (x \div (2 ^ n)) % 2 = 1

Odd(c, tag) == IF c THEN {tag} ELSE {}

------------------------------------------------------------------------------
(* Framing: the fixed header of the packet starting at index i of b, where e   *)
(* is the last byte that has arrived.                                          *)
(*   "none"   nothing left                                                     *)
(*   "short"  the header or body is incomplete                                 *)
(*   "badlen" the remaining length has a fifth byte: the stream is lost        *)
(*   "full"   body at bi..be                                                   *)
Frame(b, i, e) ==
  IF i > e THEN [k |-> "none"]
  ELSE LET n == ReadVar(b, i + 1, e) IN
       IF n.ok
       THEN IF n.i + n.val - 1 > e
            THEN [k |-> "short", need |-> n.i + n.val - i]
            ELSE [k |-> "full", bi |-> n.i, be |-> n.i + n.val - 1,
                  next |-> n.i + n.val, lax |-> n.lax]
       ELSE IF i + 4 <= e /\ \A k \in 1..4 : b[i + k] >= 128
            THEN [k |-> "badlen", next |-> i + 5]
            ELSE [k |-> "short", need |-> 0]

HeaderType(x) == NameOf(PacketTypes, x \div 16)
HeaderOk(x) ==
  LET t == HeaderType(x) f == x % 16 IN
  CASE t = "reserved" -> FALSE
    [] t = "publish" -> (f \div 2) % 4 # 3
    [] OTHER -> f = FlagsOf(t)
(* MQTT 3.1 knew a DUP flag on these three *)
HeaderOld(x) == HeaderType(x) \in {"pubrel", "subscribe", "unsubscribe"} /\ x % 16 = 10

------------------------------------------------------------------------------
(* topic syntax: only advisory, the library does not interpret topics          *)
Wild(s) == \E j \in 1..Len(s) : s[j] \in {35, 43}
FilterOdd(s) ==
  \/ s = <<>>
  \/ \E j \in 1..Len(s) :
       \/ s[j] = 35 /\ (j # Len(s) \/ (j > 1 /\ s[j - 1] # 47))
       \/ s[j] = 43 /\ ((j > 1 /\ s[j - 1] # 47) \/ (j < Len(s) /\ s[j + 1] # 47))
Shared(s) == Len(s) >= 7 /\ SubSeq(s, 1, 7) = <<36, 115, 104, 97, 114, 101, 47>>

------------------------------------------------------------------------------
(* Decode: body of b at i..e, every operator yields Fail or Got(packet, ...)   *)

ReadPropsIf(c, b, i, e, sec) == IF c THEN ReadProps(b, i, e, sec) ELSE Got(<<>>, i, {})
ReadOpt(c, b, i, e, ty) ==
  IF ~c THEN Got(<<>>, i, {})
  ELSE LET r == ReadTyped(b, i, e, ty) IN
       IF r.ok THEN Got(<<r.val>>, r.i, r.lax) ELSE Fail

DecWill(b, i, e, flags, ver) ==
  IF ~Bit(flags, 2) THEN Got(<<>>, i, {})
  ELSE LET ps == ReadPropsIf(ver = 5, b, i, e, "will") IN
       IF ~ps.ok THEN Fail ELSE
       LET tp == ReadStr(b, ps.i, e) IN
       IF ~tp.ok THEN Fail ELSE
       LET pl == ReadTextBin(b, tp.i, e, "will payload") IN
       IF ~pl.ok THEN Fail
       ELSE Got(<<[topic |-> <<tp.val>>, payload |-> <<pl.val>>,
                   qos |-> (flags \div 8) % 4, retain |-> Bit(flags, 5),
                   props |-> ps.val]>>, pl.i,
                ps.lax \cup tp.lax \cup pl.lax
                  \cup Odd(tp.val = <<>>, "emptytopic") \cup Odd(Wild(tp.val), "wild"))

DecConnect(b, i, e) ==
  LET nm == ReadStr(b, i, e) IN
  IF ~nm.ok THEN Fail
  ELSE IF ~HasByte(ProtoNames, nm.val) THEN Fail
  ELSE IF nm.i + 3 > e THEN Fail
  ELSE
  LET proto == NameOf(ProtoNames, nm.val)
      vb == b[nm.i]
      ver == IF vb >= 128 THEN vb - 128 ELSE vb
      fl == b[nm.i + 1]
      ka == b[nm.i + 2] * 256 + b[nm.i + 3]
  IN
  IF ver \notin 3..5 THEN Fail
  ELSE IF Bit(fl, 0) THEN Fail
  ELSE IF (fl \div 8) % 4 = 3 THEN Fail
  ELSE IF ~Bit(fl, 2) /\ (Bit(fl, 5) \/ (fl \div 8) % 4 # 0) THEN Fail
  ELSE
  LET ps == ReadPropsIf(ver = 5, b, nm.i + 4, e, "connect") IN
  IF ~ps.ok THEN Fail ELSE
  LET cid == ReadStr(b, ps.i, e) IN
  IF ~cid.ok THEN Fail ELSE
  LET w == DecWill(b, cid.i, e, fl, ver) IN
  IF ~w.ok THEN Fail ELSE
  LET us == ReadOpt(Bit(fl, 7), b, w.i, e, "str") IN
  IF ~us.ok THEN Fail ELSE
  LET pw == ReadOpt(Bit(fl, 6), b, us.i, e, "pass") IN
  IF ~pw.ok THEN Fail
  ELSE Got([t |-> "connect", cid |-> cid.val, ver |-> ver, proto |-> proto,
            clean |-> Bit(fl, 1), ka |-> ka, user |-> us.val, pass |-> pw.val,
            will |-> w.val, props |-> ps.val], pw.i,
           ps.lax \cup cid.lax \cup w.lax \cup us.lax \cup pw.lax
             \cup Odd(vb >= 128, "bridge")
             \cup Odd((proto = "MQIsdp") # (ver = 3), "proto")
             \cup Odd(ver < 5 /\ Bit(fl, 6) /\ ~Bit(fl, 7), "passonly")
             \cup Odd(cid.val = <<>> /\ (ver = 3 \/ (ver = 4 /\ ~Bit(fl, 1))), "emptycid")
             \cup Odd(ver = 3 /\ Len(cid.val) > 23, "longcid"))

DecConnack(b, i, e, v) ==
  IF i > e THEN Fail
  ELSE IF b[i] > 1 THEN Fail
  ELSE IF v # 5
  THEN IF i + 1 > e THEN Fail
       ELSE Got([t |-> "connack", ret |-> <<b[i + 1]>>, rea |-> <<>>,
                 sp |-> b[i] = 1, props |-> <<>>], i + 2,
                Odd(b[i + 1] \notin ConnackReturn, "connackcode")
                  \cup Odd(b[i] = 1 /\ (b[i + 1] # 0 \/ v = 3), "sp"))
  ELSE IF i + 1 > e
  THEN Got([t |-> "connack", ret |-> <<>>, rea |-> <<0>>, sp |-> b[i] = 1,
            props |-> <<>>], i + 1, {"short"})
  ELSE LET ps == ReadPropsIf(i + 1 < e, b, i + 2, e, "connack") IN
       IF ~ps.ok THEN Fail
       ELSE Got([t |-> "connack", ret |-> <<>>, rea |-> <<b[i + 1]>>,
                 sp |-> b[i] = 1, props |-> ps.val], ps.i,
                ps.lax \cup Odd(i + 1 = e, "short")
                  \cup Odd(b[i + 1] \notin ConnackReason, "connackcode")
                  \cup Odd(b[i] = 1 /\ b[i + 1] # 0, "sp"))

DecPublish(b, hdr, i, e, v) ==
  LET qos == (hdr \div 2) % 4
      tp == ReadStr(b, i, e) IN
  IF ~tp.ok THEN Fail ELSE
  LET mid == ReadOpt(qos > 0, b, tp.i, e, "u16") IN
  IF ~mid.ok THEN Fail ELSE
  LET ps == ReadPropsIf(v = 5, b, mid.i, e, "publish") IN
  IF ~ps.ok THEN Fail
  ELSE Got([t |-> "publish", dup |-> Bit(hdr, 3), qos |-> qos, retain |-> Bit(hdr, 0),
            topic |-> tp.val, mid |-> mid.val, payload |-> SubSeq(b, ps.i, e),
            props |-> ps.val], e + 1,
           tp.lax \cup ps.lax
             \cup Odd(Bit(hdr, 3) /\ qos = 0, "dup0")
             \cup Odd(mid.val = <<0>>, "mid0")
             \cup Odd(Wild(tp.val), "wild")
             \cup Odd(tp.val = <<>> /\ (v # 5 \/ ps.val = <<>>), "emptytopic")
             \cup Odd(tp.val = <<>> /\ v = 5 /\ ps.val # <<>>
                        /\ ps.val[1].ta = <<>>, "emptytopic"))

AckFamily(t) == IF t \in FamilyA THEN PubackCodes ELSE PubcompCodes
AckPkt(t, mid, code, props) ==
  [t |-> t, cmd |-> t, a |-> IF t \in FamilyA THEN code ELSE <<>>,
   c |-> IF t \in FamilyC THEN code ELSE <<>>, mid |-> mid, props |-> props]

DecAck(b, t, i, e, v) ==
  LET mid == ReadU16(b, i, e) IN
  IF ~mid.ok THEN Fail
  ELSE IF v # 5 THEN Got(AckPkt(t, mid.val, <<>>, <<>>), mid.i, Odd(mid.val = 0, "mid0"))
  ELSE LET code == IF mid.i > e THEN 0 ELSE b[mid.i] IN
       IF ~HasByte(AckFamily(t), code) THEN Fail ELSE
       LET ps == ReadPropsIf(mid.i < e, b, mid.i + 1, e, "ack") IN
       IF ~ps.ok THEN Fail
       ELSE Got(AckPkt(t, mid.val, <<NameOf(AckFamily(t), code)>>, ps.val),
                IF mid.i > e THEN mid.i ELSE ps.i,
                ps.lax \cup Odd(mid.val = 0, "mid0"))

DecSub(b, i, e, v) ==
  LET tp == ReadStr(b, i, e) IN
  IF ~tp.ok THEN Fail
  ELSE IF tp.i > e THEN Fail
  ELSE LET o == b[tp.i] IN
       IF o % 4 = 3 THEN Fail
       ELSE IF v = 5 /\ (o >= 64 \/ (o \div 16) % 4 = 3) THEN Fail
       ELSE IF v # 5 /\ o >= 4 THEN Fail
       ELSE Got([topic |-> tp.val, qos |-> NameOf(QoSCodes, o % 4),
                 nl |-> Bit(o, 2), rap |-> Bit(o, 3),
                 rh |-> IF v = 5 THEN <<(o \div 16) % 4>> ELSE <<>>], tp.i + 1,
                tp.lax \cup Odd(FilterOdd(tp.val), "filter")
                  \cup Odd(Bit(o, 2) /\ Shared(tp.val), "nlshared"))

DecSubscribe(b, i, e, v) ==
  LET mid == ReadU16(b, i, e) IN
  IF ~mid.ok THEN Fail ELSE
  LET ps == ReadPropsIf(v = 5, b, mid.i, e, "subscribe") IN
  IF ~ps.ok THEN Fail
  ELSE IF ps.i > e THEN Fail
  ELSE LET ss == ReadMany(b, ps.i, e, 3, LAMBDA x, j, last : DecSub(x, j, last, v)) IN
       IF ~ss.ok THEN Fail
       ELSE Got([t |-> "subscribe", qos |-> 1, mid |-> mid.val, props |-> ps.val,
                 subs |-> ss.val], ss.i,
                ps.lax \cup ss.lax \cup Odd(mid.val = 0, "mid0"))

DecSuback(b, i, e, v) ==
  LET mid == ReadU16(b, i, e) IN
  IF ~mid.ok THEN Fail ELSE
  LET ps == ReadPropsIf(v = 5, b, mid.i, e, "ack") IN
  IF ~ps.ok THEN Fail
  ELSE IF ps.i > e THEN Fail
  ELSE LET tab == IF v = 5 THEN SubackCodes ELSE GrantedCodes
           n == e - ps.i + 1 IN
       IF \E j \in ps.i..e : ~HasByte(tab, b[j]) THEN Fail
       ELSE LET names == [j \in 1..n |-> NameOf(tab, b[ps.i + j - 1])] IN
            Got([t |-> "suback", rea |-> <<>>, mid |-> mid.val, props |-> ps.val,
                 codes |-> IF v = 5 THEN names ELSE <<>>,
                 granted |-> IF v = 5 THEN <<>> ELSE names], e + 1,
                ps.lax \cup Odd(mid.val = 0, "mid0")
                  \cup Odd(v = 3 /\ \E j \in 1..n : names[j] = "Failure", "failure3"))

DecTopic(b, i, e) ==
  LET tp == ReadStr(b, i, e) IN
  IF ~tp.ok THEN Fail
  ELSE Got(tp.val, tp.i, tp.lax \cup Odd(FilterOdd(tp.val), "filter"))

DecUnsubscribe(b, i, e, v) ==
  LET mid == ReadU16(b, i, e) IN
  IF ~mid.ok THEN Fail ELSE
  LET ps == ReadPropsIf(v = 5, b, mid.i, e, "unsubscribe") IN
  IF ~ps.ok THEN Fail
  ELSE IF ps.i > e THEN Fail
  ELSE LET ts == ReadMany(b, ps.i, e, 2, DecTopic) IN
       IF ~ts.ok THEN Fail
       ELSE Got([t |-> "unsubscribe", qos |-> 1, mid |-> mid.val, props |-> ps.val,
                 topics |-> ts.val], ts.i,
                ps.lax \cup ts.lax \cup Odd(mid.val = 0, "mid0"))

DecUnsuback(b, i, e, v) ==
  LET mid == ReadU16(b, i, e) IN
  IF ~mid.ok THEN Fail
  ELSE IF v # 5 THEN Got([t |-> "unsuback", mid |-> mid.val, codes |-> <<>>,
                          props |-> <<>>], mid.i, Odd(mid.val = 0, "mid0"))
  ELSE
  LET ps == ReadProps(b, mid.i, e, "ack") IN
  IF ~ps.ok THEN Fail
  ELSE IF \E j \in ps.i..e : ~HasByte(UnsubackCodes, b[j]) THEN Fail
  ELSE Got([t |-> "unsuback", mid |-> mid.val, props |-> ps.val,
            codes |-> [j \in 1..(e - ps.i + 1) |->
                         NameOf(UnsubackCodes, b[ps.i + j - 1])]], e + 1,
           ps.lax \cup Odd(mid.val = 0, "mid0") \cup Odd(ps.i > e, "nocodes"))

DecDisconnect(b, i, e, v) ==
  IF v # 5 THEN Got([t |-> "disconnect", code |-> <<>>, props |-> <<>>], i, {})
  ELSE LET code == IF i > e THEN 0 ELSE b[i] IN
       IF ~HasByte(DisconnectCodes, code) THEN Fail ELSE
       LET ps == ReadPropsIf(i < e, b, i + 1, e, "disconnect") IN
       IF ~ps.ok THEN Fail
       ELSE Got([t |-> "disconnect", code |-> <<NameOf(DisconnectCodes, code)>>,
                 props |-> ps.val], IF i > e THEN i ELSE ps.i, ps.lax)

DecAuth(b, i, e, v) ==
  IF v # 5 THEN Fail
  ELSE LET code == IF i > e THEN 0 ELSE b[i] IN
       IF ~HasByte(AuthCodes, code) THEN Fail ELSE
       LET ps == ReadPropsIf(i < e, b, i + 1, e, "auth") IN
       IF ~ps.ok THEN Fail
       ELSE Got([t |-> "auth", code |-> NameOf(AuthCodes, code), props |-> ps.val],
                IF i > e THEN i ELSE ps.i,
                ps.lax \cup Odd(i = e, "short")
                  \cup Odd(i < e /\ ps.val = <<>>, "nomethod"))

DecBody(b, hdr, i, e, v) ==
  LET t == HeaderType(hdr) IN
  CASE t = "connect" -> DecConnect(b, i, e)
    [] t = "connack" -> DecConnack(b, i, e, v)
    [] t = "publish" -> DecPublish(b, hdr, i, e, v)
    [] t \in AckTypes -> DecAck(b, t, i, e, v)
    [] t = "subscribe" -> DecSubscribe(b, i, e, v)
    [] t = "suback" -> DecSuback(b, i, e, v)
    [] t = "unsubscribe" -> DecUnsubscribe(b, i, e, v)
    [] t = "unsuback" -> DecUnsuback(b, i, e, v)
    [] t = "pingreq" -> Got([t |-> "pingreq"], i, {})
    [] t = "pingresp" -> Got([t |-> "pingresp"], i, {})
    [] t = "disconnect" -> DecDisconnect(b, i, e, v)
    [] t = "auth" -> DecAuth(b, i, e, v)

(* The meaning of the complete packet at i..(f.next-1) of b, f its frame:      *)
(*   r = "ok"   a valid packet: must decode to p                               *)
(*   r = "lax"  well-formed but forbidden by a semantic rule this library does *)
(*              not claim to check: must be refused or decode to p             *)
(*   r = "err"  malformed: must be refused                                     *)
DecodeAt(b, i, f, v) ==
  IF f.k # "full" THEN [r |-> "err"]
  ELSE IF v = 3 /\ HeaderOld(b[i]) THEN [r |-> "old"]
  ELSE IF ~HeaderOk(b[i]) THEN [r |-> "err"]
  ELSE LET d == DecBody(b, b[i], f.bi, f.be, v) IN
       IF ~d.ok THEN [r |-> "err"]
       ELSE IF d.i # f.be + 1 THEN [r |-> "err"]
       ELSE [r |-> IF d.lax \cup f.lax = {} THEN "ok" ELSE "lax",
             p |-> d.val, lax |-> d.lax \cup f.lax]

Decode(b, v) ==
  LET f == Frame(b, 1, Len(b)) IN
  IF f.k = "full" /\ f.next # Len(b) + 1 THEN [r |-> "err"] ELSE DecodeAt(b, 1, f, v)

Decodes(d) == d.r \in {"ok", "lax"}

------------------------------------------------------------------------------
(* Encode *)

OptBytes(o) == IF o = <<>> THEN <<>> ELSE Bin(o[1])

ConnectFlagByte(p) ==
  128 * Len(p.user) + 64 * Len(p.pass)
  + (IF p.will = <<>> THEN 0
     ELSE 4 + 32 * BoolByte(p.will[1].retain) + 8 * p.will[1].qos)
  + 2 * BoolByte(p.clean)

PropsIf(v, sec, props) == IF v = 5 THEN WriteProps(sec, props) ELSE <<>>

EncWill(p) ==
  IF p.will = <<>> THEN <<>>
  ELSE LET w == p.will[1] IN
       PropsIf(p.ver, "will", w.props) \o Str(w.topic[1])
       \o (IF w.payload = <<>> THEN U16(0) ELSE Bin(w.payload[1]))

EncBody(p, v) ==
  CASE p.t = "connect" ->
         Str(ProtoNames[p.proto]) \o U8(p.ver) \o U8(ConnectFlagByte(p)) \o U16(p.ka)
         \o PropsIf(p.ver, "connect", p.props) \o Str(p.cid) \o EncWill(p)
         \o OptBytes(p.user) \o OptBytes(p.pass)
    [] p.t = "connack" ->
         U8(BoolByte(p.sp)) \o (IF v = 5 THEN p.rea ELSE p.ret)
         \o PropsIf(v, "connack", p.props)
    [] p.t = "publish" ->
         Str(p.topic) \o (IF p.qos > 0 THEN U16(p.mid[1]) ELSE <<>>)
         \o PropsIf(v, "publish", p.props) \o p.payload
    [] p.t \in AckTypes ->
         U16(p.mid)
         \o (IF v # 5 THEN <<>>
             ELSE LET c == IF p.cmd \in FamilyA THEN PubackCodes[p.a[1]]
                           ELSE PubcompCodes[p.c[1]]
                      w == WriteProps("ack", p.props)
                  IN IF w = <<0>> THEN IF c = 0 THEN <<>> ELSE <<c>>
                     ELSE <<c>> \o w)
    [] p.t = "subscribe" ->
         U16(p.mid) \o PropsIf(v, "subscribe", p.props)
         \o Cat([j \in 1..Len(p.subs) |->
                  Str(p.subs[j].topic)
                  \o U8(QoSCodes[p.subs[j].qos]
                        + (IF v = 5 THEN 4 * BoolByte(p.subs[j].nl)
                             + 8 * BoolByte(p.subs[j].rap) + 16 * p.subs[j].rh[1]
                           ELSE 0))])
    [] p.t = "suback" ->
         U16(p.mid) \o PropsIf(v, "ack", p.props)
         \o (IF v = 5 THEN [j \in 1..Len(p.codes) |-> SubackCodes[p.codes[j]]]
             ELSE [j \in 1..Len(p.granted) |-> GrantedCodes[p.granted[j]]])
    [] p.t = "unsubscribe" ->
         U16(p.mid) \o PropsIf(v, "unsubscribe", p.props)
         \o Cat([j \in 1..Len(p.topics) |-> Str(p.topics[j])])
    [] p.t = "unsuback" ->
         U16(p.mid) \o PropsIf(v, "ack", p.props)
         \o (IF v = 5 THEN [j \in 1..Len(p.codes) |-> UnsubackCodes[p.codes[j]]] ELSE <<>>)
    [] p.t \in {"pingreq", "pingresp"} -> <<>>
    [] p.t = "disconnect" ->
         IF v # 5 THEN <<>>
         ELSE LET c == IF p.code = <<>> THEN 0 ELSE DisconnectCodes[p.code[1]]
                  w == WriteProps("disconnect", p.props)
              IN IF w = <<0>> THEN IF c = 0 THEN <<>> ELSE <<c>> ELSE <<c>> \o w
    [] p.t = "auth" ->
         IF p.code = "Success" /\ p.props = <<>> THEN <<>>
         ELSE <<AuthCodes[p.code]>> \o WriteProps("auth", p.props)

(* the type an acknowledgement is written as is the one it names               *)
WireTypeOf(p) == IF p.t \in AckTypes THEN p.cmd ELSE p.t
HeaderByte(p) ==
  16 * PacketTypes[WireTypeOf(p)]
  + (IF p.t = "publish" THEN 8 * BoolByte(p.dup) + 2 * p.qos + BoolByte(p.retain)
     ELSE FlagsOf(WireTypeOf(p)))

Enc(p, v) ==
  LET body == EncBody(p, v) IN <<HeaderByte(p)>> \o Var(Len(body)) \o body

------------------------------------------------------------------------------
(* which packets have a representation at version v *)

TooLong(s) == Len(s) > MaxField
OptTooLong(o) == o # <<>> /\ TooLong(o[1])
SidTooBig(h) == HalvesGt(h, VarMaxHalves)

PropsBad(sec, props) ==
  props # <<>> /\
  LET r == props[1] IN
  \/ \E id \in DOMAIN Sections[sec] :
       LET d == Sections[sec][id] IN
       CASE d.ty \in {"str", "bin", "tbin"} ->
              IF d.k = "opt" THEN OptTooLong(r[d.f]) ELSE TooLong(r[d.f])
         [] d.ty = "pair" ->
              \E x \in r.up : \/ TooLong(x.k) /\ x.vs # <<>>
                              \/ \E j \in 1..Len(x.vs) : TooLong(x.vs[j])
         [] d.ty = "var" ->
              IF d.k = "list" THEN \E j \in 1..Len(r[d.f]) : SidTooBig(r[d.f][j])
              ELSE SidTooBig(r[d.f])
         [] id = 36 -> r.mq > 2
         [] OTHER -> FALSE

HasAlias(p) == p.props # <<>> /\ p.props[1].ta # <<>> /\ p.props[1].ta # <<0>>

EncBad(p, v) ==
  LET pv == IF p.t = "connect" THEN p.ver ELSE v
      pbad == IF p.t \in {"pingreq", "pingresp"} THEN FALSE
              ELSE pv = 5 /\ PropsBad(SectionOf(p.t), p.props)
  IN
  pbad \/
  CASE p.t = "connect" ->
         \/ p.ver \notin 3..5
         \/ TooLong(p.cid) \/ OptTooLong(p.user) \/ OptTooLong(p.pass)
         \/ p.cid = <<>> /\ (p.ver = 3 \/ (p.ver = 4 /\ ~p.clean))
         \/ p.pass # <<>> /\ p.user = <<>> /\ p.ver < 5
         \/ p.will # <<>> /\
            LET w == p.will[1] IN
            \/ w.topic \in {<<>>, <<<<>>>>} \/ w.qos > 2
            \/ OptTooLong(w.topic) \/ OptTooLong(w.payload)
            \/ p.ver = 5 /\ PropsBad("will", w.props)
    [] p.t = "connack" -> (IF v = 5 THEN p.rea ELSE p.ret) = <<>>
    [] p.t = "publish" ->
         \/ p.qos > 2 \/ (p.qos > 0 /\ p.mid = <<>>) \/ TooLong(p.topic)
         \/ p.topic = <<>> /\ ~(v = 5 /\ HasAlias(p))
    [] p.t \in AckTypes ->
         \/ p.cmd \notin AckTypes
         \/ v = 5 /\ ~(\/ p.cmd \in FamilyA /\ p.a # <<>> /\ p.c = <<>>
                       \/ p.cmd \in FamilyC /\ p.a = <<>> /\ p.c # <<>>)
    [] p.t = "subscribe" ->
         \/ p.subs = <<>>
         \/ \E j \in 1..Len(p.subs) :
              \/ p.subs[j].topic = <<>> \/ TooLong(p.subs[j].topic)
              \/ v = 5 /\ (p.subs[j].rh = <<>> \/ p.subs[j].rh[1] > 2)
    [] p.t = "suback" -> (IF v = 5 THEN p.codes ELSE p.granted) = <<>>
    [] p.t = "unsubscribe" ->
         \/ p.topics = <<>> \/ \E j \in 1..Len(p.topics) : TooLong(p.topics[j])
    [] p.t = "auth" -> v # 5
    [] OTHER -> FALSE

(* "err": has no representation, must be refused                               *)
(* "ok":  has a strictly valid one, must be accepted                           *)
(* "may": only representable as something a strict reader would refuse         *)
EncClass(p, v) ==
  IF EncBad(p, v) THEN "err"
  ELSE LET d == Decode(Enc(p, v), v) IN IF d.r = "ok" THEN "ok" ELSE "may"

------------------------------------------------------------------------------
(* what of a packet survives at version v *)

NormProps(v, props) ==
  IF v # 5 \/ props = <<>> THEN <<>>
  ELSE LET r == props[1]
           u == [r EXCEPT !.up = {x \in r.up : x.vs # <<>>}]
       IN <<IF "dflt" \in DOMAIN u THEN [u EXCEPT !.dflt = FALSE] ELSE u>>

Norm(p, v) ==
  CASE p.t = "connect" ->
         [p EXCEPT !.props = NormProps(p.ver, @),
                   !.will = IF @ = <<>> THEN <<>>
                            ELSE <<[@[1] EXCEPT !.payload = IF @ = <<>> THEN <<<<>>>> ELSE @,
                                                !.props = NormProps(p.ver, @)]>>]
    [] p.t = "connack" ->
         [p EXCEPT !.props = NormProps(v, @), !.ret = IF v = 5 THEN <<>> ELSE @,
                   !.rea = IF v = 5 THEN @ ELSE <<>>]
    [] p.t = "publish" ->
         [p EXCEPT !.props = NormProps(v, @), !.mid = IF p.qos = 0 THEN <<>> ELSE @]
    [] p.t \in AckTypes ->
         [p EXCEPT !.t = p.cmd, !.props = NormProps(v, @),
                   !.a = IF v = 5 THEN @ ELSE <<>>, !.c = IF v = 5 THEN @ ELSE <<>>]
    [] p.t = "subscribe" ->
         [p EXCEPT !.qos = 1, !.props = NormProps(v, @),
                   !.subs = [j \in 1..Len(@) |->
                               IF v = 5 THEN @[j]
                               ELSE [@[j] EXCEPT !.nl = FALSE, !.rap = FALSE, !.rh = <<>>]]]
    [] p.t = "suback" ->
         [p EXCEPT !.rea = <<>>, !.props = NormProps(v, @),
                   !.codes = IF v = 5 THEN @ ELSE <<>>,
                   !.granted = IF v = 5 THEN <<>> ELSE @]
    [] p.t = "unsubscribe" -> [p EXCEPT !.qos = 1, !.props = NormProps(v, @)]
    [] p.t = "unsuback" ->
         [p EXCEPT !.props = NormProps(v, @), !.codes = IF v = 5 THEN @ ELSE <<>>]
    [] p.t = "disconnect" ->
         [p EXCEPT !.props = NormProps(v, @),
                   !.code = IF v # 5 THEN <<>>
                            ELSE IF @ = <<>> THEN <<"NormalDisconnection">> ELSE @]
    [] p.t = "auth" -> [p EXCEPT !.props = NormProps(v, @)]
    [] OTHER -> p

(* equality up to "an empty property set versus none" (a set in which every    *)
(* property has its default says the same as no set) and bookkeeping flags     *)
NoFlag(r) == IF "dflt" \in DOMAIN r THEN [r EXCEPT !.dflt = FALSE] ELSE r
SquashProps(sec, props) ==
  IF props = <<>> \/ NoFlag(props[1]) = Defaults[sec] THEN <<>>
  ELSE <<NoFlag(props[1])>>
Squash(p) ==
  IF p.t \in {"pingreq", "pingresp"} THEN p
  ELSE IF p.t = "connect"
  THEN [p EXCEPT !.props = SquashProps("connect", @),
                 !.will = IF @ = <<>> THEN <<>>
                          ELSE <<[@[1] EXCEPT !.props = SquashProps("will", @)]>>]
  ELSE [p EXCEPT !.props = SquashProps(SectionOf(p.t), @)]
Same(p, q) == Squash(p) = Squash(q)
=============================================================================
