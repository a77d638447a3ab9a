------------------------------ MODULE MqttModel ------------------------------
(* A finite space of packets for model checking: for every control packet some *)
(* base packets and, for every field, the values worth telling apart.          *)
EXTENDS MqttPackets

X(n) == [j \in 1..n |-> 120]

(* text of characters of one to four bytes, with a byte order mark *)
Multi == <<239, 187, 191, 97, 195, 169, 226, 130, 172, 240, 159, 152, 128>>

(* values by data type; the first one is the one a full base packet has *)
Strs == <<<<97>>, <<>>, Multi, X(124), X(125)>>
Bins == <<<<0, 255, 128>>, <<>>, X(124), X(125)>>
U16s == <<258, 0, 1, 255, 256, 65535>>
U32s == <<<<258, 772>>, <<0, 0>>, <<0, 1>>, <<0, 65535>>, <<1, 0>>, <<65535, 65535>>>>
Vars == <<<<0, 300>>, <<0, 0>>, <<0, 1>>, <<0, 127>>, <<0, 128>>, <<0, 16383>>, <<0, 16384>>,
          <<31, 65535>>, <<32, 0>>, <<4095, 65535>>, <<4096, 0>>>>
Bools == <<TRUE, FALSE>>
Kv(k, vs) == [k |-> k, vs |-> vs]
Ups == << {Kv(<<107>>, <<<<118>>>>)}, {}, {Kv(<<107>>, <<<<118>>, <<119>>, <<118>>>>)},
          {Kv(<<98>>, <<<<49>>>>), Kv(<<97>>, <<<<50>>, <<>>>>)}, {Kv(<<>>, <<<<>>>>)},
          {Kv(<<107>>, <<>>)}, {Kv(Multi, <<X(112)>>)} >>

ValuesOf(ty) ==
  CASE ty \in {"str", "tbin"} -> Strs
    [] ty = "bin" -> Bins
    [] ty = "u8" -> <<1, 0, 2, 3, 255>>
    [] ty = "u16" -> U16s
    [] ty = "u32" -> U32s
    [] ty = "bool" -> Bools
    [] ty = "var" -> Vars
    [] ty = "pair" -> Ups

Opt(vs) == [j \in 1..(Len(vs) + 1) |-> IF j <= Len(vs) THEN <<vs[j]>> ELSE <<>>]

(* values of a field of a property section *)
FieldValues(d) ==
  LET vs == ValuesOf(d.ty) IN
  CASE d.k = "opt" -> Opt(vs)
    [] d.k = "list" -> Opt(vs) \o << <<vs[4], vs[3], vs[4]>>, <<vs[5], vs[11]>> >>
    [] d.k = "map" -> vs
    [] OTHER -> IF d.f = "rm" THEN vs ELSE vs

(* a deviation: where "top", "p" (properties), "will" or "wp" (will properties) *)
Dev(w, f, vals) == [w |-> w, f |-> f, vals |-> vals]

SectionDevs(w, sec) ==
  [j \in 1..Len(AscIds(sec)) |->
     LET d == Sections[sec][AscIds(sec)[j]] IN Dev(w, d.f, FieldValues(d))]

CodeSeq(tab) == SetToSortSeq(DOMAIN tab, LAMBDA x, y : tab[x] < tab[y])
CodeLists(tab) ==
  LET c == CodeSeq(tab) IN
  [j \in 1..Len(c) |-> <<c[j]>>]
  \o << <<c[2], c[1], c[Len(c)]>>, <<>>, [j \in 1..123 |-> c[1]], [j \in 1..125 |-> c[2]] >>

Sub(tp, q, nl, rap, rh) == [topic |-> tp, qos |-> q, nl |-> nl, rap |-> rap, rh |-> rh]
SubLists ==
  << <<Sub(<<116>>, "QoS1", TRUE, TRUE, <<2>>)>>,
     <<Sub(<<116>>, "QoS0", FALSE, FALSE, <<0>>)>>, <<Sub(<<116>>, "QoS2", FALSE, TRUE, <<1>>)>>,
     <<Sub(<<116>>, "QoS0", TRUE, FALSE, <<1>>)>>, <<Sub(<<116>>, "QoS1", FALSE, FALSE, <<>>)>>,
     <<Sub(<<116>>, "QoS1", FALSE, FALSE, <<3>>)>>, <<Sub(<<>>, "QoS1", FALSE, FALSE, <<0>>)>>,
     <<Sub(<<97>>, "QoS0", FALSE, FALSE, <<2>>), Sub(Multi, "QoS2", TRUE, TRUE, <<0>>),
       Sub(<<97>>, "QoS1", TRUE, FALSE, <<1>>)>>,
     <<Sub(<<97>>, "QoS0", FALSE, FALSE, <<0>>), Sub(<<>>, "QoS0", FALSE, FALSE, <<0>>)>>,
     <<Sub(X(121), "QoS0", FALSE, FALSE, <<0>>)>>, <<Sub(X(122), "QoS0", FALSE, FALSE, <<0>>)>>,
     <<>> >>

TopDevs(t) ==
  CASE t = "connect" ->
         << Dev("top", "cid", Strs), Dev("top", "ver", <<5, 4, 3, 2, 6, 133>>),
            Dev("top", "proto", <<"MQTT", "MQIsdp">>), Dev("top", "clean", Bools),
            Dev("top", "ka", U16s), Dev("top", "user", Opt(Strs)),
            Dev("top", "pass", Opt(Strs)),
            Dev("will", "topic", Opt(Strs)), Dev("will", "payload", Opt(Strs)),
            Dev("will", "qos", <<1, 0, 2, 3, 255>>), Dev("will", "retain", Bools) >>
         \o SectionDevs("wp", "will")
         \o << Dev("will", "props", <<<<>>>>), Dev("top", "will", <<<<>>>>) >>
    [] t = "connack" ->
         << Dev("top", "ret", Opt(<<5, 0, 1, 6, 255>>)),
            Dev("top", "rea", Opt(<<128, 0, 1, 159, 255>>)), Dev("top", "sp", Bools) >>
    [] t = "publish" ->
         << Dev("top", "dup", Bools), Dev("top", "qos", <<1, 0, 2, 3, 4, 255>>),
            Dev("top", "retain", Bools), Dev("top", "topic", Strs),
            Dev("top", "mid", Opt(U16s)), Dev("top", "payload", Bins) >>
    [] t \in AckTypes ->
         << Dev("top", "cmd", <<t, "puback", "pubrec", "pubrel", "pubcomp", "publish", "reserved">>),
            Dev("top", "a", Opt(CodeSeq(PubackCodes))),
            Dev("top", "c", Opt(CodeSeq(PubcompCodes))), Dev("top", "mid", U16s) >>
    [] t = "subscribe" ->
         << Dev("top", "qos", <<1, 0, 2, 255>>), Dev("top", "mid", U16s),
            Dev("top", "subs", SubLists) >>
    [] t = "suback" ->
         << Dev("top", "rea", Opt(<<128, 0>>)), Dev("top", "mid", U16s),
            Dev("top", "codes", CodeLists(SubackCodes)),
            Dev("top", "granted", CodeLists(GrantedCodes)) >>
    [] t = "unsubscribe" ->
         << Dev("top", "qos", <<1, 0, 2, 255>>), Dev("top", "mid", U16s),
            Dev("top", "topics", << <<<<116>>>>, <<<<97>>, Multi, <<97>>>>, <<<<>>>>,
                                    <<<<97>>, <<>>>>, <<X(122)>>, <<X(123)>>, <<>> >>) >>
    [] t = "unsuback" ->
         << Dev("top", "mid", U16s), Dev("top", "codes", CodeLists(UnsubackCodes)) >>
    [] t = "disconnect" -> << Dev("top", "code", Opt(CodeSeq(DisconnectCodes))) >>
    [] t = "auth" -> << Dev("top", "code", CodeSeq(AuthCodes)) >>
    [] OTHER -> <<>>

Devs(t) ==
  IF t \in {"pingreq", "pingresp"} THEN <<>>
  ELSE TopDevs(t) \o SectionDevs("p", SectionOf(t)) \o <<Dev("top", "props", <<<<>>>>)>>

Put(p, d, val) ==
  CASE d.w = "top" -> [p EXCEPT ![d.f] = val]
    [] d.w = "p" -> IF p.props = <<>> THEN p
                    ELSE [p EXCEPT !.props = <<[@[1] EXCEPT ![d.f] = val]>>]
    [] d.w = "will" -> IF p.will = <<>> THEN p
                       ELSE [p EXCEPT !.will = <<[@[1] EXCEPT ![d.f] = val]>>]
    [] d.w = "wp" -> IF p.will = <<>> THEN p
                     ELSE IF p.will[1].props = <<>> THEN p
                     ELSE [p EXCEPT !.will = <<[@[1] EXCEPT !.props = <<[@[1] EXCEPT ![d.f] = val]>>]>>]

(* the smallest packet of each type, with property sets that say nothing *)
Lean(t) ==
  LET ps == <<Defaults[SectionOf(t)]>> IN
  CASE t = "connect" ->
         [t |-> t, cid |-> <<99>>, ver |-> 5, proto |-> "MQTT", clean |-> FALSE, ka |-> 0,
          user |-> <<>>, pass |-> <<>>,
          will |-> <<[topic |-> <<<<119>>>>, payload |-> <<<<>>>>, qos |-> 0, retain |-> FALSE,
                      props |-> <<Defaults["will"]>>]>>,
          props |-> ps]
    [] t = "connack" -> [t |-> t, ret |-> <<0>>, rea |-> <<0>>, sp |-> FALSE, props |-> ps]
    [] t = "publish" ->
         [t |-> t, dup |-> FALSE, qos |-> 0, retain |-> FALSE, topic |-> <<116>>, mid |-> <<>>,
          payload |-> <<>>, props |-> ps]
    [] t \in AckTypes ->
         [t |-> t, cmd |-> t, a |-> IF t \in FamilyA THEN <<"Success">> ELSE <<>>,
          c |-> IF t \in FamilyC THEN <<"Success">> ELSE <<>>, mid |-> 1, props |-> ps]
    [] t = "subscribe" ->
         [t |-> t, qos |-> 1, mid |-> 1, props |-> ps,
          subs |-> <<Sub(<<116>>, "QoS0", FALSE, FALSE, <<0>>)>>]
    [] t = "suback" ->
         [t |-> t, rea |-> <<>>, mid |-> 1, props |-> ps, codes |-> <<"GrantedQoS0">>,
          granted |-> <<"QoS0">>]
    [] t = "unsubscribe" -> [t |-> t, qos |-> 1, mid |-> 1, props |-> ps, topics |-> <<<<116>>>>]
    [] t = "unsuback" -> [t |-> t, mid |-> 1, props |-> ps, codes |-> <<"Success">>]
    [] t = "disconnect" -> [t |-> t, code |-> <<"NormalDisconnection">>, props |-> ps]
    [] t = "auth" ->
         [t |-> t, code |-> "ContinueAuthentication",
          props |-> <<[Defaults["auth"] EXCEPT !.am = <<109>>]>>]
    [] OTHER -> [t |-> t]

(* every field set to the first of its values *)
Full(t) ==
  FoldLeft(LAMBDA p, d : IF d.f \in {"props", "will"} THEN p ELSE Put(p, d, d.vals[1]),
           Lean(t), Devs(t))

Bases == {"lean", "full"}
Base(t, b) == IF b = "lean" THEN Lean(t) ELSE Full(t)

(* an acknowledgement of family C has no code of family A and the other way *)
Tidy(p) ==
  IF p.t \in FamilyA THEN [p EXCEPT !.c = <<>>]
  ELSE IF p.t \in FamilyC THEN [p EXCEPT !.a = <<>>] ELSE p

(* the packet at a point of the space: ds is a sequence of <<field, value>>    *)
(* with ascending fields                                                       *)
At(t, b, ds) ==
  FoldLeft(LAMBDA p, d : Put(p, Devs(t)[d[1]], Devs(t)[d[1]].vals[d[2]]), Tidy(Base(t, b)), ds)
=============================================================================
