------------------------------ MODULE MqttProps ------------------------------
(* MQTT 5 properties: which identifier is allowed in which section, its data   *)
(* type, the field it fills and the value that field has when it is absent.    *)
EXTENDS MqttBytes, MqttCodes, TLC

(* k: "val"  always has a value (default when absent)                          *)
(*    "opt"  <<>> when absent, <<value>> when present                          *)
(*    "list" every occurrence in order                                         *)
(*    "map"  user properties: a set of [k, vs], vs the values of key k in order*)
F(f, ty, k) == [f |-> f, ty |-> ty, k |-> k]

UP == 38 :> F("up", "pair", "map")
RS == 31 :> F("rs", "str", "opt")

Sections ==
  [ connect |-> 17 :> F("sei", "u32", "val") @@ 33 :> F("rm", "u16", "val")
             @@ 39 :> F("mps", "u32", "opt") @@ 34 :> F("tam", "u16", "val")
             @@ 25 :> F("rri", "bool", "val") @@ 23 :> F("rpi", "bool", "val")
             @@ 21 :> F("am", "str", "opt") @@ 22 :> F("ad", "tbin", "opt") @@ UP,
    will |->    24 :> F("wdi", "u32", "val") @@ 1 :> F("pfi", "bool", "val")
             @@ 2 :> F("mei", "u32", "opt") @@ 3 :> F("ct", "str", "opt")
             @@ 8 :> F("rt", "str", "opt") @@ 9 :> F("cd", "bin", "val") @@ UP,
    connack |-> 17 :> F("sei", "u32", "val") @@ 33 :> F("rm", "u16", "val")
             @@ 36 :> F("mq", "u8", "val") @@ 37 :> F("ra", "bool", "val")
             @@ 39 :> F("mps", "u32", "opt") @@ 18 :> F("aci", "str", "opt")
             @@ 34 :> F("tam", "u16", "val") @@ RS @@ UP
             @@ 40 :> F("wsa", "bool", "val") @@ 41 :> F("sia", "bool", "val")
             @@ 42 :> F("ssa", "bool", "val") @@ 19 :> F("ska", "u16", "opt")
             @@ 26 :> F("ri", "str", "opt") @@ 28 :> F("sr", "str", "opt")
             @@ 21 :> F("am", "str", "opt") @@ 22 :> F("ad", "tbin", "opt"),
    publish |-> 1 :> F("pfi", "bool", "val") @@ 2 :> F("mei", "u32", "opt")
             @@ 35 :> F("ta", "u16", "opt") @@ 8 :> F("rt", "str", "opt")
             @@ 9 :> F("cd", "bin", "val") @@ UP
             @@ 11 :> F("sids", "var", "list") @@ 3 :> F("ct", "str", "opt"),
    ack |->     RS @@ UP,        \* PUBACK PUBREC PUBREL PUBCOMP SUBACK UNSUBACK
    subscribe |-> 11 :> F("sid", "var", "val") @@ UP,
    unsubscribe |-> UP,
    disconnect |-> 17 :> F("sei", "u32", "opt") @@ RS @@ UP
             @@ 28 :> F("sr", "str", "opt"),
    auth |->    21 :> F("am", "str", "val") @@ 22 :> F("ad", "tbin", "opt") @@ RS @@ UP ]

(* The type "tbin" is binary data that the library keeps in a text string: it  *)
(* can only refuse what is not UTF-8, which the tag says (a known finding).    *)

Z32 == <<0, 0>>
Defaults ==
  [ connect |-> [sei |-> Z32, rm |-> 65535, mps |-> <<>>, tam |-> 0, rri |-> FALSE,
                 rpi |-> TRUE, am |-> <<>>, ad |-> <<>>, up |-> {}],
    will |->    [wdi |-> Z32, pfi |-> FALSE, mei |-> <<>>, ct |-> <<>>, rt |-> <<>>,
                 cd |-> <<>>, up |-> {}],
    connack |-> [sei |-> Z32, rm |-> 65535, mq |-> 2, ra |-> TRUE, mps |-> <<>>,
                 aci |-> <<>>, tam |-> 0, rs |-> <<>>, up |-> {}, wsa |-> TRUE,
                 sia |-> TRUE, ssa |-> TRUE, ska |-> <<>>, ri |-> <<>>, sr |-> <<>>,
                 am |-> <<>>, ad |-> <<>>, dflt |-> FALSE],
    publish |-> [pfi |-> FALSE, mei |-> <<>>, ta |-> <<>>, rt |-> <<>>, cd |-> <<>>,
                 up |-> {}, sids |-> <<>>, ct |-> <<>>],
    ack |->     [rs |-> <<>>, up |-> {}],
    subscribe |-> [sid |-> Z32, up |-> {}],
    unsubscribe |-> [up |-> {}],
    disconnect |-> [sei |-> <<>>, rs |-> <<>>, up |-> {}, sr |-> <<>>],
    auth |->    [am |-> <<>>, ad |-> <<>>, rs |-> <<>>, up |-> {}] ]

SectionOf(t) ==
  IF t \in AckTypes \cup {"suback", "unsuback"} THEN "ack" ELSE t

AllPropIds == UNION {DOMAIN Sections[s] : s \in DOMAIN Sections}

(* one identifier always means the same data type (and nearly always the same  *)
(* field) wherever it is allowed                                               *)
WireType(ty) == IF ty = "tbin" THEN "bin" ELSE ty
PropTablesOk ==
  /\ \A s1, s2 \in DOMAIN Sections :
       \A id \in DOMAIN Sections[s1] \cap DOMAIN Sections[s2] :
         WireType(Sections[s1][id].ty) = WireType(Sections[s2][id].ty)
  /\ \A s \in DOMAIN Sections :
       /\ \A i, j \in DOMAIN Sections[s] : Sections[s][i].f = Sections[s][j].f => i = j
       /\ {Sections[s][i].f : i \in DOMAIN Sections[s]} \cup {"dflt"}
            = DOMAIN Defaults[s] \cup {"dflt"}

------------------------------------------------------------------------------
(* reading *)

(* binary data that the library stores as text *)
NotText == {"authentication data", "password", "will payload"}
ReadTextBin(b, i, e, what) ==
  LET r == ReadBin(b, i, e) IN
  IF ~r.ok THEN Fail ELSE IF ~Utf8Valid(b, i + 2, r.i - 1) THEN [r EXCEPT !.lax = {what}] ELSE r

ReadVarH(b, i, e) ==     \* variable integer as 32-bit halves
  LET r == ReadVar(b, i, e) IN
  IF ~r.ok THEN Fail ELSE [r EXCEPT !.val = IntToHalves(r.val)]

ReadPair(b, i, e) ==
  LET k == ReadStr(b, i, e) IN
  IF ~k.ok THEN Fail ELSE
  LET v == ReadStr(b, k.i, e) IN
  IF ~v.ok THEN Fail ELSE Got(<<k.val, v.val>>, v.i, k.lax \cup v.lax)

ReadTyped(b, i, e, ty) ==
  CASE ty = "u8" -> ReadU8(b, i, e)
    [] ty = "u16" -> ReadU16(b, i, e)
    [] ty = "u32" -> ReadU32(b, i, e)
    [] ty = "bool" -> ReadBool(b, i, e)
    [] ty = "str" -> ReadStr(b, i, e)
    [] ty = "bin" -> ReadBin(b, i, e)
    [] ty = "tbin" -> ReadTextBin(b, i, e, "authentication data")
    [] ty = "pass" -> ReadTextBin(b, i, e, "password")
    [] ty = "var" -> ReadVarH(b, i, e)
    [] ty = "pair" -> ReadPair(b, i, e)

(* entries of b[i..e]: sequence of [id, val]                                   *)
Entries(b, i, e, sec) ==
  LET entry(x, j, last) ==
        IF x[j] \notin DOMAIN Sections[sec] THEN Fail
        ELSE LET r == ReadTyped(x, j + 1, last, Sections[sec][x[j]].ty) IN
             IF ~r.ok THEN Fail ELSE Got([id |-> x[j], val |-> r.val], r.i, r.lax)
  IN ReadMany(b, i, e, 2, entry)

UpOfPairs(ps) ==
  {[k |-> key, vs |-> LET m == SelectSeq(ps, LAMBDA q : q[1] = key)
                      IN [j \in 1..Len(m) |-> m[j][2]]] :
     key \in {ps[j][1] : j \in 1..Len(ps)}}

Fill(sec, ents) ==
  LET ups == SelectSeq(ents, LAMBDA x : x.id = 38)
      rest == SelectSeq(ents, LAMBDA x : x.id # 38)
      set(rec, x) ==
        LET d == Sections[sec][x.id] IN
        CASE d.k = "val" -> [rec EXCEPT ![d.f] = x.val]
          [] d.k = "opt" -> [rec EXCEPT ![d.f] = <<x.val>>]
          [] OTHER -> [rec EXCEPT ![d.f] = Append(@, x.val)]
      base == FoldLeft(set, Defaults[sec], rest)
  IN IF ups = <<>> THEN base
     ELSE [base EXCEPT !.up = UpOfPairs([j \in 1..Len(ups) |-> ups[j].val])]

Count(ents, id) == Len(SelectSeq(ents, LAMBDA x : x.id = id))

(* property sets that are well-formed but forbidden by semantic rules          *)
PropLax(sec, ents, rec) ==
  (IF \E id \in {ents[j].id : j \in 1..Len(ents)} \ {38} :
        Sections[sec][id].k # "list" /\ Count(ents, id) > 1
   THEN {"dup"} ELSE {})
  \cup (IF \E j \in 1..Len(ents) : \/ ents[j].id \in {33, 35} /\ ents[j].val = 0
                                   \/ ents[j].id \in {39, 11} /\ ents[j].val = Z32
        THEN {"zero"} ELSE {})
  \cup (IF \E j \in 1..Len(ents) : ents[j].id = 36 /\ ents[j].val > 1
        THEN {"mq"} ELSE {})
  \cup (IF sec = "auth" /\ Count(ents, 21) = 0 THEN {"nomethod"} ELSE {})
  \cup (IF sec \in {"connect", "connack"} /\ Count(ents, 22) > 0 /\ Count(ents, 21) = 0
        THEN {"nomethod"} ELSE {})

(* a property section of type sec starting at i: <<>> when empty, else <<rec>> *)
ReadProps(b, i, e, sec) ==
  LET n == ReadVar(b, i, e) IN
  IF ~n.ok THEN Fail
  ELSE IF n.i + n.val - 1 > e THEN Fail
  ELSE IF n.val = 0 THEN Got(<<>>, n.i, n.lax)
  ELSE LET x == Entries(b, n.i, n.i + n.val - 1, sec) IN
       IF ~x.ok THEN Fail
       ELSE LET rec == Fill(sec, x.val) IN
            Got(<<rec>>, x.i, n.lax \cup x.lax \cup PropLax(sec, x.val, rec))

------------------------------------------------------------------------------
(* writing (canonical order: ascending identifiers, user properties last)      *)

WriteTyped(v, ty) ==
  CASE ty = "u8" -> U8(v)
    [] ty = "u16" -> U16(v)
    [] ty = "u32" -> U32(v)
    [] ty = "bool" -> U8(BoolByte(v))
    [] ty \in {"str", "bin", "tbin"} -> Bin(v)
    [] ty = "var" -> Var(HalvesToInt(v))

WriteUp(up) ==
  LET one(x) == Cat([n \in 1..Len(x.vs) |-> <<38>> \o Str(x.k) \o Str(x.vs[n])])
  IN FoldLeft(LAMBDA a, x : a \o one(x), <<>>, SetToSeq(up))

(* fields are written unless they have their default value; AUTH always names  *)
(* its method                                                                  *)
WriteField(sec, rec, id) ==
  LET d == Sections[sec][id]
      v == rec[d.f] IN
  CASE d.k = "map" -> <<>>
    [] d.k = "list" -> Cat([j \in 1..Len(v) |-> <<id>> \o WriteTyped(v[j], d.ty)])
    [] d.k = "opt" -> IF v = <<>> THEN <<>> ELSE <<id>> \o WriteTyped(v[1], d.ty)
    [] OTHER -> IF v = Defaults[sec][d.f] /\ id # 21 THEN <<>>
                ELSE <<id>> \o WriteTyped(v, d.ty)

AscIds(sec) == SetToSortSeq(DOMAIN Sections[sec], LAMBDA x, y : x < y)

PropBytes(sec, rec) ==
  Cat([j \in 1..Len(AscIds(sec)) |-> WriteField(sec, rec, AscIds(sec)[j])])
  \o WriteUp(rec.up)

(* the section: length and contents; <<>> stands for "no properties"           *)
WriteProps(sec, props) ==
  LET c == IF props = <<>> THEN <<>> ELSE PropBytes(sec, props[1])
  IN Var(Len(c)) \o c
=============================================================================
