------------------------------ MODULE MqttWriter ------------------------------
(* The byte writer: every operation appends the encoding of its argument, or   *)
(* fails because there is none.  Only what was written in the end can be seen, *)
(* so the state of an observer is how far the output is explained: [i, live],  *)
(* the next byte of the output, and whether no operation failed so far (what   *)
(* an operation leaves behind that failed is not specified).                   *)
(* An operation is [op, x]:                                                    *)
(*   u8 u16       a number             u32 var len   a number in halves        *)
(*   str bin      length and bytes     raw           bytes as they are         *)
(*   sized        bytes with their length as a variable integer before them    *)
(*   header       [t, dup, qos, retain]                                        *)
(*   props        [list, up]: a sequence of [id, value], then user properties, *)
(*                a set of [k, vs]: the order of the keys is free              *)
EXTENDS MqttReader

WrStart == [i |-> 1, live |-> TRUE]

WrHeader(x) ==
  16 * PacketTypes[x.t] + (IF x.t = "publish" THEN 8 * BoolByte(x.dup) + 2 * x.qos + BoolByte(x.retain) ELSE FlagsOf(x.t))

Writable(ty, v) ==
  CASE ty \in {"str", "bin", "tbin"} -> Len(v) <= MaxField
    [] ty = "var" -> ~HalvesGt(v, VarMaxHalves)
    [] OTHER -> TRUE

WrCan(o) ==
  CASE o.op \in {"str", "bin"} -> Writable("bin", o.x)
    [] o.op \in {"var", "len"} -> Writable("var", o.x)
    [] o.op = "props" -> /\ \A j \in 1..Len(o.x.list) : Writable(TypeOfProp[o.x.list[j][1]], o.x.list[j][2])
                         /\ \A u \in o.x.up : /\ u.vs # <<>> => Writable("str", u.k)
                                              /\ \A j \in 1..Len(u.vs) : Writable("str", u.vs[j])
    [] OTHER -> TRUE

(* the bytes of an operation; of properties, up to the order of the keys *)
WrBytes(o) ==
  CASE o.op = "u8" -> U8(o.x)
    [] o.op = "u16" -> U16(o.x)
    [] o.op = "u32" -> U32(o.x)
    [] o.op \in {"var", "len"} -> Var(HalvesToInt(o.x))
    [] o.op \in {"str", "bin"} -> Bin(o.x)
    [] o.op = "raw" -> o.x
    [] o.op = "sized" -> Var(Len(o.x)) \o o.x
    [] o.op = "header" -> U8(WrHeader(o.x))
    [] o.op = "props" -> Cat([j \in 1..Len(o.x.list) |-> <<o.x.list[j][1]>> \o WriteTyped(o.x.list[j][2], TypeOfProp[o.x.list[j][1]])])
                         \o WriteUp(o.x.up)

(* keys without values have no bytes *)
Written(up) == {u \in up : u.vs # <<>>}

(* one operation with outcome k ("ok", "err"), the output being out *)
WrStep(out, s, o, k) ==
  IF ~s.live THEN <<"", s>>
  ELSE IF ~WrCan(o)
  THEN IF k = "ok" THEN <<"writes what has no encoding", s>> ELSE <<"", [s EXCEPT !.live = FALSE]>>
  ELSE IF k # "ok" THEN <<"refuses what has an encoding", s>>
  ELSE LET x == WrBytes(o)
           e == s.i + Len(x) - 1
           next == [s EXCEPT !.i = e + 1] IN
       IF e > Len(out) THEN <<"writes too little", s>>
       ELSE IF o.op = "props" /\ Cardinality(Written(o.x.up)) > 1
       THEN LET q == AnyEntries(out, s.i, e) IN
            IF ~q.ok THEN <<"writes other properties", s>>
            ELSE IF AnyProps(q.val) # [list |-> o.x.list, up |-> Written(o.x.up)] THEN <<"writes other properties", s>>
            ELSE <<"", next>>
       ELSE IF SubSeq(out, s.i, e) # x THEN <<"writes other bytes", s>> ELSE <<"", next>>

WrEnd(out, s) == IF s.live /\ s.i # Len(out) + 1 THEN "writes too much" ELSE ""
=============================================================================
