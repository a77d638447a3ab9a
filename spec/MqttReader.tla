------------------------------ MODULE MqttReader ------------------------------
(* The byte reader: what every operation must give.                            *)
(* State [pos, st, live]: bytes consumed, the ends (absolute positions) of the *)
(* active limits, outermost first, and whether everything is still determined  *)
(* (after the stream ends in the middle of a value it is not).                 *)
(* An operation is [op, n]; its expectation is [k, x, s]: succeed with the     *)
(* value x, fail, or anything; and the next state.                             *)
EXTENDS MqttPackets

RdStart == [pos |-> 0, st |-> <<>>, live |-> TRUE]
RdLimit(s) == IF s.st = <<>> THEN -1 ELSE Last(s.st)

WantOk(val, s) == [k |-> "ok", x |-> val, s |-> s]
WantErr(s) == [k |-> "err", x |-> 0, s |-> s]
WantAny(s) == [k |-> "any", x |-> 0, s |-> s]

(* the entries of a property section of no particular packet: every identifier *)
(* of MQTT 5 with its data type                                                *)
TypeOfProp == [id \in AllPropIds |->
  LET sec == CHOOSE x \in DOMAIN Sections : id \in DOMAIN Sections[x] IN Sections[sec][id].ty]
AnyEntries(b, i, e) ==
  LET entry(x, j, last) ==
        IF x[j] \notin AllPropIds THEN Fail
        ELSE LET r == ReadTyped(x, j + 1, last, TypeOfProp[x[j]]) IN
             IF ~r.ok THEN Fail ELSE Got(<<x[j], r.val>>, r.i, r.lax)
  IN ReadMany(b, i, e, 2, entry)
(* user properties are collected, the others come in order *)
AnyProps(ents) ==
  LET ups == SelectSeq(ents, LAMBDA x : x[1] = 38) IN
  [list |-> SelectSeq(ents, LAMBDA x : x[1] # 38),
   up |-> UpOfPairs([j \in 1..Len(ups) |-> ups[j][2]])]

HeaderSays(x, n) ==
  [t |-> HeaderType(x), dup |-> Bit(x, 3), qos |-> (x \div 2) % 4, retain |-> Bit(x, 0), len |-> n]

RdApply(b, s, o) ==
  LET lim == RdLimit(s)
      end == IF lim = -1 THEN Len(b) ELSE Min2(lim, Len(b))
      i == s.pos + 1
      stop == [s EXCEPT !.live = FALSE]
      (* exactly n bytes: refused by a limit it takes nothing *)
      plain(n, q) ==
        IF lim # -1 /\ s.pos + n > lim THEN WantErr(s)
        ELSE IF s.pos + n > Len(b) THEN WantErr(stop)
        ELSE WantOk(q.val, [s EXCEPT !.pos = @ + n])
      compound(q) ==
        IF q.ok THEN WantOk(q.val, [s EXCEPT !.pos = q.i - 1]) ELSE WantErr(stop)
  IN
  CASE o.op = "take" ->
         LET e == s.pos + o.n IN
         WantOk(TRUE, [s EXCEPT !.st = Append(@, IF lim = -1 THEN e ELSE Min2(e, lim))])
    [] o.op = "reset" -> WantOk(TRUE, [s EXCEPT !.st = IF @ = <<>> THEN @ ELSE Front(@)])
    [] o.op = "len" -> plain(o.n, ReadRaw(b, i, Len(b), o.n))
    [] o.op = "u8" -> plain(1, ReadU8(b, i, Len(b)))
    [] o.op = "bool" -> plain(1, ReadBool(b, i, Len(b)))
    [] o.op = "u16" -> plain(2, ReadU16(b, i, Len(b)))
    [] o.op = "u32" -> plain(4, ReadU32(b, i, Len(b)))
    [] o.op = "var" -> compound(ReadVar(b, i, end))
    [] o.op = "str" -> compound(ReadStr(b, i, end))
    [] o.op = "bin" -> compound(ReadBin(b, i, end))
    [] o.op = "more" -> WantOk(s.pos < end, s)
    [] o.op = "consume" ->
         IF lim = -1 THEN WantErr(s)
         ELSE plain(lim - s.pos, ReadRaw(b, i, Len(b), lim - s.pos))
    (* first byte and remaining length of a packet, and a limit for the rest of *)
    (* it; the packet of a header that is refused is skipped                     *)
    [] o.op = "header" ->
         IF i > end THEN WantErr(IF lim # -1 /\ s.pos + 1 > lim THEN s ELSE stop)
         ELSE LET n == ReadVar(b, i + 1, end) IN
              IF ~n.ok THEN WantErr(stop)
              ELSE IF HeaderType(b[i]) = "reserved" \/ HeaderOld(b[i]) THEN WantAny(stop)
              ELSE LET next == n.i - 1 + n.val IN
                   IF HeaderOk(b[i])
                   THEN WantOk(HeaderSays(b[i], n.val),
                               [s EXCEPT !.pos = n.i - 1,
                                         !.st = Append(@, IF lim = -1 THEN next ELSE Min2(next, lim))])
                   ELSE IF lim # -1 \/ next > Len(b) THEN WantErr(stop)
                   ELSE WantErr([s EXCEPT !.pos = next])
    (* a property section: its length is a limit around it *)
    [] o.op = "props" ->
         LET n == ReadVar(b, i, end) IN
         IF ~n.ok THEN WantErr(stop)
         ELSE LET last == n.i - 1 + n.val IN
              IF last > end THEN WantErr(stop)
              ELSE LET x == AnyEntries(b, n.i, last) IN
                   IF ~x.ok THEN WantErr(stop)
                   ELSE IF x.lax \cap NotText # {} THEN WantAny(stop)
                   ELSE WantOk(AnyProps(x.val), [s EXCEPT !.pos = last])

(* invariants of the abstract reader *)
RdInv(b, s) ==
  /\ s.pos <= Len(b)
  /\ \A j \in 1..Len(s.st) : s.live => s.pos <= s.st[j]
  /\ \A j \in 1..(Len(s.st) - 1) : s.st[j] >= s.st[j + 1]
=============================================================================
