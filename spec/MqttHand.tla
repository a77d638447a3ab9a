------------------------------- MODULE MqttHand -------------------------------
(* The two levels of the interface.  A packet can be taken from the stream by  *)
(* the decoder (decode_packet) or by hand: read the header, let the packet     *)
(* type decode the rest, look at what is left of the packet (consume) and      *)
(* remove its limit.  Both may take turns on one stream.  Operations run on    *)
(* the reader as built - one current limit, a stack of what is left of the     *)
(* outer ones - one per transition.  Whoever takes a packet: it comes out as   *)
(* its bytes say, and the next one is found.                                   *)
(*   VARIANT  "" the design; "open" the property reader leaves its limit to    *)
(*            the decoder; "late" the decoder, not the header, limits the      *)
(*            packet; "spare" the decoder, not PUBLISH, takes the payload;     *)
(*            "early" the packet type removes the limit of the packet          *)
EXTENDS MqttPackets, Json, IOUtils, TLC

Num(name, max) == CHOOSE n \in 0..max : ToString(n) = IOEnv[name]
Emit == IOEnv.EMIT = "1"
Variant == IOEnv.VARIANT
Depth == Num("DEPTH", 4)
Thin == Num("THIN", 999)
Seed == IF \E n \in 0..9999 : ToString(n) = IOEnv.MSEED THEN Num("MSEED", 9999) ELSE 0

(* what packets of these types do with the reader: get n bytes; sect n: limit  *)
(* to the n bytes of the property section; end: of it; rest: the payload       *)
G(n) == [op |-> "get", n |-> n]
S(n) == [op |-> "sect", n |-> n]
End == [op |-> "end", n |-> 0]
Rest == [op |-> "rest", n |-> 0]
Body(x) == SubSeq(x, 3, Len(x))
Pk(v, b, ops) == [v |-> v, b |-> b, ops |-> ops]
Menu ==
  << Pk(5, <<192, 0>>, <<>>),
     Pk(4, <<208, 0>>, <<>>),
     Pk(4, <<224, 1, 0>>, <<>>),                                            \* a byte nobody reads
     Pk(5, <<64, 2, 0, 7>>, <<G(2)>>),
     Pk(5, <<64, 3, 0, 7, 16>>, <<G(2), G(1)>>),
     Pk(4, <<64, 3, 0, 7, 0>>, <<G(2)>>),
     Pk(4, <<64, 1, 0>>, <<G(2)>>),
     Pk(5, <<98, 9, 0, 7, 0, 5, 31, 0, 2, 97, 98>>, <<G(2), G(1), G(1), S(5), G(1), G(2), G(2), End>>),
     Pk(5, <<98, 8, 0, 7, 0, 5, 31, 0, 2, 97>>, <<G(2), G(1), G(1), S(5), G(1), G(2), G(2), End>>),
     Pk(5, <<98, 9, 0, 7, 0, 4, 31, 0, 2, 97, 98>>, <<G(2), G(1), G(1), S(4), G(1), G(2), G(2), End>>),
     Pk(5, <<112, 10, 0, 7, 0, 5, 31, 0, 2, 97, 98, 1>>, <<G(2), G(1), G(1), S(5), G(1), G(2), G(2), End>>),
     Pk(5, <<32, 6, 1, 0, 3, 33, 0, 9>>, <<G(1), G(1), G(1), S(3), G(1), G(2), End>>),
     Pk(5, <<224, 7, 0, 5, 17, 0, 0, 0, 9>>, <<G(1), G(1), S(5), G(1), G(4), End>>),
     Pk(5, <<176, 8, 0, 7, 4, 31, 0, 1, 97, 17>>, <<G(2), G(1), S(4), G(1), G(2), G(1), End, G(1)>>),
     Pk(5, <<130, 9, 0, 7, 2, 11, 5, 0, 1, 97, 1>>, <<G(2), G(1), S(2), G(1), G(1), End, G(2), G(1), G(1)>>),
     Pk(5, <<48, 8, 0, 1, 97, 2, 1, 1, 66, 67>>, <<G(2), G(1), G(1), S(2), G(1), G(1), End, Rest>>),
     Pk(5, <<48, 6, 0, 1, 97, 2, 1, 1>>, <<G(2), G(1), G(1), S(2), G(1), G(1), End, Rest>>),
     Pk(5, <<48, 8, 0, 1, 97, 1, 1, 1, 66, 67>>, <<G(2), G(1), G(1), S(1), G(1), G(1), End, Rest>>),
     Pk(5, <<48, 6, 0, 1, 97, 9, 1, 1>>, <<G(2), G(1), G(1), S(9), G(1), G(1), End, Rest>>),
     Pk(3, <<48, 5, 0, 1, 97, 66, 67>>, <<G(2), G(1), Rest>>),
     Pk(3, <<48, 3, 0, 9, 97>>, <<G(2), G(9), Rest>>),
     Pk(4, <<193, 1, 7>>, <<>>) >>

Good(p) == HeaderOk(p.b[1])
Says(p) == IF Decode(p.b, p.v).r = "ok" THEN "ok" ELSE "err"

(* script: packets, as places in the menu, and who takes them *)
VARIABLES script, how, at, pc, pos, cur, stk, out, over
vars == <<script, how, at, pc, pos, cur, stk, out, over>>
P == Menu[script[at]]
(* pc: -1 header, 0 and on: the next operation of the body; then finishing; -2 between packets *)

Init == /\ script = <<>> /\ how = <<>> /\ at = 0 /\ pc = -2 /\ pos = 0 /\ cur = -1 /\ stk = <<>>
        /\ out = <<>> /\ over = FALSE

Taken(n) == IF cur = -1 THEN [c |-> n, st |-> stk]
            ELSE LET m == Min2(n, cur) IN [c |-> m, st |-> Append(stk, cur - m)]
Popped(c, st) == IF st = <<>> THEN [c |-> -1, st |-> <<>>]
                 ELSE [c |-> IF c = -1 THEN Last(st) ELSE Last(st) + c, st |-> Front(st)]
RECURSIVE Sum(_)
Sum(st) == IF st = <<>> THEN 0 ELSE Head(st) + Sum(Tail(st))
RECURSIVE BytesTo(_)
BytesTo(k) == IF k = 0 THEN 0 ELSE BytesTo(k - 1) + Len(Menu[script[k]].b)
(* the packet is the last one so far: reads beyond it find nothing *)
Avail == BytesTo(Len(script)) - pos

Choose ==
  /\ pc = -2 /\ ~over /\ Len(script) < Depth
  /\ \E m \in 1..Len(Menu) : \E h \in {"dec", "hand"} :
       /\ IF script = <<>> THEN TRUE ELSE (m * 5 + Last(script) * 3 + Len(script) + (IF h = "dec" THEN 1 ELSE 0)
                                           + Cardinality({j \in DOMAIN how : how[j] = "hand"}) * 2 + Seed) % Thin = 0
       /\ script' = Append(script, m) /\ how' = Append(how, h)
  /\ at' = at + 1 /\ pc' = -1
  /\ UNCHANGED <<pos, cur, stk, out, over>>

Done(o, p, c, st, stop) ==
  /\ out' = Append(out, [k |-> o, pos |-> p]) /\ pos' = p /\ cur' = c /\ stk' = st /\ over' = stop /\ pc' = -2
  /\ UNCHANGED <<script, how, at>>

(* drop the limits of open sections, discard the rest, remove the limit *)
Finish(o, p, c, st) ==
  LET left == IF c = -1 /\ st = <<>> THEN -1 ELSE (IF c = -1 THEN 0 ELSE c) + Sum(st) IN
  IF left = -1 THEN Done("err", p, -1, <<>>, FALSE)
  ELSE Done(IF left > 0 /\ ~(Variant = "spare" /\ P.ops # <<>> /\ Last(P.ops) = Rest) THEN "err" ELSE o, p + left, -1, <<>>, FALSE)

Header ==
  /\ pc = -1
  /\ IF cur # -1 /\ cur < 2 THEN Done("err", pos, cur, stk, TRUE)
     ELSE LET n == P.b[2]
              c0 == IF cur = -1 THEN -1 ELSE cur - 2
              t == IF c0 = -1 THEN [c |-> n, st |-> stk]
                   ELSE [c |-> Min2(n, c0), st |-> Append(stk, c0 - Min2(n, c0))] IN
          IF ~Good(P) THEN Finish("err", pos + 2, t.c, t.st)
          ELSE /\ pc' = 0 /\ pos' = pos + 2
               /\ IF Variant = "late" /\ how[at] = "hand" THEN cur' = c0 /\ stk' = stk
                  ELSE cur' = t.c /\ stk' = t.st
               /\ UNCHANGED <<script, how, at, out, over>>

(* the packet type failed: the decoder tidies up, by hand the session is over *)
Failed == IF how[at] = "dec" THEN Finish("err", pos, cur, stk) ELSE Done("err", pos, cur, stk, TRUE)
Go(p, c, st) == pos' = p /\ cur' = c /\ stk' = st /\ pc' = pc + 1 /\ UNCHANGED <<script, how, at, out, over>>
Op ==
  /\ pc >= 0 /\ pc < Len(P.ops)
  /\ LET o == P.ops[pc + 1] IN
     CASE o.op = "get" -> IF (cur # -1 /\ cur < o.n) \/ Avail < o.n THEN Failed
                          ELSE Go(pos + o.n, IF cur = -1 THEN -1 ELSE cur - o.n, stk)
       [] o.op = "sect" -> IF cur # -1 /\ cur < o.n THEN Failed
                           ELSE LET t == Taken(o.n) IN Go(pos, t.c, t.st)
       [] o.op = "end" -> IF cur # 0 THEN Failed
                          ELSE IF Variant = "open" THEN Go(pos, cur, stk)
                          ELSE LET q == Popped(cur, stk) IN Go(pos, q.c, q.st)
       [] o.op = "rest" -> IF Variant = "spare" THEN Go(pos, cur, stk)
                           ELSE IF cur = -1 THEN Failed ELSE Go(pos + cur, 0, stk)
Close ==
  /\ pc >= 0 /\ pc = Len(P.ops)
  /\ LET e == IF Variant = "early" THEN Popped(cur, stk) ELSE [c |-> cur, st |-> stk] IN
     IF how[at] = "dec" THEN Finish("ok", pos, e.c, e.st)
     ELSE (* consume, one reset *)
          IF e.c = -1 THEN Done("err", pos, e.c, e.st, TRUE)
          ELSE LET q == Popped(0, e.st) IN
               Done(IF e.c > 0 THEN "err" ELSE "ok", pos + e.c, q.c, q.st, FALSE)

Next == Choose \/ Header \/ Op \/ Close
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* whoever takes the packet *)
Alike ==
  \A k \in DOMAIN out :
    /\ out[k].k = Says(Menu[script[k]])
    /\ (k < Len(out) \/ ~over) => out[k].pos = BytesTo(k)
(* and nothing of it stays behind *)
Clear == (pc = -2 /\ ~over) => (cur = -1 /\ stk = <<>>)

Out == (Emit /\ pc = -2 /\ out # <<>>) =>
         PrintT("GEN " \o ToJson([pk |-> [j \in DOMAIN script |-> Menu[script[j]].b],
                                  vs |-> [j \in DOMAIN script |-> Menu[script[j]].v],
                                  how |-> how, b |-> <<>>]))
=============================================================================
