------------------------------- MODULE MqttShare -------------------------------
(* Several users of the library at once: decoders, each with a stream of its   *)
(* own that arrives in pieces, and encoders.  A step of one of them is the     *)
(* start of a call or the arrival of the next piece while it waits; between    *)
(* any two steps any other may run - in another thread, or inside a reader     *)
(* that is itself fed by a decoder.  A state is where everybody is, and the    *)
(* schedule so far.                                                            *)
(*                                                                             *)
(* Checked: every call has the outcome it has alone.  Every complete schedule  *)
(* (thinned) is handed to the real library (lines GEN).                        *)
(*                                                                             *)
(*   VARIANT "" the design: nobody shares anything.  Designs that are wrong:   *)
(*     "buffer"   what has arrived of a packet is kept in one place for all    *)
(*     "scratch"  all packets are written in one place, which is not cleaned   *)
(*                when a packet is refused                                     *)
(*     "version"  the version of the last CONNECT applies to everybody         *)
(*     "count"    a call that overtakes another one takes its outcome          *)
EXTENDS MqttModel, Json, IOUtils

Num(name, max) == CHOOSE j \in 0..max : ToString(j) = IOEnv[name]
Users == Num("DEPTH", 9999)      \* how many groups of users
Thin == Num("THIN", 9999)
Seed == IF \E j \in 0..9999 : ToString(j) = IOEnv.MSEED THEN Num("MSEED", 9999) ELSE 0
Variant == IOEnv.VARIANT
Emit == IOEnv.EMIT = "1"

TypeList == <<"connect", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback",
              "unsubscribe", "unsuback", "pingreq", "pingresp", "disconnect", "auth">>
Vers(p, v) == IF p.t = "connect" THEN [p EXCEPT !.ver = v] ELSE p
Case(p, v) == [v |-> v, p |-> Vers(Tidy(p), v)]

(* packets to encode: every type, and some that are refused after a part of     *)
(* them could have been written                                                 *)
Refused ==
  << Case([Full("publish") EXCEPT !.qos = 1, !.mid = <<>>], 5),
     Case([Full("suback") EXCEPT !.codes = <<>>], 5),
     Case([Full("subscribe") EXCEPT !.subs = <<>>], 5),
     Case([Full("unsubscribe") EXCEPT !.topics = <<>>], 5),
     Case([Full("connect") EXCEPT !.ver = 7], 5),
     Case(Full("auth"), 4) >>
Encs ==
  FlattenSeq([j \in 1..15 |-> <<Case(Lean(TypeList[j]), 4), Case(Full(TypeList[j]), 5)>>]) \o Refused
EncOutcome(c) == IF EncBad(c.p, c.v) THEN [k |-> "err"] ELSE [k |-> "ok", b |-> Enc(c.p, c.v)]

(* packets to decode, and damaged ones; the last two never arrive whole          *)
Wire(c) == IF EncBad(c.p, c.v) THEN <<>> ELSE <<[v |-> c.v, b |-> Enc(c.p, c.v)]>>
Decs ==
  FlattenSeq([j \in 1..15 |-> Wire(Case(Lean(TypeList[j]), 4)) \o Wire(Case(Full(TypeList[j]), 5))])
  \o << [v |-> 5, b |-> <<48, 9, 0, 1, 97, 20, 1, 1, 2, 0, 0>>], [v |-> 5, b |-> <<48, 9, 0, 1, 97, 5, 38, 0, 9, 97, 98>>],
        [v |-> 4, b |-> <<54, 6, 0, 1, 97, 0, 1, 0>>], [v |-> 5, b |-> <<144, 4, 0, 1, 255, 255>>],
        [v |-> 4, b |-> <<0, 3, 1, 2, 3>>], [v |-> 5, b |-> <<50, 12, 0, 3, 97>>], [v |-> 4, b |-> <<16, 20, 0, 4, 77>>] >>
DecOutcome(x, v) == LET d == Decode(x, v) IN IF Decodes(d) THEN [k |-> "ok", p |-> d.p] ELSE [k |-> "err"]

(* TLC computes these once *)
EncMenu == Encs
DecMenu == Decs

------------------------------------------------------------------------------
(* the users of group x: what they do is picked by arithmetic on x              *)
Pick(x, y, m) == ((x * 131 + y * 53 + (x \div 7) * y * 17 + Seed * 29) % m) + 1
Whole(b) == LET f == Frame(b, 1, Len(b)) IN f.k = "full"
(* a stream of one or two packets; nothing follows one that is cut off           *)
DecUser(x, y, two) ==
  LET a == DecMenu[Pick(x, y, Len(DecMenu))]
      z == DecMenu[Pick(x, y + 3, Len(DecMenu) - 2)]
      ops == IF two /\ Whole(a.b) THEN <<a, z>> ELSE <<a>>
      cuts == {Pick(x, y + 5, Len(a.b)), Pick(x, y + 6, Len(a.b))}
      b == FlattenSeq([j \in 1..Len(ops) |-> ops[j].b])
      ends == SetToSortSeq((cuts \cup {Len(a.b), Len(b)}) \ {0}, <) IN
  [k |-> "dec", vs |-> [j \in 1..Len(ops) |-> ops[j].v], b |-> b,
   ps |-> <<>>, ends |-> ends,                                  \* up to where each piece goes
   upto |-> [j \in 1..Len(ops) |-> IF j = 1 THEN Len(a.b) ELSE Len(b)],
   alone |-> [j \in 1..Len(ops) |-> DecOutcome(ops[j].b, ops[j].v)]]
EncUser(x, y, many) ==
  LET ops == [j \in 1..many |-> EncMenu[Pick(x, y + 2 * j, Len(EncMenu))]] IN
  [k |-> "enc", vs |-> [j \in 1..many |-> ops[j].v], b |-> <<>>, ps |-> [j \in 1..many |-> ops[j].p], ends |-> <<>>,
   upto |-> <<>>, alone |-> [j \in 1..many |-> EncOutcome(ops[j])]]
Group(x) ==
  CASE x % 6 = 0 -> <<DecUser(x, 1, FALSE), DecUser(x, 11, FALSE), EncUser(x, 21, 2)>>
    [] x % 6 = 1 -> <<DecUser(x, 1, TRUE), EncUser(x, 11, 3)>>
    [] x % 6 = 2 -> <<EncUser(x, 1, 3), EncUser(x, 11, 3)>>
    [] x % 6 = 3 -> <<EncUser(x, 1, 4)>>
    [] OTHER -> <<DecUser(x, 1, TRUE), DecUser(x, 11, TRUE)>>

VARIABLES g,       \* the group
          u,       \* its users
          at,      \* per user: call it is in or about to start, whether it is in it, pieces arrived
          mem,     \* what the wrong designs share
          same,    \* whether the last call had the outcome it has alone
          sched
vars == <<g, u, at, mem, same, sched>>

Init == /\ g \in 1..Users
        /\ u = Group(g)
        /\ at = [i \in 1..Len(u) |-> [op |-> 1, in |-> FALSE, got |-> 0]]
        /\ mem = [buf |-> <<>>, left |-> <<>>, ver |-> 0, last |-> [k |-> "err"]]
        /\ same = TRUE
        /\ sched = <<>>

Done(i) == at[i].op > Len(u[i].vs)
Arrived(i, n) == IF n = 0 THEN 0 ELSE IF n > Len(u[i].ends) THEN Len(u[i].b) ELSE u[i].ends[n]

(* the bytes of the packet user i decodes, as the design has them *)
Have(i, n) ==
  LET from == IF at[i].op = 1 THEN 1 ELSE u[i].upto[at[i].op - 1] + 1
      to == IF Arrived(i, n) < u[i].upto[at[i].op] THEN Arrived(i, n) ELSE u[i].upto[at[i].op] IN
  SubSeq(u[i].b, from, to)
Finish(i, out) ==
  /\ at' = [at EXCEPT ![i].op = @ + 1, ![i].in = FALSE]
  /\ same' = (out = u[i].alone[at[i].op])

(* an encode call is one step *)
Encodes(i) ==
  LET c == [v |-> u[i].vs[at[i].op], p |-> u[i].ps[at[i].op]]
      o == EncOutcome(c)
      out == IF Variant = "scratch" /\ o.k = "ok" THEN [o EXCEPT !.b = mem.left \o @]
             ELSE IF Variant = "count" /\ \E j \in 1..Len(u) : at[j].in THEN mem.last ELSE o IN
  /\ u[i].k = "enc"
  /\ Finish(i, out)
  /\ mem' = [mem EXCEPT !.left = IF o.k = "err" THEN <<HeaderByte(c.p)>> ELSE <<>>, !.last = o]
  /\ at[i].got = at[i].got

(* a decode call begins, or its next piece (or the end of the stream) arrives *)
Decodes1(i) ==
  LET n == IF at[i].in THEN at[i].got + 1 ELSE at[i].got
      v == u[i].vs[at[i].op]
      had == IF at[i].in THEN Have(i, at[i].got) ELSE <<>>
      piece == SubSeq(Have(i, n), Len(had) + 1, Len(Have(i, n)))
      arrived == IF Arrived(i, n) >= u[i].upto[at[i].op] THEN Whole(Have(i, n)) \/ n > Len(u[i].ends)
                 ELSE FALSE
      b == IF Variant = "buffer" THEN mem.buf \o piece ELSE Have(i, n)
      ver == IF Variant = "version" /\ mem.ver # 0 THEN mem.ver ELSE v
      o == IF Len(b) > 300 THEN [k |-> "err"] ELSE DecOutcome(b, ver)
      out == IF Variant = "count" /\ \E j \in 1..Len(u) : at[j].in /\ j # i THEN mem.last ELSE o IN
  /\ u[i].k = "dec"
  /\ IF arrived
     THEN /\ at' = [at EXCEPT ![i].op = @ + 1, ![i].in = FALSE, ![i].got = n]
          /\ same' = (out = u[i].alone[at[i].op])
          /\ mem' = [mem EXCEPT !.last = out, !.buf = <<>>,
                                !.ver = IF o.k = "ok" THEN IF o.p.t = "connect" THEN o.p.ver ELSE @ ELSE @]
     ELSE /\ at' = [at EXCEPT ![i].in = TRUE, ![i].got = n]
          /\ same' = TRUE
          /\ mem' = IF Variant = "buffer" THEN [mem EXCEPT !.buf = @ \o piece] ELSE mem

Next == \E i \in 1..Len(u) :
          /\ ~Done(i)
          /\ IF u[i].k = "enc" THEN Encodes(i) ELSE Decodes1(i)
          /\ sched' = Append(sched, i)
          /\ UNCHANGED <<g, u>>

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Apart == same

(* nobody is left waiting: whoever is not done can take a step, and the number  *)
(* of steps is limited by the pieces and calls                                  *)
Steps == Len(sched) <= FoldLeft(LAMBDA a, i : a + Len(u[i].vs) + Len(u[i].ends) + 1, 0, [i \in 1..Len(u) |-> i])

Hash == FoldLeft(LAMBDA a, i : (a * 31 + i * 7) % 9973, g, sched)
Out ==
  IF ~Emit \/ \E i \in 1..Len(u) : ~Done(i) THEN TRUE
  ELSE IF Len(u) > 1 /\ Hash % Thin # 0 THEN TRUE
  ELSE PrintT("GEN " \o ToJson([us |-> [i \in 1..Len(u) |->
                [k |-> u[i].k, vs |-> u[i].vs, b |-> u[i].b, ps |-> u[i].ps,
                 sizes |-> [j \in 1..Len(u[i].ends) |-> u[i].ends[j] - (IF j = 1 THEN 0 ELSE u[i].ends[j - 1])]]],
              sched |-> sched]))
=============================================================================
