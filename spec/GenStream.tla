------------------------------- MODULE GenStream -------------------------------
(* Histories of a connection as a graph: a state is a sequence of packets on   *)
(* the wire - good ones, damaged ones, ones no decoder can get past - each     *)
(* with the version it is decoded at, and what follows the last one.  Checked  *)
(* on every state: the framing of the whole stream finds exactly these         *)
(* packets, and each of them decodes to the same as alone.  Every state is     *)
(* handed to the real decoder (lines GEN).                                     *)
EXTENDS MqttModel, Json, IOUtils

Num(name, max) == CHOOSE n \in 0..max : ToString(n) = IOEnv[name]
Depth == Num("DEPTH", 4)
Thin == Num("THIN", 9999)
Emit == IOEnv.EMIT
Seed == IF \E n \in 0..9999 : ToString(n) = IOEnv.MSEED THEN Num("MSEED", 9999) ELSE 0

Assemble(h, body) == <<h>> \o Var(Len(body)) \o body
BodyOf(x) == LET f == Frame(x, 1, Len(x)) IN SubSeq(x, f.bi, f.be)

(* every packet type, as small and as full as possible, and damaged ones *)
Damaged(x) ==
  LET c == BodyOf(x)
      n == Len(c)
      m == n \div 2 + 1 IN
  << Assemble(x[1], c \o <<0>>) >>                            \* a byte too many
  \o (IF n = 0 THEN <<>>
      ELSE << Assemble(x[1], SubSeq(c, 1, n - 1)),             \* a byte too few
              Assemble(x[1], SubSeq(c, 1, m - 1)),             \* half of it
              Assemble(x[1], [c EXCEPT ![m] = 255]) >>)        \* a wrong byte
At5(p, v) == IF p.t = "connect" THEN [p EXCEPT !.ver = v] ELSE p
Family(t, v) ==
  LET lean == At5(Tidy(Lean(t)), v)
      full == At5(Tidy(Full(t)), v)
      a == IF EncBad(lean, v) THEN <<>> ELSE <<Enc(lean, v)>>
      z == IF EncBad(full, v) THEN <<>> ELSE IF Enc(full, v) \in Range(a) THEN <<>> ELSE <<Enc(full, v)>>
      e == a \o z IN
  e \o (IF e = <<>> THEN <<>> ELSE Damaged(e[Len(e)]))
TypeList == <<"connect", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback",
              "unsubscribe", "unsuback", "pingreq", "pingresp", "disconnect", "auth">>
Lots(n) == [j \in 1..n |-> 65 + (j % 26)]
Specials(v) ==
  << <<192, 0>>, <<193, 0>>, <<0, 3, 1, 2, 3>>, <<0, 0>>, <<240, 1, 0>>,
     <<54, 6, 0, 1, 97, 0, 1, 0>>,                             \* QoS 3
     <<48>> \o Var(127) \o <<0, 1, 97>> \o (IF v = 5 THEN <<0>> ELSE <<66>>) \o Lots(123),
     <<48>> \o Var(128) \o <<0, 1, 97>> \o (IF v = 5 THEN <<0>> ELSE <<66>>) \o Lots(124),
     <<48>> \o Var(300) \o <<1, 40>> \o Lots(298),              \* topic that fills or exceeds the packet
     <<192, 128, 0>>, <<208, 129, 0, 7>>,                       \* long lengths
     <<48, 9, 0, 1, 97, 20, 1, 1, 2, 0, 0>>,                    \* property length beyond the packet
     <<48, 9, 0, 1, 97, 5, 38, 0, 9, 97, 98>>,                  \* text beyond the property section
     <<48, 9, 0, 1, 97, 5, 153, 1, 2, 3, 4>>,                   \* unknown property
     <<48, 8, 0, 1, 97, 3, 1, 1, 2, 0>>,                        \* property cut by its section
     <<64, 4, 0, 1, 0, 5>>, <<144, 4, 0, 1, 255, 255>>,
     <<130, 5, 0, 0, 0, 1, 97>>, <<224, 1, 1>>, <<240, 2, 0, 255>> >>
Menu(v) == FlattenSeq([j \in 1..Len(TypeList) |-> Family(TypeList[j], v)]) \o Specials(v)

(* TLC computes this once *)
Menus == << <<>>, <<>>, Menu(3), Menu(4), Menu(5) >>

Tails == << <<>>, <<192>>, <<48, 5, 0, 1>>, <<255, 255, 255, 255, 255, 1>>, <<130, 130, 130>> >>

VARIABLES items, tail
vars == <<items, tail>>
Bytes(it) == Menus[it.v][it.m]
Whole == Cat([j \in 1..Len(items) |-> Bytes(items[j])])

Init == items = <<>> /\ tail \in 1..Len(Tails)

Kept(v, m) ==
  IF items = <<>> THEN tail = 1 \/ (m + v) % 5 = tail
  ELSE LET l == items[Len(items)] IN
       (l.m * 17 + l.v * 5 + m * 7 + v + Len(items) * 11 + tail + Seed) % Thin = 0
Next ==
  /\ Len(items) < Depth
  /\ \E v \in 3..5 : \E m \in 1..Len(Menus[v]) :
       /\ Kept(v, m)
       /\ items' = Append(items, [v |-> v, m |-> m])
       /\ tail' = tail

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Start(j) == FoldLeft(LAMBDA a, x : a + Len(Bytes(x)), 1, SubSeq(items, 1, j - 1))
(* framing finds the packets; they decode as alone, whatever surrounds them *)
Stands ==
  LET w == Whole \o Tails[tail] IN
  \A j \in 1..Len(items) :
    LET i == Start(j)
        x == Bytes(items[j])
        f == Frame(w, i, Len(w)) IN
    /\ f.k = "full"
    /\ f.next = i + Len(x)
    /\ DecodeAt(w, i, f, items[j].v) = Decode(x, items[j].v)
(* what follows is no packet *)
Ends ==
  LET w == Whole \o Tails[tail] IN
  Frame(w, Start(Len(items) + 1), Len(w)).k # "full"

Out ==
  IF items = <<>> THEN TRUE
  ELSE CASE Emit = "stream" ->
              PrintT("GEN " \o ToJson([vs |-> [j \in 1..Len(items) |-> items[j].v] \o <<5>>,
                                       pk |-> [j \in 1..Len(items) |-> Bytes(items[j])],
                                       b |-> Tails[tail]]))
         [] Emit = "chunk" ->
              PrintT("GEN " \o ToJson([vs |-> [j \in 1..Len(items) |-> items[j].v] \o <<5>>,
                                       b |-> Whole \o Tails[tail]]))
         [] Emit = "cut" -> PrintT("GEN " \o ToJson([v |-> items[1].v, b |-> Bytes(items[1])]))
         [] OTHER -> TRUE
=============================================================================
