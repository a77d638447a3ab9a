-------------------------------- MODULE GenWire --------------------------------
(* The space of byte strings around valid packets as a graph: a state is a     *)
(* byte string (one packet by its length) and a protocol version, a transition *)
(* damages it in one more place.  Checked on every state: what the             *)
(* specification's decoder may say, that what it reads can be written again    *)
(* and reads the same, and that framing does not depend on what follows.       *)
(* Every state is handed to the real decoder (lines GEN).                      *)
EXTENDS MqttModel, Json, IOUtils

Num(name, max) == CHOOSE n \in 0..max : ToString(n) = IOEnv[name]
Depth == Num("DEPTH", 4)
Thin == Num("THIN", 999)
Emit == IOEnv.EMIT = "1"
Seed == IF \E n \in 0..9999 : ToString(n) = IOEnv.MSEED THEN Num("MSEED", 9999) ELSE 0
Group == IOEnv.GROUP
Types ==
  CASE Group = "acks" -> AckTypes
    [] Group = "short" -> AckTypes \cup {"connack", "disconnect", "auth"}
    [] OTHER -> TypeNames

VARIABLES t, v, w, ms
vars == <<t, v, w, ms>>

Representable(p, x) == ~EncBad(p, x)

(* the starting packets: the bases and a middle one of many properties absent *)
Starts(x, ver) ==
  LET lean == Tidy(Lean(x))
      full == Tidy(Full(x))
      at(p) == IF x = "connect" THEN [p EXCEPT !.ver = ver] ELSE p
      bare == IF x \in {"pingreq", "pingresp"} THEN lean ELSE [full EXCEPT !.props = <<>>]
      data(p) == [p EXCEPT !.props[1].ad = << <<0, 255>> >>]     \* binary data is not text
      more == CASE x = "publish" -> {[full EXCEPT !.qos = 2], [full EXCEPT !.qos = 0]}
                [] x = "connect" -> {[full EXCEPT !.will = <<>>], [lean EXCEPT !.will = <<>>],
                                     [full EXCEPT !.pass = << <<128, 97>> >>],
                                     [full EXCEPT !.will[1].payload = << <<254>> >>], data(full)}
                [] x \in {"connack", "auth"} -> {data(full)}
                [] OTHER -> {}
  IN {at(p) : p \in {lean, full, bare} \cup more}

Assemble(h, body) == <<h>> \o Var(Len(body)) \o body
BodyOf(x) == LET f == Frame(x, 1, Len(x)) IN SubSeq(x, f.bi, f.be)

Flip(x, k) == IF Bit(x, k) THEN x - 2 ^ k ELSE x + 2 ^ k
SetTo(x) == ({0, 1, 2, 127, 128, 255, (x + 1) % 256, (x + 255) % 256}
             \cup {Flip(x, k) : k \in 0..7}) \ {x}

(* every Thin-th change, all of them if the packet is small *)
Kept(n, k, x) == n <= 12 \/ (k * 7 + x * 11 + v * 5 + Len(ms) + Seed) % Thin = 0

Change(m, x) == /\ ms' = Append(ms, m) /\ w' = x /\ UNCHANGED <<t, v>>

SetByte(h, c) ==
  \E k \in 1..Len(c) : \E x \in SetTo(c[k]) :
    Kept(Len(c), k, x) /\ Change(<<"set", k, x>>, Assemble(h, [c EXCEPT ![k] = x]))
Delete(h, c) ==
  \E k \in 1..Len(c) :
    Kept(Len(c), k, 0) /\ Change(<<"del", k, 0>>, Assemble(h, SubSeq(c, 1, k - 1) \o SubSeq(c, k + 1, Len(c))))
Insert(h, c) ==
  \E k \in 0..Len(c) : \E x \in {0, 1, 38, 255} :
    Kept(Len(c), k, x)
    /\ Change(<<"ins", k, x>>, Assemble(h, SubSeq(c, 1, k) \o <<x>> \o SubSeq(c, k + 1, Len(c))))
CutOff(h, c) ==
  \E k \in 0..(Len(c) - 1) :
    Kept(Len(c), k, 1) /\ Change(<<"cut", k, 0>>, Assemble(h, SubSeq(c, 1, k)))
Twice(h, c) ==       \* a part of the body is repeated
  \E k \in 1..Len(c) : \E n \in {2, 3, 5} :
    /\ k + n - 1 <= Len(c)
    /\ Kept(Len(c), k, n)
    /\ Change(<<"dup", k, n>>, Assemble(h, SubSeq(c, 1, k + n - 1) \o SubSeq(c, k, Len(c))))
Header(h, c) ==
  \E x \in {h - (h % 16) + y : y \in 0..15} \cup {(16 * y) + (h % 16) : y \in 0..15}
           \cup {16 * y : y \in 0..15} \cup {16 * y + 2 : y \in 0..15} :
    x # h /\ Kept(Len(c), x, 3) /\ Change(<<"head", x, 0>>, Assemble(x, c))
LongLength(h, c) ==
  /\ Len(c) < 128
  /\ \E z \in {<<0>>, <<128, 0>>, <<128, 128, 0>>} :
       Change(<<"long", Len(z), 0>>, <<h, 128 + Len(c)>> \o z \o c)

Init == /\ t \in Types /\ v \in {3, 4, 5} /\ ms = <<>>
        /\ \E p \in Starts(t, v) : Representable(p, v) /\ w = Enc(p, v)

Next ==
  /\ Len(ms) < Depth
  /\ LET c == BodyOf(w) h == w[1] IN
     \/ SetByte(h, c) \/ Delete(h, c) \/ Insert(h, c) \/ CutOff(h, c)
     \/ Twice(h, c) \/ Header(h, c) \/ LongLength(h, c)

Spec == Init /\ [][Next]_vars

(* how a state was reached does not matter, except for how far it may go on *)
Point == <<v, w, Len(ms)>>

------------------------------------------------------------------------------
D == Decode(w, v)

Total == LET d == D IN
  /\ d.r \in {"ok", "lax", "err", "old"}
  /\ d.r = "ok" => d.lax = {}
  /\ d.r = "lax" => d.lax # {}
  /\ Decodes(d) => (d.p.t = HeaderType(w[1]) /\ HeaderOk(w[1]))

(* whatever is strictly valid can be written, and whatever can be written      *)
(* again reads as the same packet                                              *)
Again == LET d == D IN
  Decodes(d) =>
    LET pv == IF d.p.t = "connect" THEN d.p.ver ELSE v IN
    /\ d.r = "ok" => ~EncBad(d.p, pv)
    /\ EncBad(d.p, pv)
       \/ LET x == Enc(d.p, pv)
              e == Decode(x, pv) IN
          /\ Decodes(e)
          /\ Same(e.p, d.p)
          /\ d.r = "ok" => e.r = "ok"
          /\ d.r = "ok" => Len(x) <= Len(w)

(* framing: no prefix is a packet, nothing behind it matters *)
Framed ==
  LET n == Len(w) IN
  /\ \A c \in 0..(n - 1) : Frame(w, 1, c).k # "full"
  /\ \A z \in {<<0>>, <<192, 0>>, <<255, 255, 255, 255, 255>>} :
       LET f == Frame(w \o z, 1, n + Len(z)) IN
       f.k = "full" /\ f.next = n + 1 /\ DecodeAt(w \o z, 1, f, v) = D

(* CONNECT governs itself *)
Self == (w[1] \div 16 = 1) => \A x \in 3..5 : Decode(w, x) = D

Out == Emit => PrintT("GEN " \o ToJson([v |-> v, b |-> w]))
=============================================================================
