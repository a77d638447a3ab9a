------------------------------- MODULE GenWriter -------------------------------
(* Writer and reader as duals: a state is what was written by a sequence of    *)
(* operations.  Checked on every state: reading it with the corresponding      *)
(* operations gives back every argument and ends exactly where writing ended,  *)
(* at no point earlier; the observer of MqttWriter explains the output.  Every *)
(* sequence is handed to the real writer (lines GEN).                          *)
EXTENDS MqttWriter, Json, IOUtils, TLC

Num(name, max) == CHOOSE n \in 0..max : ToString(n) = IOEnv[name]
Thin == Num("THIN", 999)
Depth == Num("DEPTH", 5)
Seed == IF \E n \in 0..9999 : ToString(n) = IOEnv.MSEED THEN Num("MSEED", 9999) ELSE 0

O(op, x) == [op |-> op, x |-> x]
H(t, d, q, r) == [t |-> t, dup |-> d, qos |-> q, retain |-> r]
A == <<97>>
Long == [j \in 1..65536 |-> 120]
Ops ==
  {O("u8", 0), O("u8", 255), O("u16", 258), O("u16", 65535), O("u32", <<258, 772>>), O("u32", <<65535, 0>>),
   O("var", <<0, 0>>), O("var", <<0, 127>>), O("var", <<0, 128>>), O("var", <<0, 16384>>), O("var", <<4095, 65535>>),
   O("len", <<0, 0>>), O("len", <<0, 16383>>), O("len", <<32, 0>>),
   O("str", <<>>), O("str", <<195, 169>>), O("bin", <<0, 255>>), O("raw", <<>>), O("raw", <<0, 1, 2>>),
   O("sized", <<>>), O("sized", <<7, 0>>), O("sized", [j \in 1..130 |-> j]),
   O("header", H("connect", FALSE, 0, FALSE)), O("header", H("publish", TRUE, 2, FALSE)),
   O("header", H("publish", FALSE, 1, TRUE)), O("header", H("subscribe", FALSE, 0, FALSE)),
   O("header", H("auth", FALSE, 0, FALSE)),
   O("props", [list |-> <<>>, up |-> {}]),
   O("props", [list |-> <<<<35, 7>>, <<36, 1>>, <<1, TRUE>>>>, up |-> {}]),
   O("props", [list |-> <<<<11, <<0, 300>>>>, <<11, <<0, 1>>>>>>, up |-> {[k |-> A, vs |-> <<A, <<>>>>]}]),
   O("props", [list |-> <<<<3, A>>>>, up |-> {[k |-> A, vs |-> <<A>>], [k |-> <<>>, vs |-> <<A, A>>], [k |-> <<98>>, vs |-> <<>>]}]),
   O("props", [list |-> <<<<9, <<0, 1>>>>, <<2, <<0, 9>>>>>>, up |-> {}])}
(* these have no encoding: they end a sequence *)
Refused ==
  {O("var", <<4096, 0>>), O("len", <<4096, 0>>), O("len", <<65535, 65535>>), O("str", Long), O("bin", Long),
   O("props", [list |-> <<<<11, <<4096, 0>>>>>>, up |-> {}]), O("props", [list |-> <<>>, up |-> {[k |-> A, vs |-> <<Long>>]}])}

VARIABLES path, buf, done
vars == <<path, buf, done>>

(* the reading operation of a written one *)
Back(o) == CASE o.op \in {"u8", "u16", "u32", "str", "bin"} -> [op |-> o.op, n |-> 0]
             [] o.op \in {"var", "len"} -> [op |-> "var", n |-> 0]
             [] o.op = "raw" -> [op |-> "len", n |-> Len(o.x)]
             [] o.op = "sized" -> [op |-> "len", n |-> Len(WrBytes(o))]
             [] o.op = "header" -> [op |-> "u8", n |-> 0]
             [] o.op = "props" -> [op |-> "len", n |-> Len(WrBytes(o))]
Given(o) == CASE o.op \in {"var", "len"} -> HalvesToInt(o.x)
              [] o.op = "header" -> WrHeader(o.x)
              [] o.op \in {"props", "sized"} -> WrBytes(o)
              [] OTHER -> o.x

RECURSIVE ReadBack(_, _, _, _)
ReadBack(b, ops, k, s) ==
  IF k > Len(ops) THEN s.pos = Len(b)
  ELSE LET r == RdApply(b, s, Back(ops[k])) IN
       r.k = "ok" /\ r.x = Given(ops[k]) /\ ReadBack(b, ops, k + 1, r.s)

Init == path = <<>> /\ buf = <<>> /\ done = FALSE

Chosen(o) == (Len(buf) * 5 + Len(WrBytes(o)) * 3 + Len(path) + Seed) % Thin = 0
Put(p) == PrintT("GEN " \o ToJson([ops |-> p]))
Next ==
  /\ ~done /\ Len(path) <= Depth - 1
  /\ \/ \E o \in Ops : /\ path' = Append(path, o) /\ buf' = buf \o WrBytes(o) /\ done' = FALSE
                       /\ Chosen(o) => Put(path')
     \/ /\ Len(path) <= 1
        /\ \E o \in Refused : /\ path' = Append(path, o) /\ buf' = buf /\ done' = TRUE
                              /\ (path = <<>> \/ (Len(buf) + Seed) % 8 = 0) => Put(path')
Spec == Init /\ [][Next]_vars

Duality == ~done => ReadBack(buf, path, 1, RdStart)
(* a strict beginning of the output is never read back in full *)
Whole == (~done /\ buf # <<>>) => ~ReadBack(Front(buf), path, 1, RdStart)
PropsRead ==      \* properties read as what they are
  ~done => \A j \in 1..Len(path) :
    path[j].op = "props" =>
      LET x == WrBytes(path[j]) q == AnyEntries(x, 1, Len(x)) IN
      q.ok /\ AnyProps(q.val) = [list |-> path[j].x.list, up |-> Written(path[j].x.up)]
RECURSIVE Explained(_, _)
Explained(k, s) ==
  IF k > Len(path) THEN WrEnd(buf, s) = ""
  ELSE LET r == WrStep(buf, s, path[k], IF WrCan(path[k]) THEN "ok" ELSE "err") IN r[1] = "" /\ Explained(k + 1, r[2])
Observed == Explained(1, WrStart)
Encodable == done <=> (path # <<>> /\ ~WrCan(Last(path)))
=============================================================================
