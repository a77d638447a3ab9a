------------------------------- MODULE GenReader -------------------------------
(* The byte reader as it is built - one current limit and a stack of what is   *)
(* left of the outer ones - refines the reader as it is specified in           *)
(* MqttReader.  Every transition of the graph is handed to the real reader as  *)
(* a session: the shortest way there, the operation, and probes.               *)
(*   VARIANT  "" the design; "nomin" limits are not cut to the outer one;      *)
(*            "noadd" what an inner limit leaves is lost; "leak" integers of   *)
(*            variable length do not count; "never" reset removes everything   *)
EXTENDS MqttReader, Json, IOUtils, TLC

Num(name, max) == CHOOSE n \in 0..max : ToString(n) = IOEnv[name]
Emit == IOEnv.EMIT = "1"
Variant == IOEnv.VARIANT
Nest == Num("NEST", 4)
Thin == Num("THIN", 999)
Seed == IF \E n \in 0..9999 : ToString(n) = IOEnv.MSEED THEN Num("MSEED", 9999) ELSE 0

Datas ==
  << <<0, 1, 65, 130, 1, 0, 0, 7>>, <<0, 2, 195, 169, 255, 255, 255, 127, 1>>,
     <<128, 128, 0, 0, 1, 255, 0>>, <<255, 255, 255, 255, 255, 0>>, <<5>>, <<>>,
     <<50, 5, 3, 35, 1, 2, 9>>, <<193, 1, 2, 36, 1, 192, 0>>, <<16, 8, 38, 0, 0, 0, 0, 11, 129, 0>>,
     <<0, 0, 4, 2, 1, 2, 3>> >>

Ops == {[op |-> x, n |-> 0] : x \in {"reset", "u8", "bool", "u16", "u32", "var", "str", "bin", "more", "consume",
                                    "header", "props"}}
       \cup {[op |-> "take", n |-> n] : n \in {0, 1, 2, 3, 5, 8, 12}}
       \cup {[op |-> "len", n |-> n] : n \in {0, 1, 2, 3, 4, 6}}

(* d: the data; abs: the specified reader; imp: the built one; path: operations *)
VARIABLES d, abs, imp, same, path
vars == <<d, abs, imp, same, path>>
Point == <<d, abs, imp, same>>

(* ------- the built reader: cur = -1 stands for no limit ------- *)
ImpStart == [pos |-> 0, cur |-> -1, stk |-> <<>>]
Res(k, x, s) == [k |-> k, x |-> x, s |-> s]

ImpTake(s, n) ==
  IF s.cur = -1 THEN [s EXCEPT !.cur = n]
  ELSE LET m == IF Variant = "nomin" THEN n ELSE Min2(n, s.cur) IN
       [s EXCEPT !.cur = m, !.stk = Append(@, Max2(s.cur - m, 0))]
ImpReset(s) ==
  IF s.stk = <<>> THEN [s EXCEPT !.cur = -1]
  ELSE IF Variant = "never" THEN [s EXCEPT !.cur = -1, !.stk = <<>>]
  ELSE [s EXCEPT !.cur = IF @ = -1 \/ Variant = "noadd" THEN Last(s.stk) ELSE Last(s.stk) + @,
                 !.stk = Front(@)]
ImpLen(b, s, n) ==
  IF s.cur # -1 /\ s.cur < n THEN Res("err", 0, s)
  ELSE IF s.pos + n > Len(b) THEN Res("err", 0, [s EXCEPT !.pos = Len(b)])
  ELSE Res("ok", SubSeq(b, s.pos + 1, s.pos + n),
           [s EXCEPT !.pos = @ + n, !.cur = IF @ = -1 THEN -1 ELSE @ - n])
Then(r, Go(_, _)) == IF r.k = "err" THEN r ELSE Go(r.x, r.s)
ImpU16(b, s) == Then(ImpLen(b, s, 2), LAMBDA x, q : Res("ok", x[1] * 256 + x[2], q))
RECURSIVE ImpVar(_, _, _, _, _)
ImpVar(b, s, num, mult, left) ==
  IF left = 0 THEN Res("err", 0, s)
  ELSE Then(ImpLen(b, s, 1),
            LAMBDA x, q :
              LET m == num + mult * (x[1] % 128)
                  z == IF Variant = "leak" /\ x[1] >= 128 THEN [q EXCEPT !.cur = s.cur] ELSE q IN
              IF x[1] < 128 THEN Res("ok", m, z) ELSE ImpVar(b, z, m, mult * 128, left - 1))
ImpBin(b, s) == Then(ImpU16(b, s), LAMBDA n, q : ImpLen(b, q, n))
ImpStr(b, s) ==
  Then(ImpBin(b, s), LAMBDA x, q : IF Utf8Valid(x, 1, Len(x)) THEN Res("ok", x, q) ELSE Res("err", 0, q))

RECURSIVE ImpUnwind(_)
ImpUnwind(s) == IF s.stk = <<>> THEN s ELSE ImpUnwind(ImpReset(s))
ImpFinish(b, s) ==
  LET q == ImpUnwind(s)
      r == IF q.cur = -1 THEN Res("err", 0, q) ELSE ImpLen(b, q, q.cur)
  IN [r EXCEPT !.s = ImpReset(@)]
ImpHeader(b, s) ==
  Then(ImpLen(b, s, 1),
       LAMBDA x, q :
         LET n == ImpVar(b, q, 0, 1, 4)
             good == HeaderOk(x[1]) \/ x[1] = 0 IN
         CASE good /\ n.k = "ok" -> Res("ok", HeaderSays(x[1], n.x), ImpTake(n.s, n.x))
           [] ~good /\ n.k = "ok" -> Res("err", 0, ImpFinish(b, ImpTake(n.s, n.x)).s)
           [] OTHER -> Res("err", 0, n.s))
(* what is in the section is read as specified: what is checked is the limit *)
ImpProps(b, s) ==
  Then(ImpVar(b, s, 0, 1, 4),
       LAMBDA n, q :
         IF q.cur # -1 /\ q.cur < n THEN Res("err", 0, q)
         ELSE IF n = 0 THEN Res("ok", AnyProps(<<>>), q)
         ELSE LET z == ImpLen(b, ImpTake(q, n), n) IN
              IF z.k = "err" THEN z
              ELSE LET e == AnyEntries(z.x, 1, n) IN
                   IF ~e.ok THEN Res("err", 0, z.s) ELSE Res("ok", AnyProps(e.val), ImpReset(z.s)))

ImpApply(b, s, o) ==
  CASE o.op = "take" -> Res("ok", TRUE, ImpTake(s, o.n))
    [] o.op = "reset" -> Res("ok", TRUE, ImpReset(s))
    [] o.op = "len" -> ImpLen(b, s, o.n)
    [] o.op = "u8" -> Then(ImpLen(b, s, 1), LAMBDA x, q : Res("ok", x[1], q))
    [] o.op = "bool" -> Then(ImpLen(b, s, 1), LAMBDA x, q : Res("ok", x[1] # 0, q))
    [] o.op = "u16" -> ImpU16(b, s)
    [] o.op = "u32" -> Then(ImpLen(b, s, 4), LAMBDA x, q : Res("ok", <<x[1] * 256 + x[2], x[3] * 256 + x[4]>>, q))
    [] o.op = "var" -> ImpVar(b, s, 0, 1, 4)
    [] o.op = "str" -> ImpStr(b, s)
    [] o.op = "bin" -> ImpBin(b, s)
    [] o.op = "more" -> Res("ok", s.cur # 0 /\ s.pos < Len(b), s)
    [] o.op = "consume" -> IF s.cur = -1 THEN Res("err", 0, s) ELSE ImpLen(b, s, s.cur)
    [] o.op = "header" -> ImpHeader(b, s)
    [] o.op = "props" -> ImpProps(b, s)

(* the limits of the built reader as ends, outermost first *)
RECURSIVE Ends(_, _)
Ends(s, k) ==          \* end of limit k, counted from the outermost
  IF k = Len(s.stk) + 1 THEN s.pos + s.cur ELSE Ends(s, k + 1) + s.stk[k]
AbsOf(s) == [pos |-> s.pos, st |-> IF s.cur = -1 THEN <<>> ELSE [k \in 1..(Len(s.stk) + 1) |-> Ends(s, k)]]

(* ------- *)
Init == /\ d \in 1..Len(Datas) /\ abs = RdStart /\ imp = ImpStart /\ same = TRUE /\ path = <<>>

Agree(w, r) ==
  /\ w.k # "any" => r.k = w.k
  /\ w.k = "ok" => r.x = w.x
  /\ w.s.live => (AbsOf(r.s).pos = w.s.pos /\ AbsOf(r.s).st = w.s.st)

Probes ==
  << [op |-> "more", n |-> 0], [op |-> "len", n |-> 2], [op |-> "reset", n |-> 0], [op |-> "more", n |-> 0],
     [op |-> "u8", n |-> 0], [op |-> "reset", n |-> 0], [op |-> "more", n |-> 0], [op |-> "u8", n |-> 0],
     [op |-> "consume", n |-> 0], [op |-> "reset", n |-> 0], [op |-> "reset", n |-> 0], [op |-> "u8", n |-> 0],
     [op |-> "u8", n |-> 0], [op |-> "more", n |-> 0] >>

Chosen(o) == (abs.pos * 5 + Len(abs.st) * 3 + o.n * 7 + d + Len(path) + Seed) % Thin = 0

Next ==
  /\ abs.live /\ same
  /\ \E o \in Ops :
       IF o.op = "take" /\ Len(abs.st) >= Nest THEN FALSE
       ELSE LET w == RdApply(Datas[d], abs, o)
                r == ImpApply(Datas[d], imp, o) IN
            /\ abs' = w.s /\ imp' = r.s /\ d' = d
            /\ same' = Agree(w, r)
            /\ path' = Append(path, o)
            /\ (Emit /\ Chosen(o)) => PrintT("GEN " \o ToJson([b |-> Datas[d], ops |-> path' \o Probes]))

Spec == Init /\ [][Next]_vars

Refines == same
Sane == RdInv(Datas[d], abs)
(* unwinding every limit gives an unlimited reader at the same place *)
RECURSIVE Unwind(_)
Unwind(s) == IF s.stk = <<>> THEN ImpReset(s) ELSE Unwind(ImpReset(s))
Unwinds == abs.live => Unwind(imp) = [pos |-> imp.pos, cur |-> -1, stk |-> <<>>]
=============================================================================
