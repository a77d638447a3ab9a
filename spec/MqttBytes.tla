------------------------------ MODULE MqttBytes ------------------------------
(* MQTT primitive data types over byte strings (sequences of 0..255).          *)
(*                                                                             *)
(* Reading operators take a byte string b, the index i of the next byte and    *)
(* the index e of the last byte of the enclosing section, and yield either     *)
(* Fail or [ok |-> TRUE, val, i, lax]: the value, the index after it and the   *)
(* set of leniency tags (encodings a strict reader may refuse).                *)
(* 32-bit integers are pairs of 16-bit halves because TLC integers are 32 bit  *)
(* signed.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VarMax == 268435455
MaxField == 65535

Fail == [ok |-> FALSE]
Got(v, i, lax) == [ok |-> TRUE, val |-> v, i |-> i, lax |-> lax]

Max2(x, y) == IF x >= y THEN x ELSE y
Min2(x, y) == IF x <= y THEN x ELSE y

------------------------------------------------------------------------------
(* reading *)

ReadU8(b, i, e) == IF i > e THEN Fail ELSE Got(b[i], i + 1, {})

ReadU16(b, i, e) ==
  IF i + 1 > e THEN Fail ELSE Got(b[i] * 256 + b[i + 1], i + 2, {})

ReadU32(b, i, e) ==
  IF i + 3 > e THEN Fail
  ELSE Got(<<b[i] * 256 + b[i + 1], b[i + 2] * 256 + b[i + 3]>>, i + 4, {})

ReadRaw(b, i, e, n) ==
  IF i + n - 1 > e THEN Fail ELSE Got(SubSeq(b, i, i + n - 1), i + n, {})

ReadBool(b, i, e) ==
  IF i > e THEN Fail
  ELSE Got(b[i] # 0, i + 1, IF b[i] > 1 THEN {"bool"} ELSE {})

ReadBin(b, i, e) ==
  IF i + 1 > e THEN Fail ELSE ReadRaw(b, i + 2, e, b[i] * 256 + b[i + 1])

(* UTF-8 well-formedness (RFC 3629) of b[s..e], stated position by position:   *)
(* every byte is ASCII, a lead byte followed by its continuation bytes, or a   *)
(* continuation byte covered by a lead byte at most three positions back.      *)
IsCont(x) == x >= 128 /\ x <= 191
LeadLen(x) ==
  CASE x <= 127 -> 1
    [] x >= 194 /\ x <= 223 -> 2
    [] x >= 224 /\ x <= 239 -> 3
    [] x >= 240 /\ x <= 244 -> 4
    [] OTHER -> 0
SecondOk(x, y) ==
  CASE x = 224 -> y >= 160
    [] x = 237 -> y <= 159
    [] x = 240 -> y >= 144
    [] x = 244 -> y <= 143
    [] OTHER -> TRUE
Utf8At(b, s, e, i) ==
  IF b[i] <= 127 THEN TRUE
  ELSE IF IsCont(b[i])
  THEN \E k \in 1..3 : /\ i - k >= s
                       /\ LeadLen(b[i - k]) > k
                       /\ \A j \in 1..(k - 1) : IsCont(b[i - j])
  ELSE LET n == LeadLen(b[i]) IN
       /\ n >= 2
       /\ i + n - 1 <= e
       /\ \A k \in 1..(n - 1) : IsCont(b[i + k])
       /\ SecondOk(b[i], b[i + 1])
Utf8Valid(b, s, e) ==
  \/ \A i \in s..e : b[i] <= 127
  \/ \A i \in s..e : Utf8At(b, s, e, i)

(* U+0000 is forbidden in MQTT strings, but not every reader checks that *)
ReadStr(b, i, e) ==
  LET r == ReadBin(b, i, e) IN
  IF ~r.ok THEN Fail
  ELSE IF ~Utf8Valid(b, i + 2, r.i - 1) THEN Fail
  ELSE Got(r.val, r.i, IF \E k \in (i + 2)..(r.i - 1) : b[k] = 0
                       THEN {"nul"} ELSE {})

(* variable byte integer: one to four bytes, the last without continuation bit *)
ReadVar(b, i, e) ==
  LET more(k) == b[i + k] >= 128
      low(k) == b[i + k] % 128
      min(k, v) == Got(v, i + k, IF k > 1 /\ b[i + k - 1] = 0 THEN {"nonminimal"} ELSE {})
  IN IF i > e THEN Fail
     ELSE IF ~more(0) THEN min(1, low(0))
     ELSE IF i + 1 > e THEN Fail
     ELSE IF ~more(1) THEN min(2, low(0) + 128 * low(1))
     ELSE IF i + 2 > e THEN Fail
     ELSE IF ~more(2) THEN min(3, low(0) + 128 * low(1) + 16384 * low(2))
     ELSE IF i + 3 > e THEN Fail
     ELSE IF more(3) THEN Fail
     ELSE min(4, low(0) + 128 * low(1) + 16384 * low(2) + 2097152 * low(3))

(* items of at least `least' bytes each up to the end of the section *)
ReadMany(b, i, e, least, Item(_, _, _)) ==
  LET step(s, j) ==
        IF ~s.ok THEN s
        ELSE IF s.i > e THEN s
        ELSE LET r == Item(b, s.i, e) IN
             IF ~r.ok THEN Fail ELSE Got(Append(s.val, r.val), r.i, s.lax \cup r.lax)
  IN FoldLeft(step, Got(<<>>, i, {}), [j \in 1..((e - i + least) \div least) |-> j])

------------------------------------------------------------------------------
(* writing *)

U8(x) == <<x>>
U16(x) == <<x \div 256, x % 256>>
U32(h) == U16(h[1]) \o U16(h[2])
Bin(s) == U16(Len(s)) \o s
Str(s) == Bin(s)
VarLen(n) == CASE n < 128 -> 1 [] n < 16384 -> 2 [] n < 2097152 -> 3 [] OTHER -> 4
Var(n) ==
  LET d == VarLen(n)
      g(k) == (n \div (128 ^ k)) % 128 IN
  CASE d = 1 -> <<n>>
    [] d = 2 -> <<128 + g(0), g(1)>>
    [] d = 3 -> <<128 + g(0), 128 + g(1), g(2)>>
    [] OTHER -> <<128 + g(0), 128 + g(1), 128 + g(2), g(3)>>
BoolByte(x) == IF x THEN 1 ELSE 0

(* concatenation of a sequence of byte strings *)
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

(* 32-bit halves: n > m as unsigned numbers *)
HalvesGt(h, g) == h[1] > g[1] \/ (h[1] = g[1] /\ h[2] > g[2])
VarMaxHalves == <<4095, 65535>>
HalvesToInt(h) == h[1] * 65536 + h[2]      \* only for values <= VarMax
IntToHalves(n) == <<n \div 65536, n % 65536>>
=============================================================================
