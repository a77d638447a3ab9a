------------------------------- MODULE GenPrim -------------------------------
(* The primitive encodings as machines that read one byte at a time, against   *)
(* the definitions of MqttBytes that look at a whole byte string.  A state is  *)
(* the string read so far and what the machine knows; a transition is one more *)
(* byte, out of one representative per class of bytes the definitions tell     *)
(* apart.  Checked on every state: machine and definition agree, writing is    *)
(* the inverse of reading, no encoding is the beginning of another one.        *)
(* Every string is handed to the real reader and, if it has a value, the value *)
(* to the real writer (lines GEN).                                             *)
EXTENDS MqttBytes, TLC, Json, IOUtils

Num(name, max) == CHOOSE n \in 0..max : ToString(n) = IOEnv[name]
Thin == Num("THIN", 99)
Depth == Num("DEPTH", 9)
Seed == IF \E n \in 0..9999 : ToString(n) = IOEnv.MSEED THEN Num("MSEED", 9999) ELSE 0

VARIABLES kind, b, m
vars == <<kind, b, m>>

------------------------------------------------------------------------------
(* variable byte integer: value so far, multiplier, bytes; or the result       *)
VarDigits == {0, 1, 2, 64, 127, 128, 129, 192, 255}
VarStart == [st |-> "more", val |-> 0, mult |-> 1, last |-> 1]
VarStep(s, x) ==
  IF s.st # "more" THEN s
  ELSE LET y == s.val + (x % 128) * s.mult IN
       IF x < 128 THEN [st |-> "done", val |-> y, mult |-> 0, last |-> x]
       ELSE IF s.mult = 2097152 THEN [st |-> "bad", val |-> 0, mult |-> 0, last |-> x]
       ELSE [st |-> "more", val |-> y, mult |-> s.mult * 128, last |-> x]

VarAgrees ==
  LET r == ReadVar(b, 1, Len(b)) IN
  /\ r.ok <=> (m.st = "done")
  /\ m.st = "done" =>
       /\ r.val = m.val
       /\ r.i = Len(b) + 1                      \* the machine stops where the reader stops
       /\ (r.lax = {}) <=> (Var(m.val) = b)     \* one minimal encoding
       /\ Len(Var(m.val)) <= Len(b)
       /\ m.val <= VarMax
       /\ \A n \in 0..(Len(b) - 1) : ~ReadVar(b, 1, n).ok
  /\ m.st = "bad" => Len(b) >= 4

------------------------------------------------------------------------------
(* UTF-8: how many continuation bytes are due and the range of the next one    *)
TextBytes == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236,
              237, 238, 239, 240, 241, 243, 244, 245, 255}
TextStart == [due |-> 0, lo |-> 128, hi |-> 191, ok |-> TRUE]
TextStep(s, x) ==
  LET due(n, lo, hi) == [due |-> n, lo |-> lo, hi |-> hi, ok |-> TRUE]
      bad == [s EXCEPT !.ok = FALSE] IN
  IF ~s.ok THEN s
  ELSE IF s.due > 0
  THEN IF x >= s.lo /\ x <= s.hi THEN due(s.due - 1, 128, 191) ELSE bad
  ELSE IF x <= 127 THEN s
  ELSE IF x < 194 THEN bad
  ELSE IF x <= 223 THEN due(1, 128, 191)
  ELSE IF x = 224 THEN due(2, 160, 191)
  ELSE IF x = 237 THEN due(2, 128, 159)
  ELSE IF x <= 239 THEN due(2, 128, 191)
  ELSE IF x = 240 THEN due(3, 144, 191)
  ELSE IF x <= 243 THEN due(3, 128, 191)
  ELSE IF x = 244 THEN due(3, 128, 143)
  ELSE bad

TextAgrees ==
  LET w == Bin(b) IN
  /\ Utf8Valid(b, 1, Len(b)) <=> (m.ok /\ m.due = 0)
  /\ ReadStr(w, 1, Len(w)).ok <=> (m.ok /\ m.due = 0)
  /\ (m.ok /\ m.due = 0) => /\ ReadStr(w, 1, Len(w)).val = b
                            /\ ReadStr(w \o <<9>>, 1, Len(w) + 1).i = Len(w) + 1
  /\ ReadBin(w, 1, Len(w)) = Got(b, Len(w) + 1, {})
  /\ \A n \in 0..(Len(w) - 1) : ~ReadBin(w, 1, n).ok

------------------------------------------------------------------------------
(* two- and four-byte integers: high byte first                                *)
IntBytes == {0, 1, 127, 128, 254, 255}
IntStart == [hi |-> 0, lo |-> 0]
IntStep(s, x) == [hi |-> (s.hi * 256 + s.lo \div 256) % 65536, lo |-> (s.lo * 256 + x) % 65536]
IntAgrees ==
  /\ Len(b) = 2 => /\ ReadU16(b, 1, 2) = Got(m.lo, 3, {})
                   /\ U16(m.lo) = b
                   /\ ~ReadU16(b, 1, 1).ok
  /\ Len(b) = 4 => /\ ReadU32(b, 1, 4) = Got(<<m.hi, m.lo>>, 5, {})
                   /\ U32(<<m.hi, m.lo>>) = b
                   /\ ~ReadU32(b, 1, 3).ok

------------------------------------------------------------------------------
Init == /\ kind \in {"var", "text", "int"}
        /\ b = <<>>
        /\ m = CASE kind = "var" -> VarStart [] kind = "text" -> TextStart [] OTHER -> IntStart

Bytes == CASE kind = "var" -> VarDigits [] kind = "text" -> TextBytes [] OTHER -> IntBytes
Long == CASE kind = "var" -> 5 [] kind = "text" -> Depth [] OTHER -> 4

(* strings that are already bad are followed for one more byte                 *)
Open == CASE kind = "var" -> m.st = "more" \/ (m.st = "bad" /\ Len(b) < 5)
          [] kind = "text" -> m.ok \/ Len(b) <= 2
          [] OTHER -> TRUE

Next ==
  /\ Len(b) < Long
  /\ Open
  /\ \E x \in Bytes :
       /\ b' = Append(b, x)
       /\ m' = CASE kind = "var" -> VarStep(m, x) [] kind = "text" -> TextStep(m, x)
                 [] OTHER -> IntStep(m, x)
  /\ UNCHANGED kind

Spec == Init /\ [][Next]_vars

Agrees == CASE kind = "var" -> VarAgrees [] kind = "text" -> TextAgrees [] OTHER -> IntAgrees

------------------------------------------------------------------------------
Chosen == Len(b) <= 3 \/ (FoldLeft(LAMBDA a, x : (a * 31 + x) % 9973, Seed, b) % Thin = 0)

Give(x) == PrintT("GEN " \o ToJson(x))
Out ==
  (Chosen /\ b # <<>>) =>
    CASE kind = "var" ->
           /\ Give([op |-> "var", b |-> b])
           /\ m.st = "done" => Give([op |-> "wvar", x |-> IntToHalves(m.val)])
      [] kind = "text" ->
           /\ Give([op |-> "str", b |-> Bin(b)])
           /\ Give([op |-> "str", b |-> Bin(b) \o <<9>>])
           /\ Give([op |-> "bin", b |-> Bin(b)])
           /\ (m.ok /\ m.due = 0) => Give([op |-> "wstr", x |-> b])
           /\ Give([op |-> "wbin", x |-> b])
      [] OTHER ->
           /\ Give([op |-> "u16", b |-> b])
           /\ Give([op |-> "u32", b |-> b])
           /\ Len(b) = 2 => Give([op |-> "wu16", x |-> m.lo])
           /\ Len(b) = 4 => Give([op |-> "wu32", x |-> <<m.hi, m.lo>>])
=============================================================================
