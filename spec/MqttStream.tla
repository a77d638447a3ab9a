------------------------------ MODULE MqttStream ------------------------------
(* The stream decoder as it is built, one read at a time, against a reader     *)
(* that delivers the bytes in pieces, interrupts, fails or ends.               *)
(*                                                                             *)
(* The decoder: fixed header byte, remaining length byte by byte, a limit for  *)
(* the packet, the body with a limit of its own for the property section, and  *)
(* in the end whatever is left of the packet is thrown away.  Of the packet    *)
(* types it knows PUBLISH (version 5, QoS 0: topic, properties, payload), the  *)
(* two PINGs and headers that are refused; their shape is that of all others.  *)
(*                                                                             *)
(* Checked: it gives what MqttPackets says about the bytes, however they are   *)
(* delivered; it stands at the start of the next packet after every call; a    *)
(* packet that did not arrive whole is never good; every call makes progress;  *)
(* decoding until nothing is left ends.                                        *)
(*                                                                             *)
(*   VARIANT "" the design, or one that is wrong:                              *)
(*     "nofinish"  a failed packet is left where decoding stopped              *)
(*     "inner"     only the innermost limit is unwound                         *)
(*     "swallow"   a failing reader counts as the end of the property section  *)
(*     "noretry"   an interrupted read is an error                             *)
(*     "partial"   a payload is what has arrived of it                         *)
(*     "header"    the packet of a refused header is not skipped               *)
(*     "peek"      looks for another packet before it returns one              *)
(*     "eager"     reserves what a length announces                            *)
(*     "hoard"     what a packet left unread is kept                           *)
EXTENDS MqttPackets, Json, IOUtils

Variant == IOEnv.VARIANT
Emit == IOEnv.EMIT = "1"
Ints == CHOOSE n \in 0..3 : ToString(n) = IOEnv.INTS
Thin == CHOOSE n \in 1..999 : ToString(n) = IOEnv.THIN

Ping == <<192, 0>>
PubSmall == <<48, 4, 0, 1, 97, 0>>
PubAlias == <<49, 9, 0, 1, 97, 3, 35, 1, 2, 7, 8>>
PubUser == <<48, 14, 0, 1, 98, 10, 38, 0, 1, 107, 0, 1, 118, 35, 0, 9>>
PubShortSection == <<48, 8, 0, 1, 97, 2, 35, 1, 2, 7>>       \* alias cut by the section
PubUnknown == <<48, 9, 0, 1, 97, 4, 99, 1, 2, 3, 7>>         \* unknown property
PubLongSection == <<48, 7, 0, 1, 97, 200, 1, 35, 1>>         \* section beyond the packet
PubLongTopic == <<48, 4, 0, 9, 97, 0>>
BadType == <<0, 3, 9, 9, 9>>
BadFlags == <<193, 1, 7>>
PingBody == <<208, 2, 1, 2>>
LongLen == <<192, 128, 0>>
Streams ==
  << Ping \o PubAlias \o Ping, PubUser \o Ping, PubShortSection \o PubSmall, PubUnknown \o Ping \o Ping,
     PubLongSection \o PubSmall, PubLongTopic \o Ping, BadType \o BadFlags \o Ping,
     PingBody \o LongLen \o PubSmall, PubAlias \o <<48>>, PubUser \o <<48, 200>>, <<255, 255, 255, 255, 255, 1>>,
     PubUnknown \o PubAlias \o PubUser, <<>> >>

Faults == {"none", "eof", "error", "once"}

VARIABLES
  d,          \* which stream
  cut, fault, \* where the delivery stops, and how
  fired,      \* the transient fault has happened
  arr,        \* bytes handed over by the reader so far
  pos,        \* bytes consumed
  cur, stk,   \* limits, as in the byte reader
  pc,         \* where the decoder is
  num, mult,  \* the length being read, the size of the text being read
  res,        \* "" while all is well in the current packet
  io,         \* the current call met a reader that failed
  outs,       \* outcomes of the calls
  ends,       \* positions after the calls
  ints, sched
vars == <<d, cut, fault, fired, arr, pos, cur, stk, pc, num, mult, res, io, outs, ends, ints, sched>>
Point == <<d, cut, fault, fired, arr, pos, cur, stk, pc, num, mult, res, io, outs, ends, ints>>

B == Streams[d]
Avail == arr - pos
Last_ == IF fault = "once" /\ fired THEN Len(B) ELSE cut        \* how far delivery goes
AtEnd == arr = Last_

Init ==
  /\ d \in 1..Len(Streams)
  /\ fault \in Faults
  /\ cut \in (IF fault = "none" THEN {Len(B)} ELSE 0..(Len(B) - 1))
  /\ fired = FALSE /\ arr = 0 /\ pos = 0 /\ cur = -1 /\ stk = <<>> /\ pc = "poll"
  /\ num = 0 /\ mult = 1 /\ res = "" /\ io = FALSE /\ outs = <<>> /\ ends = <<>> /\ ints = 0 /\ sched = <<>>

(* ------------------------------------------------------------- reading *)
(* how many bytes the decoder wants now *)
Wants ==
  CASE pc \in {"head", "len", "plen", "id", "poll"} -> 1
    [] pc \in {"tlen", "alias", "klen", "vlen"} -> 2
    [] pc \in {"topic", "key", "value"} -> num
    [] pc \in {"rest", "finish"} -> IF cur = -1 THEN 0 ELSE cur
    [] pc = "peek" -> 1
    [] pc = "section" -> IF Variant = "swallow" /\ cur > 0 THEN 1 ELSE 0
    [] OTHER -> 0
Refused == pc \notin {"poll", "section"} /\ cur # -1 /\ cur < Wants
Waiting == pc # "done" /\ ~Refused /\ Avail < Wants
Broken == Waiting /\ AtEnd                  \* and nothing more comes
Ready == pc # "done" /\ ~Refused /\ ~Waiting

(* the reader *)
Deliver ==
  /\ Waiting /\ ~AtEnd
  /\ \E n \in {1, 2, 3, 7, 99} :
       /\ n = 99 \/ arr + n <= Last_
       /\ arr' = Min2(arr + n, Last_)
       /\ sched' = IF Emit THEN Append(sched, n) ELSE sched
  /\ UNCHANGED <<d, cut, fault, fired, pos, cur, stk, pc, num, mult, res, io, outs, ends, ints>>
Interrupt ==
  /\ Waiting /\ ~AtEnd /\ ints < Ints
  /\ ints' = ints + 1
  /\ sched' = IF Emit THEN Append(sched, 0) ELSE sched
  /\ IF Variant = "noretry" /\ pc # "poll"
     THEN res' = "err" /\ pc' = "finish"
     ELSE UNCHANGED <<res, pc>>
  /\ UNCHANGED <<d, cut, fault, fired, arr, pos, cur, stk, num, mult, io, outs, ends>>

(* ------------------------------------------------------------- limits *)
Took(n) == /\ pos' = pos + n
           /\ cur' = IF cur = -1 THEN -1 ELSE cur - n
TakeCur(n) == IF cur = -1 THEN n ELSE Min2(n, cur)
TakeStk(n) == IF cur = -1 THEN stk ELSE Append(stk, cur - Min2(n, cur))
ResetCur == IF stk = <<>> THEN -1 ELSE Last(stk) + cur
ResetStk == IF stk = <<>> THEN stk ELSE Front(stk)

Fixed(x) == UNCHANGED <<d, cut, fault, arr, ints, sched>>
Keep == UNCHANGED <<fired, io>>

(* the decoder gives up on the packet, and goes on to throw away the rest *)
Fails ==
  /\ res' = "err"
  /\ pc' = "finish"
  /\ UNCHANGED <<pos, cur, stk, num, mult, outs, ends>>

(* a call ends *)
Return(r, p) ==
  /\ outs' = Append(outs, r)
  /\ ends' = Append(ends, p)
  /\ res' = ""
  /\ io' = FALSE
  /\ pc' = "poll"
  /\ num' = 0 /\ mult' = 1

(* a read that fails because the reader does: what had arrived is gone *)
Breaks ==
  /\ Broken /\ pc # "peek" /\ Fixed(0)
  /\ fired' = IF fault = "once" THEN TRUE ELSE fired
  /\ IF pc = "poll"
     THEN /\ pc' = IF fault = "once" /\ ~fired THEN "poll" ELSE "done"
          /\ UNCHANGED <<pos, cur, stk, num, mult, res, io, outs, ends>>
     ELSE IF pc = "section"
     THEN /\ cur' = ResetCur /\ stk' = ResetStk /\ pc' = "rest"
          /\ io' = TRUE
          /\ UNCHANGED <<pos, num, mult, res, outs, ends>>
     ELSE IF pc = "rest" /\ Variant = "partial"
     THEN /\ pos' = arr /\ cur' = cur - Avail /\ pc' = "finish" /\ io' = TRUE
          /\ IF fault = "once" THEN TRUE ELSE TRUE
          /\ UNCHANGED <<stk, num, mult, res, outs, ends>>
     ELSE IF pc \in {"head", "len"}
     THEN /\ pos' = arr /\ UNCHANGED <<cur, stk>> /\ Return("broken", arr)
     ELSE IF pc = "finish"
     THEN /\ pos' = arr
          /\ cur' = -1 /\ stk' = <<>>
          /\ IF Variant = "partial" /\ res = "" THEN Return("ok", arr) ELSE Return("broken", arr)
     ELSE /\ pos' = arr /\ io' = TRUE
          /\ res' = "err" /\ pc' = "finish"
          /\ UNCHANGED <<cur, stk, num, mult, outs, ends>>

(* a look at what follows the packet (a wrong design) *)
Peek ==
  /\ pc = "peek" /\ (Ready \/ Broken) /\ Fixed(0) /\ fired' = fired
  /\ UNCHANGED <<pos, cur, stk>>
  /\ Return(res, pos)

(* a read refused by a limit *)
Limited == /\ Refused /\ Fixed(0) /\ Keep /\ Fails

(* ------------------------------------------------------------- the decoder *)
X(k) == B[pos + k]
GoTo(l) == pc' = l
NoLimitChange == UNCHANGED <<stk>>

Poll ==
  /\ pc = "poll" /\ Ready /\ Fixed(0) /\ Keep
  /\ GoTo("head")
  /\ UNCHANGED <<pos, cur, stk, num, mult, res, outs, ends>>

FirstByte ==
  /\ pc = "head" /\ Ready /\ Fixed(0) /\ Keep
  /\ Took(1) /\ NoLimitChange
  /\ res' = CASE ~HeaderOk(X(1)) -> "head"
              [] HeaderType(X(1)) = "publish" -> "pub"
              [] OTHER -> "ping"
  /\ num' = 0 /\ mult' = 1
  /\ GoTo("len")
  /\ UNCHANGED <<outs, ends>>

LenByte ==
  /\ pc = "len" /\ Ready /\ Fixed(0)
  /\ LET x == X(1)
         n == num + mult * (x % 128) IN
     IF x < 128
     THEN /\ pos' = pos + 1 /\ cur' = n /\ stk' = stk /\ num' = 0 /\ mult' = 1
          /\ Keep
          /\ IF res = "head" /\ Variant = "header"
             THEN res' = "err" /\ GoTo("finish") /\ UNCHANGED <<outs, ends>>
             ELSE /\ res' = IF res = "head" THEN "err" ELSE ""
                  /\ GoTo(IF res = "pub" THEN "tlen" ELSE "finish")
                  /\ UNCHANGED <<outs, ends>>
     ELSE IF mult = 2097152                 \* the fourth byte: the stream is lost
     THEN /\ fired' = fired /\ pos' = pos + 1 /\ UNCHANGED <<cur, stk>> /\ Return("lost", pos + 1)
     ELSE /\ pos' = pos + 1 /\ UNCHANGED <<cur, stk>> /\ num' = n /\ mult' = mult * 128
          /\ Keep /\ GoTo("len") /\ UNCHANGED <<res, outs, ends>>

TextLen(l, next) ==
  /\ pc = l /\ Ready /\ Fixed(0) /\ Keep
  /\ Took(2) /\ NoLimitChange
  /\ num' = X(1) * 256 + X(2)
  /\ GoTo(next)
  /\ UNCHANGED <<mult, res, outs, ends>>
Text(l, next) ==
  /\ pc = l /\ Ready /\ Fixed(0) /\ Keep
  /\ IF Utf8Valid(SubSeq(B, pos + 1, pos + num), 1, num)
     THEN Took(num) /\ NoLimitChange /\ num' = 0 /\ mult' = 1 /\ GoTo(next) /\ UNCHANGED <<res, outs, ends>>
     ELSE /\ Took(num) /\ NoLimitChange /\ num' = 0 /\ mult' = 1 /\ res' = "err" /\ GoTo("finish")
          /\ UNCHANGED <<outs, ends>>

(* property length: has to fit into the packet, and limits the section *)
SectionLen ==
  /\ pc = "plen" /\ Ready /\ Fixed(0) /\ Keep
  /\ LET x == X(1)
         n == num + mult * (x % 128) IN
     IF x < 128
     THEN IF n = 0
          THEN Took(1) /\ NoLimitChange /\ num' = 0 /\ mult' = 1 /\ GoTo("rest") /\ UNCHANGED <<res, outs, ends>>
          ELSE IF n > cur - 1
          THEN Took(1) /\ NoLimitChange /\ num' = 0 /\ mult' = 1 /\ res' = "err" /\ GoTo("finish")
               /\ UNCHANGED <<outs, ends>>
          ELSE /\ pos' = pos + 1 /\ cur' = n /\ stk' = Append(stk, cur - 1 - n)
               /\ num' = 0 /\ mult' = 1 /\ GoTo("section") /\ UNCHANGED <<res, outs, ends>>
     ELSE /\ Took(1) /\ NoLimitChange /\ num' = n /\ mult' = mult * 128 /\ GoTo("plen")
          /\ UNCHANGED <<res, outs, ends>>

Section ==
  /\ pc = "section" /\ Ready /\ Fixed(0) /\ Keep
  /\ IF cur = 0
     THEN /\ cur' = ResetCur /\ stk' = ResetStk /\ GoTo("rest")
     ELSE /\ GoTo("id") /\ UNCHANGED <<cur, stk>>
  /\ UNCHANGED <<pos, num, mult, res, outs, ends>>

PropId ==
  /\ pc = "id" /\ Ready /\ Fixed(0) /\ Keep
  /\ Took(1) /\ NoLimitChange
  /\ IF X(1) \in {35, 38}
     THEN GoTo(IF X(1) = 35 THEN "alias" ELSE "klen") /\ UNCHANGED res
     ELSE res' = "err" /\ GoTo("finish")
  /\ UNCHANGED <<num, mult, outs, ends>>
Alias ==
  /\ pc = "alias" /\ Ready /\ Fixed(0) /\ Keep
  /\ Took(2) /\ NoLimitChange /\ GoTo("section")
  /\ UNCHANGED <<num, mult, res, outs, ends>>

Rest ==
  /\ pc = "rest" /\ Ready /\ Fixed(0) /\ Keep
  /\ Took(Wants) /\ NoLimitChange /\ GoTo("finish")
  /\ UNCHANGED <<num, mult, res, outs, ends>>

(* unwind the limits, throw away the rest of the packet *)
Finish ==
  /\ pc = "finish" /\ ~Refused
  /\ IF stk # <<>> /\ Variant # "inner"
     THEN /\ cur' = ResetCur /\ stk' = ResetStk /\ Fixed(0)
          /\ UNCHANGED <<fired, io, pos, pc, num, mult, res, outs, ends>>
     ELSE IF (Variant = "nofinish" /\ res = "err") \/ (Variant = "header" /\ res = "err" /\ pos = 2)
     THEN /\ Fixed(0) /\ fired' = fired /\ cur' = -1 /\ stk' = <<>> /\ pos' = pos /\ Return("err", pos)
     ELSE /\ Ready /\ Fixed(0)
          /\ fired' = fired
          /\ pos' = pos + Wants /\ cur' = -1 /\ stk' = <<>>
          /\ LET r == IF io /\ Variant \notin {"swallow", "partial"} THEN "broken"
                      ELSE IF res = "" /\ Wants = 0 THEN "ok" ELSE "err" IN
             IF Variant = "peek"
             THEN pc' = "peek" /\ res' = r /\ num' = 0 /\ mult' = 1 /\ UNCHANGED <<io, outs, ends>>
             ELSE Return(r, pos + Wants)

Next ==
  \/ Deliver \/ Interrupt \/ Breaks \/ Limited
  \/ Poll \/ FirstByte \/ LenByte
  \/ TextLen("tlen", "topic") \/ Text("topic", "plen")
  \/ SectionLen \/ Section \/ PropId \/ Alias
  \/ TextLen("klen", "key") \/ Text("key", "vlen") \/ TextLen("vlen", "value") \/ Text("value", "section")
  \/ Rest \/ Finish \/ Peek

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
(* what the specification says about the stream up to its first lost packet *)
RECURSIVE Expect(_, _)
Expect(i, e) ==
  LET f == Frame(B, i, e) IN
  CASE f.k = "none" -> <<>>
    [] f.k = "badlen" -> <<[k |-> "lost", p |-> i + 4]>>
    [] f.k = "short" -> <<[k |-> "broken", p |-> e]>>
    [] OTHER -> <<[k |-> IF Decodes(DecodeAt(B, i, f, 5)) THEN "ok" ELSE "err", p |-> f.next - 1]>>
                \o Expect(f.next, e)
Expected == Expect(1, cut)

(* the calls up to the first one that meets the failure, or is lost *)
Solid == IF \E j \in 1..Len(outs) : outs[j] \in {"broken", "lost"}
         THEN (CHOOSE j \in 1..Len(outs) : outs[j] \in {"broken", "lost"}
                                           /\ \A i \in 1..(j - 1) : outs[i] \notin {"broken", "lost"})
         ELSE Len(outs)
AsSpecified ==
  LET x == Expected IN
  IF fault = "once" /\ fired
  THEN \A j \in 1..Min2(Solid, Len(x)) : outs[j] = x[j].k \/ (x[j].k = "broken" /\ outs[j] # "ok")
  ELSE \A j \in 1..Solid : j <= Len(x) /\ outs[j] = x[j].k /\ ends[j] = x[j].p
Complete ==          \* and nothing is left out
  pc = "done" => (Solid >= Len(Expected) \/ (fault = "once" /\ fired))
Progress == \A j \in 1..Len(ends) : ends[j] > (IF j = 1 THEN 0 ELSE ends[j - 1])
Limits ==
  /\ cur >= -1
  /\ pc \in {"poll", "done"} => (cur = -1 /\ stk = <<>>)
  /\ \A j \in 1..Len(stk) : stk[j] >= 0
Ends == <>(pc = "done")

(* a packet that has arrived is returned before anything else is waited for; as  *)
(* long as the packets are known, every reader that delivers it may then stall   *)
Start == IF ends = <<>> THEN 1 ELSE Last(ends) + 1
Prompt ==
  (Waiting /\ ~io /\ Solid = Len(outs)) =>
     IF pc = "poll" THEN Avail = 0
     ELSE LET f == Frame(B, Start, Len(B)) IN f.k = "full" => arr < f.next - 1

(* the decoder reserves a little and what has arrived, whatever is announced *)
Little == 2
Buffer == IF Variant = "eager" THEN Wants ELSE Min2(Wants, Avail + Little)
Frugal == (pc \notin {"poll", "done"} /\ ~Refused) => Buffer <= arr + Little
(* between packets it holds nothing but its position *)
Held == IF Variant = "hoard" THEN pos ELSE Len(stk)
Tidy == pc = "poll" => Held = 0

(* one schedule for every place a piece can end while the decoder is anywhere *)
Hash == FoldLeft(LAMBDA a, x : (a * 31 + x) % 9973, d * 7 + pos * 3 + arr, sched)
Out ==
  IF Emit /\ fault = "none" /\ sched # <<>> /\ pc # "done" /\ Hash % Thin = 0
  THEN PrintT("GEN " \o ToJson([vs |-> <<5>>, b |-> B, sizes |-> sched \o <<99>>]))
  ELSE TRUE
=============================================================================
