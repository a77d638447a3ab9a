-------------------------------- MODULE Trace --------------------------------
(* Validation of executions of the real library against the specification.     *)
(*                                                                             *)
(* EVENTS (environment variable) names a file of JSON lines, one recorded      *)
(* execution each; PROP the property to judge.  Every execution is a behaviour *)
(* of this module: an initial state, then one transition per call for          *)
(* multi-call executions (decode calls on a stream, operations on a byte       *)
(* reader) or one transition for the others.  Each finished execution prints   *)
(* its verdict: "ok" (with what was exercised), "skip" (says nothing about     *)
(* PROP) or "bad" with what was violated.                                      *)
EXTENDS MqttPackets, MqttReader, MqttWriter, MqttBound, Json, IOUtils, TLCExt

Events == ndJsonDeserialize(IOEnv.EVENTS)
PROP == IOEnv.PROP

Ok(x) == <<"ok", x>>
Bad(x) == <<"bad", x>>
Skip == <<"skip", "">>

------------------------------------------------------------------------------
(* packets as recorded: user properties arrive as lists *)
CanonP(props) ==
  IF props = <<>> THEN <<>>
  ELSE <<[props[1] EXCEPT !.up = {@[j] : j \in DOMAIN @}]>>
Canon(p) ==
  IF p.t \in {"pingreq", "pingresp"} THEN p
  ELSE IF p.t = "connect"
  THEN [p EXCEPT !.props = CanonP(@),
                 !.will = IF @ = <<>> THEN <<>>
                          ELSE <<[@[1] EXCEPT !.props = CanonP(@)]>>]
  ELSE [p EXCEPT !.props = CanonP(@)]

(* CONNECT is governed by the version it carries *)
Ver(p, v) == IF p.t = "connect" THEN p.ver ELSE v

IsOk(o) == o.k = "ok"
SameOut(o, q) == IsOk(o) /\ Same(Canon(o.p), q)

------------------------------------------------------------------------------
(* encode events: [v, p, out, rt, used] *)

RoundTrip(ev) ==
  LET p == Canon(ev.p) IN
  IF ~IsOk(ev.out) THEN Skip
  ELSE IF ~IsOk(ev.rt) THEN Bad("encoded packet does not decode: " \o ev.rt.k)
  ELSE IF ev.used # Len(ev.out.b) THEN Bad("decoding uses another number of bytes")
  ELSE IF ~Same(Canon(ev.rt.p), Norm(p, Ver(p, ev.v))) THEN Bad("decoded packet differs")
  ELSE Ok(p.t)

(* position and size of the version 5 property blocks *)
Block(b, i) ==         \* index after the block, 0 if its length is not minimal
  LET n == ReadVar(b, i, Len(b)) IN
  IF ~n.ok THEN 0 ELSE IF n.lax # {} THEN 0 ELSE n.i + n.val
BlocksOk(p, b, bi) ==
  LET last == Len(b) + 1
      one(pre, tail) == Block(b, bi + pre) # 0 /\ Block(b, bi + pre) + tail = last
  IN
  CASE p.t = "connect" ->
         LET e1 == Block(b, bi + 2 + Len(ProtoNames[p.proto]) + 4)
             up == Len(OptBytes(p.user)) + Len(OptBytes(p.pass)) IN
         /\ e1 # 0
         /\ IF p.will = <<>> THEN e1 + 2 + Len(p.cid) + up = last
            ELSE LET w == p.will[1]
                     e2 == Block(b, e1 + 2 + Len(p.cid)) IN
                 /\ e2 # 0
                 /\ e2 + 2 + Len(w.topic[1])
                       + (IF w.payload = <<>> THEN 2 ELSE 2 + Len(w.payload[1])) + up = last
    [] p.t = "connack" -> bi + 2 = last \/ one(2, 0)
    [] p.t = "publish" -> one(2 + Len(p.topic) + (IF p.qos > 0 THEN 2 ELSE 0), Len(p.payload))
    [] p.t \in AckTypes -> bi + 2 = last \/ bi + 3 = last \/ one(3, 0)
    [] p.t = "subscribe" ->
         one(2, FoldLeft(LAMBDA a, x : a + Len(x.topic) + 3, 0, p.subs))
    [] p.t = "unsubscribe" ->
         one(2, FoldLeft(LAMBDA a, x : a + Len(x) + 2, 0, p.topics))
    [] p.t = "suback" -> one(2, Len(p.codes))
    [] p.t = "unsuback" -> one(2, Len(p.codes))
    [] p.t \in {"disconnect", "auth"} -> bi = last \/ bi + 1 = last \/ one(1, 0)
    [] OTHER -> bi = last

Framing(ev) ==
  LET p == Canon(ev.p)
      v == Ver(p, ev.v)
      b == ev.out.b
      f == Frame(b, 1, Len(b)) IN
  IF ~IsOk(ev.out) THEN Skip
  ELSE IF f.k # "full" THEN Bad("not one complete packet: " \o f.k)
  ELSE IF f.next # Len(b) + 1 THEN Bad("bytes after the announced length")
  ELSE IF f.lax # {} THEN Bad("remaining length is not minimal")
  ELSE IF ~HeaderOk(b[1]) THEN Bad("wrong flag bits in the header")
  ELSE IF EncBad(p, v) THEN Ok("unrepresentable")
  ELSE IF b[1] # HeaderByte(p) THEN Bad("wrong header byte")
  ELSE IF v = 5 /\ ~BlocksOk(p, b, f.bi) THEN Bad("wrong property length")
  ELSE Ok(p.t)

WireFields(ev) ==
  LET p == Canon(ev.p)
      v == Ver(p, ev.v)
      d == Decode(ev.out.b, v) IN
  IF ~IsOk(ev.out) THEN Skip
  ELSE IF ~Decodes(d) THEN Bad("no MQTT reader can read the bytes")
  ELSE IF ~Same(d.p, Norm(p, v)) THEN Bad("a MQTT reader reads another packet")
  (* questionable ways to write a value *)
  ELSE IF d.lax \cap {"nonminimal", "bool", "bridge"} # {} THEN Bad("questionable bytes")
  ELSE Ok(p.t)

Representable(ev) ==
  LET p == Canon(ev.p)
      c == EncClass(p, Ver(p, ev.v)) IN
  IF ev.out.k = "panic" THEN Bad("panic")
  ELSE IF c = "err" /\ IsOk(ev.out) THEN Bad("encodes a packet that has no representation")
  ELSE IF c = "ok" /\ ~IsOk(ev.out) THEN Bad("refuses a representable packet")
  ELSE Ok(c)

FullEnc(ev) ==
  LET a == Representable(ev) w == WireFields(ev) r == RoundTrip(ev) IN
  IF a[1] = "bad" THEN a
  ELSE IF w[1] = "bad" THEN w
  ELSE IF r[1] = "bad" THEN r
  ELSE IF IsOk(ev.out) /\ ~EncBad(Canon(ev.p), Ver(ev.p, ev.v))
          /\ ev.out.b[1] # HeaderByte(ev.p) THEN Bad("wrong header byte")
  ELSE a

PropsOf(p) == IF p.t \in {"pingreq", "pingresp"} THEN <<>> ELSE p.props
WillPropsOf(p) ==
  IF p.t # "connect" THEN <<>> ELSE IF p.will = <<>> THEN <<>> ELSE p.will[1].props
SameProps(p, q) == PropsOf(Squash(p)) = PropsOf(Squash(q))
                   /\ WillPropsOf(Squash(p)) = WillPropsOf(Squash(q))
UpOf(props) == IF props = <<>> THEN {} ELSE props[1].up
SameUp(p, q) == UpOf(PropsOf(p)) = UpOf(PropsOf(q))
                /\ UpOf(WillPropsOf(p)) = UpOf(WillPropsOf(q))
HasUp(p) == UpOf(PropsOf(p)) # {} \/ UpOf(WillPropsOf(p)) # {}

EncProps(ev) ==       \* C15
  LET p == Canon(ev.p)
      v == Ver(p, ev.v)
      d == Decode(ev.out.b, v) IN
  IF v # 5 THEN Skip
  ELSE IF ~IsOk(ev.out) THEN
       IF EncClass(p, v) = "ok" THEN Bad("refuses allowed properties") ELSE Skip
  ELSE IF ~Decodes(d) THEN Bad("property section cannot be read")
  ELSE IF ~SameProps(d.p, Norm(p, v)) THEN Bad("other properties on the wire")
  ELSE IF IsOk(ev.rt) /\ ~SameProps(Canon(ev.rt.p), Norm(p, v))
  THEN Bad("other properties after decoding")
  ELSE Ok(p.t)

(* nothing but a reason code of version 5 could have been written *)
ReasonBelow(p, b) ==
  \/ p.t = "connack" /\ p.ret = <<>> /\ Len(b) = 4 /\ p.rea \notin {<<>>, <<0>>} /\ <<b[4]>> = p.rea
  \/ p.t = "suback" /\ p.granted = <<>> /\ p.codes # <<>> /\ Len(b) > 4
EncVersion(ev) ==     \* C16
  LET p == Canon(ev.p)
      v == Ver(p, ev.v) IN
  IF ~IsOk(ev.out)
  THEN IF v < 5 /\ EncClass(p, v) = "ok" THEN Bad("version 5 fields matter below version 5")
       ELSE IF v = 5 /\ EncClass(p, v) = "ok" THEN Bad("refuses a version 5 packet")
       ELSE Skip
  ELSE IF /\ v < 5 /\ EncClass(p, v) = "err" /\ ReasonBelow(p, ev.out.b)
  THEN Bad("version 5 reason code below version 5")
  ELSE IF EncBad(p, v) THEN Skip
  ELSE IF v < 5 THEN IF ev.out.b # Enc(p, v) THEN Bad("bytes depend on version 5 fields") ELSE Ok(p.t)
  ELSE LET d == Decode(ev.out.b, v) IN
       IF ~Decodes(d) THEN Bad("not a version 5 packet")
       ELSE IF ~Same(d.p, Norm(p, v)) THEN Bad("version 5 fields missing")
       ELSE Ok(p.t)

EncUser(ev) ==        \* C18
  LET p == Canon(ev.p)
      v == Ver(p, ev.v)
      d == Decode(ev.out.b, v) IN
  IF v # 5 \/ ~HasUp(p) THEN Skip
  ELSE IF ~IsOk(ev.out)
  THEN IF EncClass(p, v) = "ok" THEN Bad("refuses user properties") ELSE Skip
  ELSE IF ~Decodes(d) THEN Bad("cannot be read")
  ELSE IF ~SameUp(d.p, Norm(p, v)) THEN Bad("other user properties on the wire")
  ELSE IF ~IsOk(ev.rt) THEN Bad("cannot be decoded")
  ELSE IF ~SameUp(Canon(ev.rt.p), Norm(p, v)) THEN Bad("other user properties after decoding")
  ELSE Ok(p.t)

EncAck(ev) ==         \* C19
  IF ev.p.t \in AckTypes THEN FullEnc(ev) ELSE Skip

------------------------------------------------------------------------------
(* decode events: [v, b, out, used, more] *)

Unjudged == {"dup", "bool"}      \* contents of such a packet are left open
DecOk(ev, d) ==
  IF ev.out.k = "panic" THEN Bad("panic")
  ELSE IF d.r = "ok" THEN
       IF ~IsOk(ev.out) THEN Bad("valid packet refused")
       ELSE IF ~Same(Canon(ev.out.p), d.p) THEN Bad("decoded to another packet")
       ELSE Ok("valid " \o d.p.t)
  ELSE IF d.r = "lax" THEN
       IF ~IsOk(ev.out)
       THEN IF PROP = "C04" /\ d.lax \subseteq NotText
            THEN Bad("valid packet refused, not UTF-8: " \o (CHOOSE x \in d.lax : TRUE))
            ELSE IF PROP = "C17" /\ d.lax = {"short"} /\ d.p.t = "connack" /\ Len(ev.b) >= 4
            THEN Bad("short form refused")
            ELSE Ok("questionable, refused")
       ELSE IF d.lax \cap Unjudged # {} THEN Skip
       ELSE IF ~Same(Canon(ev.out.p), d.p) THEN Bad("decoded to another packet")
       ELSE Ok("questionable " \o d.p.t)
  ELSE Skip
DecErr(ev, d) ==
  IF d.r # "err" THEN Skip
  ELSE IF IsOk(ev.out) THEN Bad("malformed packet accepted")
  ELSE IF ev.out.k = "panic" THEN Bad("panic")
  ELSE Ok("malformed")
FullDec(ev) ==
  LET d == Decode(ev.b, ev.v)
      a == DecOk(ev, d) IN IF a[1] # "skip" THEN a ELSE DecErr(ev, d)

DecProps(ev) ==       \* C15
  LET d == Decode(ev.b, ev.v) IN
  IF d.r = "err" THEN DecErr(ev, d)
  ELSE IF d.r = "old" THEN Skip
  ELSE IF ~IsOk(ev.out) THEN IF d.r = "ok" THEN Bad("allowed property refused") ELSE Ok("refused")
  ELSE IF d.lax \cap Unjudged # {} THEN Skip
  ELSE IF ~SameProps(Canon(ev.out.p), d.p) THEN Bad("property read wrongly")
  ELSE Ok(d.p.t)

DecUser(ev) ==        \* C18
  LET d == Decode(ev.b, ev.v) IN
  IF ~Decodes(d) THEN Skip
  ELSE IF ~HasUp(d.p) THEN
       IF IsOk(ev.out) /\ HasUp(Canon(ev.out.p)) THEN Bad("user properties from nowhere") ELSE Skip
  ELSE IF ~IsOk(ev.out) THEN IF d.r = "ok" THEN Bad("user properties refused") ELSE Skip
  ELSE IF ~SameUp(Canon(ev.out.p), d.p) THEN Bad("user properties differ")
  ELSE Ok(d.p.t)

DecAckEv(ev) ==       \* C19
  IF ev.b = <<>> THEN Skip
  ELSE IF HeaderType(ev.b[1]) \notin AckTypes THEN Skip
  ELSE IF IsOk(ev.out)
          /\ LET q == ev.out.p t == HeaderType(ev.b[1]) IN
             ~(/\ q.t = t /\ q.cmd = t
               /\ IF ev.v = 5
                  THEN IF t \in FamilyA THEN Len(q.a) = 1 /\ q.c = <<>>
                       ELSE Len(q.c) = 1 /\ q.a = <<>>
                  ELSE q.a = <<>> /\ q.c = <<>>)
  THEN Bad("type and reason code disagree")
  ELSE FullDec(ev)

------------------------------------------------------------------------------
(* relay: [v, b, chain], chain alternating decoded packets and their encodings *)
Relay(ev) ==
  LET c == ev.chain
      ds == {j \in 1..Len(c) : (j % 2) = 1}
      d == Decode(ev.b, ev.v)
      n == Norm(d.p, Ver(d.p, ev.v))      \* only looked at if the bytes are valid
      e == Decode(c[2].b, ev.v) IN
  IF c[1].k # "ok" THEN IF c[1].k = "panic" THEN Bad("panic") ELSE Skip
  ELSE IF \E j \in ds : c[j].k # "ok" THEN Bad("re-encoded packet does not decode")
  ELSE IF \E j \in ds : ~Same(Canon(c[j].p), Canon(c[1].p)) THEN Bad("relayed packet differs")
  ELSE IF \E j \in 1..Len(c) : c[j].k = "panic" THEN Bad("panic")
  ELSE IF ~Decodes(d) THEN Ok(IF Len(c) = 2 THEN "not re-encodable" ELSE c[1].p.t)
  ELSE IF d.lax \cap Unjudged # {} THEN Ok(IF Len(c) = 2 THEN "not re-encodable" ELSE c[1].p.t)
  ELSE IF ~Same(Canon(c[1].p), d.p) THEN Bad("packet is not what the bytes say")
  ELSE IF Len(c) = 1 THEN Bad("neither bytes nor an error")
  ELSE IF c[2].k # "bytes" THEN Ok("not re-encodable")
  ELSE IF ~Decodes(e) THEN Bad("re-encoded bytes cannot be read")
  ELSE IF ~Same(e.p, n) THEN Bad("re-encoded bytes say something else")
  ELSE Ok(IF Len(c) = 2 THEN "not re-encodable" ELSE c[1].p.t)

------------------------------------------------------------------------------
(* sizes *)
(* PUBLISH with topic "t", identifier 258 and ev.n payload bytes (more than a   *)
(* TLC integer holds if ev.huge)                                               *)
Big(ev) ==
  LET least == 5 + (IF ev.v = 5 THEN (IF ev.props THEN 5 ELSE 1) ELSE 0)
      fits == IF ev.huge THEN FALSE ELSE least + ev.n <= VarMax
      f == ReadVar(ev.head, 2, Len(ev.head))
      q == ReadVar(ev.head, f.i + 5, Len(ev.head))
      block == IF ev.v = 5 THEN VarLen(q.val) + q.val ELSE 0 IN
  IF PROP = "C06" THEN
    IF ev.k = "panic" THEN Bad("panic")
    ELSE IF fits /\ ev.k # "ok" THEN Bad("refuses a packet that fits")
    ELSE IF ~fits /\ ev.k = "ok" THEN Bad("encodes a packet that is too large")
    ELSE Ok("size")
  ELSE IF ev.k # "ok" THEN Skip
  ELSE IF ~fits THEN Bad("no length for this packet")
  ELSE IF PROP = "C01" THEN IF ev.rt THEN Ok("size") ELSE Bad("large packet does not come back")
  ELSE IF ev.head[1] # 50 THEN Bad("header of a large packet")
  ELSE IF ~f.ok THEN Bad("remaining length of a large packet")
  ELSE IF f.lax # {} THEN Bad("remaining length is not minimal")
  ELSE IF ev.total # IntToHalves(f.i - 1 + f.val) THEN Bad("total size")
  ELSE IF SubSeq(ev.head, f.i, f.i + 4) # <<0, 1, 116, 1, 2>> THEN Bad("start of a large packet")
  ELSE IF ev.v = 5 /\ ~q.ok THEN Bad("property length of a large packet")
  ELSE IF f.val # 5 + block + ev.n THEN Bad("size of a large packet")
  ELSE Ok("size")

(* the base packet with the field at loc set to the byte x repeated n times *)
WithLong(p, loc, n) ==
  LET x == [j \in 1..n |-> 120]
      up(k, w) == {[k |-> k, vs |-> <<w>>]}
      pr(f, val) == [p EXCEPT !.props = <<[@[1] EXCEPT ![f] = val]>>]
      wp(f, val) == [p EXCEPT !.will = <<[@[1] EXCEPT !.props = <<[@[1] EXCEPT ![f] = val]>>]>>]
  IN CASE loc[1] = "top" -> [p EXCEPT ![loc[2]] = x]
       [] loc[1] = "raw" -> [p EXCEPT ![loc[2]] = x]
       [] loc[1] = "opt" -> [p EXCEPT ![loc[2]] = <<x>>]
       [] loc[1] = "p" -> pr(loc[2], x)
       [] loc[1] = "popt" -> pr(loc[2], <<x>>)
       [] loc[1] = "upk" -> pr("up", up(x, <<118>>))
       [] loc[1] = "upv" -> pr("up", up(<<107>>, x))
       [] loc[1] = "wopt" -> [p EXCEPT !.will = <<[@[1] EXCEPT ![loc[2]] = <<x>>]>>]
       [] loc[1] = "wp" -> wp(loc[2], x)
       [] loc[1] = "wpopt" -> wp(loc[2], <<x>>)
       [] loc[1] = "wupk" -> wp("up", up(x, <<118>>))
       [] loc[1] = "wupv" -> wp("up", up(<<107>>, x))
       [] loc[1] = "sub" -> [p EXCEPT !.subs = [@ EXCEPT ![1].topic = x]]
       [] loc[1] = "topic" -> [p EXCEPT !.topics = [@ EXCEPT ![1] = x]]
Long(ev) ==
  LET p == WithLong(Canon(ev.p), ev.loc, ev.n)
      v == Ver(p, ev.v)
      f == ReadVar(ev.head, 2, Len(ev.head)) IN
  IF PROP = "C06" THEN
    LET c == EncClass(p, v) IN
    IF ev.k = "panic" THEN Bad("panic")
    ELSE IF c = "err" /\ ev.k = "ok" THEN Bad("encodes a field that is too long")
    ELSE IF c = "ok" /\ ev.k # "ok" THEN Bad("refuses a field that fits")
    ELSE Ok("long field " \o c)
  ELSE IF ev.k # "ok" THEN Skip
  ELSE IF PROP = "C01" THEN IF ev.rt THEN Ok("long field") ELSE Bad("long field does not come back")
  ELSE IF ~f.ok THEN Bad("header of a long packet")
  ELSE IF f.lax # {} \/ ev.total # f.i - 1 + f.val THEN Bad("length of a long packet")
  ELSE Ok("long field")

\* An item of a list or a pair of a property section, repeated until the packet
\* has the size of the limit: the size follows from one and two of them.
Grow(p, place, j) ==
  LET many(l) == [x \in 1..(Len(l) + j - 1) |-> IF x <= j THEN l[1] ELSE l[x - j + 1]]
      pairs(props) == <<[props[1] EXCEPT !.up = {[u EXCEPT !.vs = many(@)] : u \in @}]>>
  IN IF place = "up" THEN [p EXCEPT !.props = pairs(@)]
     ELSE IF place = "will" THEN [p EXCEPT !.will = <<[@[1] EXCEPT !.props = pairs(@)]>>]
     ELSE [p EXCEPT ![place] = many(@)]

Vast(ev) ==
  LET p == Canon(ev.p)
      v == Ver(p, ev.v)
      inside == ev.place \in {"up", "will"}
      rec(q) == IF ev.place = "up" THEN q.props[1] ELSE q.will[1].props[1]
      sec == IF ev.place = "up" THEN SectionOf(p.t) ELSE "will"
      at(j) == Len(EncBody(Grow(p, ev.place, j), v))
      sat(j) == IF inside THEN Len(PropBytes(sec, rec(Grow(p, ev.place, j)))) ELSE 0
      more(one, two) == one + ((ev.times - 1) * (two - one))
      sn == more(sat(1), sat(2))
      n == IF inside THEN (at(1) - VarLen(sat(1)) - sat(1)) + (VarLen(sn) + sn) ELSE more(at(1), at(2))
      slack == 64                  \* properties with their default value may be written
      f == ReadVar(ev.head, 2, Len(ev.head)) IN
  IF EncClass(p, v) # "ok" THEN Skip
  ELSE IF PROP = "C06" THEN
    IF ev.k = "panic" THEN Bad("panic")
    ELSE IF n > VarMax /\ ev.k = "ok" THEN Bad("encodes a packet that is too large")
    ELSE IF n + slack <= VarMax /\ ev.k # "ok" THEN Bad("refuses a packet that fits")
    ELSE IF p.props = <<>> /\ n <= VarMax /\ ev.k # "ok" THEN Bad("refuses a packet that fits")
    ELSE Ok("vast " \o ev.place \o " " \o ev.k)
  ELSE IF ev.k # "ok" THEN Skip
  ELSE IF PROP = "C01" THEN IF ev.rt THEN Ok("vast " \o ev.place) ELSE Bad("a vast packet does not come back")
  ELSE IF ~f.ok THEN Bad("header of a vast packet")
  ELSE IF f.lax # {} \/ ev.total # f.i - 1 + f.val THEN Bad("length of a vast packet")
  ELSE IF f.val < n \/ f.val > n + slack THEN Bad("size of a vast packet")
  ELSE Ok("vast " \o ev.place)

------------------------------------------------------------------------------
(* streams: one transition per decode call.  s.pos bytes are consumed so far;  *)
(* s.live: the position of the next packet is still known                      *)
StreamStart == [pos |-> 0, live |-> TRUE]

StreamStep(ev, k, s) ==        \* <<verdict or none, next s>>
  LET c == ev.calls[k]
      b == ev.b
      f == Frame(b, s.pos + 1, Len(b))
      full == f.k = "full" /\ s.live
      moved(x) == <<x, [pos |-> c.pos, live |-> full]>>
  IN
  CASE PROP = "C07" ->
         IF ~s.live THEN moved("")
         ELSE IF full /\ c.out.k = "panic" THEN moved("panic")
         ELSE IF full /\ c.pos # f.next - 1 THEN moved("does not consume exactly the packet")
         ELSE IF c.pos > Len(b) \/ c.pos < s.pos THEN moved("impossible position")
         ELSE IF c.more = "yes" /\ c.pos = Len(b) THEN moved("reports more input than there is")
         ELSE IF c.more = "no" /\ c.pos < Len(b) THEN moved("reports the end too early")
         ELSE moved("")
    [] PROP = "C08" ->
         IF ~full \/ k > Len(ev.iso) THEN moved("")
         ELSE IF ev.iso[k].b # SubSeq(b, s.pos + 1, f.next - 1) THEN
              (* the recorded single packet is not the one at this place *)
              <<"", [pos |-> c.pos, live |-> FALSE]>>
         ELSE IF c.out # ev.iso[k].out THEN moved("decodes differently than alone")
         ELSE moved("")
    [] PROP = "C10" ->
         IF c.out.k = "panic" \/ c.more = "panic" THEN moved("panic")
         ELSE IF c.pos <= s.pos /\ s.pos < Len(b) THEN moved("call consumes nothing")
         ELSE IF k = Len(ev.calls) /\ c.more = "yes" THEN moved("loop does not end")
         ELSE IF k > Len(b) /\ k > 1 THEN moved("more calls than bytes")
         ELSE moved("")

(* byte reader sessions, see MqttReader *)
RdStep(ev, k, s) ==
  LET o == ev.ops[k]
      r == o.r
      w == RdApply(ev.b, s, o)
      (* user properties are recorded as a list *)
      got == IF o.op = "props" /\ r.k = "ok" THEN [r.x EXCEPT !.up = {@[j] : j \in DOMAIN @}] ELSE r.x IN
  IF r.k = "panic" THEN <<"panic", [s EXCEPT !.live = FALSE]>>
  ELSE IF ~s.live THEN <<"", s>>
  ELSE <<IF w.k = "ok" /\ r.k # "ok" THEN "refuses what must be possible"
         ELSE IF w.k = "err" /\ r.k # "err" THEN "reads past a limit, the end or a bad value"
         ELSE IF w.k = "ok" /\ got # w.x THEN "gives another value"
         ELSE "", w.s>>

------------------------------------------------------------------------------
(* writer sessions: ops with their outcome, and what was written in the end     *)
WrOp(o) == IF o.op = "props" THEN [o EXCEPT !.x.up = {@[j] : j \in DOMAIN @}] ELSE o
WrOps(ev, k, s) ==
  LET o == WrOp(ev.ops[k]) IN
  IF o.k = "panic" THEN <<"panic", s>>
  ELSE LET r == WrStep(ev.out, s, o, o.k) IN
       IF r[1] # "" \/ k < Len(ev.ops) THEN r ELSE <<WrEnd(ev.out, r[2]), r[2]>>

------------------------------------------------------------------------------
Cut(ev) ==            \* C09
  LET f == Frame(ev.b, 1, Len(ev.b)) IN
  IF f.k # "full" THEN Skip
  ELSE IF f.next # Len(ev.b) + 1 THEN Skip
  ELSE IF \E j \in 1..Len(ev.runs) :
            /\ ev.runs[j].k # "err"
            /\ Frame(ev.b, 1, ev.runs[j].cut).k # "full"
  THEN Bad("incomplete packet: " \o
           LET j == CHOOSE j \in 1..Len(ev.runs) : ev.runs[j].k # "err"
           IN ToString(ev.runs[j]))
  ELSE Ok("cut " \o ev.full)

Chunk(ev) ==          \* C11
  IF Len(ev.classes) # 1
  THEN Bad("delivery matters: " \o ev.classes[1].how \o " / " \o ev.classes[2].how)
  ELSE Ok("calls " \o ToString(Len(ev.classes[1].outs)))

------------------------------------------------------------------------------
(* C22: the reader underneath is asked only while bytes of the packet at hand   *)
(* are missing; asking whether there is more does so only when everything that  *)
(* was delivered is used up.  asks: bytes delivered whenever it was asked       *)
PromptStep(ev, k, s) ==
  LET c == ev.calls[k]
      f == Frame(ev.b, s.pos + 1, Len(ev.b)) IN
  IF ~s.live THEN <<"", s>>
  ELSE IF c.q = "more"
  THEN <<IF \A j \in DOMAIN c.asks : c.asks[j] = s.pos THEN "" ELSE "waits for bytes although some are there", s>>
  ELSE IF f.k # "full" THEN <<"", [s EXCEPT !.live = FALSE]>>
  ELSE <<IF \A j \in DOMAIN c.asks : c.asks[j] < f.next - 1 THEN "" ELSE "waits for bytes beyond the packet",
         [s EXCEPT !.pos = f.next - 1]>>

(* C24: calls of several users of the library, in the order they finished.      *)
(* s: calls done and bytes consumed per user                                    *)
Keys(q) == IF q.t \in {"pingreq", "pingresp"} THEN 0
           ELSE Cardinality(UpOf(q.props)) + (IF q.t = "connect" THEN Cardinality(UpOf(WillPropsOf(q))) ELSE 0)
(* the order of user property keys is open *)
SameBytes(p, v, x, y) ==
  \/ x = y
  \/ /\ Keys(p) > 1 /\ Len(x) = Len(y)
     /\ LET a == Decode(x, v) c == Decode(y, v) IN
        Decodes(a) /\ Decodes(c) /\ (Decodes(a) /\ Decodes(c) => Same(a.p, c.p))
ShareEnc(u, c, alone) ==
  LET p == Canon(u.ps[c.o])
      v == Ver(p, u.vs[c.o])
      class == EncClass(p, v) IN
  IF c.out.k # alone.k THEN "encodes otherwise than alone"
  ELSE IF ~IsOk(c.out) THEN IF class = "ok" THEN "refuses a representable packet" ELSE ""
  ELSE IF ~SameBytes(p, v, c.out.b, alone.b) THEN "other bytes than alone"
  ELSE IF class = "err" THEN "encodes a packet that has no representation"
  ELSE IF class = "ok" /\ WireFields([p |-> u.ps[c.o], v |-> u.vs[c.o], out |-> c.out])[1] = "bad"
  THEN "other bytes than specified"
  ELSE ""
ShareDec(u, c, alone, pos) ==
  LET f == Frame(u.b, pos + 1, Len(u.b)) IN
  IF c.out # alone THEN "decodes otherwise than alone"
  ELSE IF pos < 0 THEN ""
  ELSE IF f.k # "full" THEN IF IsOk(c.out) THEN "packet from a part of one" ELSE ""
  ELSE LET r == FullDec([b |-> SubSeq(u.b, pos + 1, f.next - 1), v |-> u.vs[c.o], out |-> c.out]) IN
       IF r[1] = "bad" THEN r[2] ELSE ""
ShareStep(ev, k, s) ==
  LET c == ev.calls[k]
      u == ev.us[c.u]
      f == Frame(u.b, s.pos[c.u] + 1, Len(u.b))
      next == [calls |-> [s.calls EXCEPT ![c.u] = @ + 1],
               (* -1: the packets of this stream are lost *)
               pos |-> IF u.k = "enc" \/ s.pos[c.u] < 0 THEN s.pos
                       ELSE [s.pos EXCEPT ![c.u] = IF f.k = "full" THEN f.next - 1 ELSE -1]]
  IN IF c.o # s.calls[c.u] + 1 THEN <<"calls out of order", s>>
     ELSE IF c.out.k = "panic" THEN <<"panic", next>>
     ELSE <<IF u.k = "enc" THEN ShareEnc(u, c, ev.alone[c.u][c.o])
            ELSE ShareDec(u, c, ev.alone[c.u][c.o], s.pos[c.u]), next>>

(* C25: packets taken by the decoder or by hand (header, the type's own         *)
(* decoder, what is left of the packet); what the type's own encoder writes     *)
HandStep(ev, k, s) ==
  LET c == ev.calls[k]
      f == Frame(ev.b, s.pos + 1, Len(ev.b))
      got == IF IsOk(c.out) /\ c.left > 0 THEN [k |-> "err"] ELSE c.out
      moved(x) == <<x, [pos |-> c.pos, live |-> f.k = "full" /\ c.pos = f.next - 1]>>
  IN
  IF c.out.k = "panic" \/ c.more = "panic" THEN moved("panic")
  ELSE IF ~s.live THEN <<"", s>>
  ELSE IF f.k # "full" THEN moved(IF IsOk(got) THEN "packet from a part of one" ELSE "")
  ELSE LET x == SubSeq(ev.b, s.pos + 1, f.next - 1)
           r == FullDec([b |-> x, v |-> ev.vs[((k - 1) % Len(ev.vs)) + 1], out |-> got]) IN
       IF r[1] = "bad" THEN moved(r[2])
       ELSE IF (IsOk(got) \/ c.how = "dec") /\ c.pos # f.next - 1 THEN moved("does not consume exactly the packet")
       ELSE IF (IsOk(got) \/ c.how = "dec") /\ (c.more = "yes") # (c.pos < Len(ev.b))
            THEN moved("does not tell that there is more")
       ELSE IF k > Len(ev.iso) THEN moved("")
       ELSE IF ev.iso[k].b # x THEN moved("")
       ELSE IF got # ev.iso[k].out THEN moved("the two levels decode differently")
       ELSE moved("")
Level(ev) ==
  LET x == ShareEnc([ps |-> <<ev.p>>, vs |-> <<ev.v>>], [o |-> 1, out |-> ev.low], ev.top)
      y == ShareEnc([ps |-> <<ev.p>>, vs |-> <<ev.v>>], [o |-> 1, out |-> ev.again], ev.low) IN
  IF "panic" \in {ev.top.k, ev.low.k, ev.again.k} THEN Bad("panic")
  ELSE IF ~ev.same THEN Bad("encoding changes the packet")
  ELSE IF x # "" THEN Bad("own encoder: " \o x)
  ELSE IF y # "" THEN Bad("own encoder again: " \o y)
  ELSE Ok("level " \o ev.p.t)

(* C17: the properties nobody set *)
Defaulted(ev) ==
  IF ev.r.k # "ok" THEN Bad("panic")
  ELSE IF ev.r.x.up # <<>> \/ NoFlag([ev.r.x EXCEPT !.up = {}]) # Defaults[ev.sec] THEN Bad("default properties say something")
  ELSE Ok("defaults")

(* C26: comparing and copying, of packets, their structures and enumerations *)
Compare(ev) ==
  LET e == ev.p = ev.q IN
  IF ev.r.k # "ok" THEN Bad("panic")
  ELSE IF ev.r.copy # ev.p THEN Bad("the copy says something else")
  ELSE IF ~ev.r.alike THEN Bad("the copy is not equal")
  ELSE IF ev.r.pq # ev.r.qp THEN Bad("equal in one direction only")
  ELSE IF ev.r.pq = ev.r.ne THEN Bad("both equal and unequal, or neither")
  ELSE IF ev.r.pq /\ ~e THEN Bad("equal though they say different things")
  ELSE IF ~ev.r.pq /\ e THEN Bad("unequal though they say the same")
  ELSE Ok(IF e THEN "equal" ELSE "unequal")

(* C23: memory for what has arrived.  The figures leave room for any reasonable *)
(* representation of the packets; what a packet announces is up to 256 MiB      *)
Memory(ev) ==
  IF ev.peak > 131072 + 256 * Len(ev.b) THEN Bad("reserves memory for bytes that never arrived")
  ELSE IF ev.kept > 16384 + 16 * Len(ev.b) THEN Bad("holds on to memory of packets that are done")
  ELSE Ok("memory, " \o (IF ev.times > 100 THEN "many packets" ELSE "few packets"))

(* C27: microseconds, kilobytes reserved in total, times reserved               *)
Work(ev) ==
  LET of(m) == [j \in 1..Len(ev.w) |-> ev.w[j][m]] IN
  IF ev.k # "ok" THEN Bad(IF ev.k = "panic" THEN "panic" ELSE "does not end")
  ELSE IF ~Proportionate(ev.ns, of(1), 500) THEN Bad("takes time out of proportion")
  ELSE IF ~Proportionate(ev.ns, of(2), 64) THEN Bad("reserves memory out of proportion")
  ELSE IF ~Proportionate(ev.ns, of(3), 200) THEN Bad("reserves memory too often")
  ELSE Ok("work " \o ev.side \o " " \o ev.place)

------------------------------------------------------------------------------
Prim(ev) ==           \* C13
  LET b == IF "b" \in DOMAIN ev THEN ev.b ELSE <<>>
      e == Len(b)
      rd(q) == IF ~q.ok THEN IF ev.r.k = "err" THEN Ok("refused") ELSE Bad("accepts a bad encoding")
               ELSE IF ev.r.k # "ok" THEN Bad("refuses a good encoding")
               ELSE IF ev.r.x # q.val THEN Bad("reads another value")
               ELSE IF ev.rest # SubSeq(b, q.i, e) THEN Bad("consumes too much or too little")
               ELSE Ok("read")
      wr(x) == IF ev.r.k # "ok" THEN Bad("refused") ELSE IF ev.r.x # x THEN Bad("writes other bytes") ELSE Ok("written")
      rdvar == LET q == ReadVar(b, 1, e) IN
               IF q.ok THEN [q EXCEPT !.val = IntToHalves(@)] ELSE q
  IN
  IF ev.r.k = "panic" THEN Bad("panic") ELSE
  CASE ev.op = "u8" -> rd(ReadU8(b, 1, e))
    [] ev.op = "bool" -> rd(ReadBool(b, 1, e))
    [] ev.op = "u16" -> rd(ReadU16(b, 1, e))
    [] ev.op = "u32" -> rd(ReadU32(b, 1, e))
    [] ev.op = "var" -> rd(rdvar)
    [] ev.op = "str" ->
         LET q == ReadStr(b, 1, e) IN
         (* strings with U+0000 may be refused *)
         IF q.ok /\ q.lax # {} /\ ev.r.k = "err" THEN Skip ELSE rd(q)
    [] ev.op = "bin" -> rd(ReadBin(b, 1, e))
    [] ev.op = "wvar" ->
         IF HalvesGt(ev.x, VarMaxHalves)
         THEN IF ev.r.k = "err" THEN Ok("refused") ELSE Bad("writes a number that is too large")
         ELSE wr(Var(HalvesToInt(ev.x)))
    (* without a writer; zero is left to write_variable_num *)
    [] ev.op = "wvarnum" ->
         IF ev.x = <<0, 0>> \/ HalvesGt(ev.x, VarMaxHalves) THEN Skip ELSE wr(Var(HalvesToInt(ev.x)))
    [] ev.op \in {"wu16", "wnum"} -> wr(U16(ev.x))
    [] ev.op = "wu32" -> wr(U32(ev.x))
    [] ev.op \in {"wstr", "wbin"} ->
         IF Len(ev.x) > MaxField
         THEN IF ev.r.k = "err" THEN Ok("refused") ELSE Bad("writes a field that is too long")
         ELSE wr(Bin(ev.x))

Code(ev) ==           \* C14
  IF ev.r.k = "panic" THEN Bad("panic") ELSE
  CASE ev.dir = "from" ->
         LET tab == Families[ev.fam] IN
         IF HasByte(tab, ev.x)
         THEN IF ev.r.k # "ok" THEN Bad("assigned byte refused")
              ELSE IF ev.r.x # NameOf(tab, ev.x) THEN Bad("byte read as another member")
              ELSE Ok(ev.fam)
         ELSE IF ev.r.k = "ok" THEN Bad("unassigned byte accepted") ELSE Ok(ev.fam)
    [] ev.dir \in {"to", "bits", "type"} /\ ev.r.k # "ok" -> Bad("refused")
    [] ev.dir = "to" ->
         IF ev.r.x = Families[ev.fam][ev.m] THEN Ok(ev.fam) ELSE Bad("member written as another byte")
    [] ev.dir = "bits" ->
         IF ev.x > 15 THEN Skip
         ELSE IF ev.r.x = NameOf(PacketTypes, ev.x) THEN Ok("ptype") ELSE Bad("packet type")
    [] ev.dir = "type" ->
         IF ev.m = "pubrel" THEN Skip      \* its flags are added by its encoder
         ELSE IF ev.r.x = 16 * PacketTypes[ev.m] + FlagsOf(ev.m) THEN Ok("ptype")
         ELSE Bad("packet type byte")
    [] ev.dir = "header" ->
         IF HeaderType(ev.x) = "reserved" THEN Skip
         ELSE IF HeaderOld(ev.x) THEN Skip
         ELSE IF ~HeaderOk(ev.x)
         THEN IF ev.r.k = "ok" THEN Bad("header byte accepted") ELSE Ok("header")
         ELSE IF ev.r.k # "ok" THEN Bad("header byte refused")
         ELSE IF /\ ev.r.x.t = HeaderType(ev.x)
                 /\ (ev.r.x.t = "publish" =>
                       /\ ev.r.x.dup = Bit(ev.x, 3)
                       /\ ev.r.x.qos = (ev.x \div 2) % 4
                       /\ ev.r.x.retain = Bit(ev.x, 0)
                       /\ ev.r.x.enc.k = "ok" /\ ev.r.x.enc.x = ev.x)
         THEN Ok("header") ELSE Bad("header fields")
    (* the flags byte of CONNECT *)
    [] ev.dir = "flags" ->
         LET will == Bit(ev.x, 2)
             q == (ev.x \div 8) % 4
             want == [user |-> Bit(ev.x, 7), password |-> Bit(ev.x, 6), retain |-> Bit(ev.x, 5),
                      qos |-> q, will |-> will, clean |-> Bit(ev.x, 1)]
             lw == IF will THEN <<[qos |-> q, retain |-> Bit(ev.x, 5), empty |-> TRUE]>> ELSE <<>>
         IN
         IF ev.new.k # "ok" THEN Bad("flags refused")
         ELSE IF ev.new.x # want THEN Bad("flags read otherwise")
         ELSE IF Bit(ev.x, 0) \/ q = 3 \/ (~will /\ (q # 0 \/ Bit(ev.x, 5)))
         THEN IF ev.r.k = "ok" THEN Bad("connect flags accepted") ELSE Ok("flags")
         (* a password without a user name is up to the version *)
         ELSE IF ev.r.k # "ok" THEN IF Bit(ev.x, 6) /\ ~Bit(ev.x, 7) THEN Skip ELSE Bad("connect flags refused")
         ELSE IF ev.r.x.flags # want THEN Bad("flags read otherwise")
         ELSE IF ev.r.x.will # lw THEN Bad("will of the flags")
         ELSE Ok("flags")
    [] ev.dir = "name" ->
         IF HasByte(ProtoNames, ev.x)
         THEN IF ev.r.k = "ok" /\ ev.r.x = NameOf(ProtoNames, ev.x) THEN Ok("proto")
              ELSE Bad("protocol name")
         ELSE IF ev.r.k = "ok" THEN Bad("unknown protocol name accepted") ELSE Ok("proto")

Constructor(ev) ==    \* C19
  LET want == [t |-> ev.fn, cmd |-> ev.fn,
               a |-> IF ev.fn \in FamilyA /\ ev.v = 5 THEN <<ev.code>> ELSE <<>>,
               c |-> IF ev.fn \in FamilyC /\ ev.v = 5 THEN <<ev.code>> ELSE <<>>,
               mid |-> ev.mid, props |-> ev.props] IN
  IF ev.p.k # "ok" THEN Bad("constructor panics")
  ELSE IF Canon(ev.p.x) # Canon(want) THEN Bad("constructor builds another packet")
  ELSE FullEnc(ev.enc)

Serde(ev) ==          \* C20
  IF ev.out.k # "ok" THEN Bad("serialisation fails: " \o ev.out.k)
  ELSE IF ev.out.p # ev.p THEN Bad("deserialised packet differs")
  ELSE IF ev.ways # <<>> THEN Bad("another way to serialise gives something else: " \o ev.ways[1].how)
  ELSE Ok(ev.p.t)

------------------------------------------------------------------------------
Judge(ev) ==
  CASE ev.e \in {"abort", "hang"} -> Bad(ev.e)
    [] ev.e = "enc" ->
         CASE PROP = "C01" -> RoundTrip(ev)
           [] PROP = "C02" -> Framing(ev)
           [] PROP = "C03" -> WireFields(ev)
           [] PROP = "C06" -> Representable(ev)
           [] PROP = "C14" -> FullEnc(ev)
           [] PROP = "C15" -> EncProps(ev)
           [] PROP = "C16" -> EncVersion(ev)
           [] PROP = "C18" -> EncUser(ev)
           [] PROP = "C19" -> EncAck(ev)
           [] OTHER -> Skip
    [] ev.e = "dec" ->
         CASE PROP = "C04" -> DecOk(ev, Decode(ev.b, ev.v))
           [] PROP = "C05" -> DecErr(ev, Decode(ev.b, ev.v))
           [] PROP = "C15" -> DecProps(ev)
           [] PROP = "C18" -> DecUser(ev)
           [] PROP = "C19" -> DecAckEv(ev)
           [] PROP \in {"C14", "C16", "C17"} -> FullDec(ev)
           [] PROP = "C10" -> IF ev.out.k = "panic" \/ ev.more = "panic" THEN Bad("panic") ELSE Ok("dec")
           [] OTHER -> Skip
    [] ev.e = "relay" -> Relay(ev)
    [] ev.e = "big" -> Big(ev)
    [] ev.e = "long" -> Long(ev)
    [] ev.e = "vast" -> Vast(ev)
    [] ev.e = "cut" -> Cut(ev)
    [] ev.e = "chunk" -> Chunk(ev)
    [] ev.e = "mem" -> Memory(ev)
    [] ev.e = "work" -> Work(ev)
    [] ev.e = "level" -> Level(ev)
    [] ev.e = "same" -> Compare(ev)
    [] ev.e = "none" -> Defaulted(ev)
    [] ev.e = "prim" -> Prim(ev)
    [] ev.e = "code" -> Code(ev)
    [] ev.e = "ack" -> Constructor(ev)
    [] ev.e = "serde" -> Serde(ev)

------------------------------------------------------------------------------
VARIABLES n, k, s      \* execution, calls done, state of the specification

Steps(ev) == CASE ev.e \in {"stream", "prompt", "share", "hand"} -> Len(ev.calls)
               [] ev.e \in {"rd", "wr"} -> Len(ev.ops)
               [] OTHER -> 1

(* one string on one line: TLC breaks long tuples *)
Report(v) == PrintT("V|" \o ToString(n) \o "|" \o v[1] \o "|" \o v[2])

Init == /\ n \in 1..Len(Events)
        /\ k = 0
        /\ s = CASE Events[n].e \in {"stream", "prompt", "hand"} -> StreamStart
                 [] Events[n].e = "rd" -> RdStart
                 [] Events[n].e = "share" -> [calls |-> [j \in 1..Len(Events[n].us) |-> 0],
                                              pos |-> [j \in 1..Len(Events[n].us) |-> 0]]
                 [] Events[n].e = "wr" -> WrStart
                 [] OTHER -> [pos |-> 0]

Next ==
  LET ev == Events[n] IN
  /\ k <= Steps(ev) - 1 \/ (Steps(ev) = 0 /\ k = 0)
  /\ n' = n
  /\ IF Steps(ev) = 0 THEN k' = 1 /\ s' = s /\ Report(Skip) ELSE
     IF ev.e \in {"stream", "rd", "wr", "prompt", "share", "hand"}
     THEN LET r == CASE ev.e = "stream" -> StreamStep(ev, k + 1, s)
                     [] ev.e = "prompt" -> PromptStep(ev, k + 1, s)
                     [] ev.e = "share" -> ShareStep(ev, k + 1, s)
                     [] ev.e = "hand" -> HandStep(ev, k + 1, s)
                     [] ev.e = "rd" -> RdStep(ev, k + 1, s)
                     [] ev.e = "wr" -> WrOps(ev, k + 1, s) IN
          IF r[1] # ""
          THEN /\ k' = Steps(ev) /\ s' = r[2]
               /\ Report(Bad(r[1] \o " at call " \o ToString(k + 1)))
          ELSE /\ k' = k + 1 /\ s' = r[2]
               /\ (k + 1 = Steps(ev) => Report(Ok(ev.e)))
     ELSE /\ k' = 1 /\ s' = s
          /\ Report(Judge(ev))

Spec == Init /\ [][Next]_<<n, k, s>>
=============================================================================
