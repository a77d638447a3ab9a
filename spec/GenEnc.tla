-------------------------------- MODULE GenEnc --------------------------------
(* The packet space as a graph: a state is a packet and a protocol version, a  *)
(* transition changes one more field.  Checked on every state: the round trip  *)
(* of the specification, its framing, what depends on the version.  Every      *)
(* state is handed to the real encoder, or its bytes to the real decoder       *)
(* (lines GEN).                                                                *)
EXTENDS MqttModel, Json, IOUtils

Depth == CHOOSE n \in 0..4 : ToString(n) = IOEnv.DEPTH
Thin == CHOOSE n \in 1..64 : ToString(n) = IOEnv.THIN
Emit == IOEnv.EMIT      \* "packet", "wire" (its bytes), "pair" (with its predecessor) or nothing
SeedMod == IF \E n \in 0..9999 : ToString(n) = IOEnv.MSEED
           THEN CHOOSE n \in 0..9999 : ToString(n) = IOEnv.MSEED ELSE 0
Group == IOEnv.GROUP
Types ==
  CASE Group = "acks" -> AckTypes
    [] Group = "connect" -> {"connect"}
    [] Group = "codes" -> {"suback", "unsuback", "disconnect", "auth", "connack"}
    [] OTHER -> TypeNames
(* restrict to deviations of the property sections *)
OnlyProps == Group = "props"
OnlyUser == Group = "user"

VARIABLES t, b, v, ds, P
vars == <<t, b, v, ds, P>>
Point == <<t, b, v, ds>>

Both(x) == [lean |-> Tidy(Lean(x)), full |-> Tidy(Full(x))]

(* written out, so that TLC computes them once *)
AllDevs ==
  [ connect |-> Devs("connect"),
    connack |-> Devs("connack"),
    publish |-> Devs("publish"),
    puback |-> Devs("puback"),
    pubrec |-> Devs("pubrec"),
    pubrel |-> Devs("pubrel"),
    pubcomp |-> Devs("pubcomp"),
    subscribe |-> Devs("subscribe"),
    suback |-> Devs("suback"),
    unsubscribe |-> Devs("unsubscribe"),
    unsuback |-> Devs("unsuback"),
    pingreq |-> Devs("pingreq"),
    pingresp |-> Devs("pingresp"),
    disconnect |-> Devs("disconnect"),
    auth |-> Devs("auth") ]
AllBases ==
  [ connect |-> Both("connect"),
    connack |-> Both("connack"),
    publish |-> Both("publish"),
    puback |-> Both("puback"),
    pubrec |-> Both("pubrec"),
    pubrel |-> Both("pubrel"),
    pubcomp |-> Both("pubcomp"),
    subscribe |-> Both("subscribe"),
    suback |-> Both("suback"),
    unsubscribe |-> Both("unsubscribe"),
    unsuback |-> Both("unsuback"),
    pingreq |-> Both("pingreq"),
    pingresp |-> Both("pingresp"),
    disconnect |-> Both("disconnect"),
    auth |-> Both("auth") ]

(* all single deviations; of the further ones every Thin-th *)
Kept(f, x) ==
  IF ds = <<>> THEN TRUE
  ELSE LET l == ds[Len(ds)] IN (l[1] * 31 + l[2] * 7 + f * 13 + x * 11 + v + SeedMod) % Thin = 0
Wanted(d) ==
  /\ OnlyProps => d.w \in {"p", "wp"}
  /\ OnlyUser => d.f = "up" \/ ds # <<>>

Init == /\ t \in Types /\ b \in Bases /\ v \in {3, 4, 5} /\ ds = <<>>
        /\ P = AllBases[t][b]

Next ==
  /\ Len(ds) < Depth
  /\ \E f \in (IF ds = <<>> THEN 1 ELSE ds[Len(ds)][1] + 1)..Len(AllDevs[t]) :
       /\ Wanted(AllDevs[t][f])
       /\ \E x \in 1..Len(AllDevs[t][f].vals) :
            /\ Kept(f, x)
            /\ P' = Put(P, AllDevs[t][f], AllDevs[t][f].vals[x])
            /\ P' # P
            /\ (Emit = "pair" => PrintT("GEN " \o ToJson([p |-> P, q |-> P'])))
            /\ ds' = Append(ds, <<f, x>>)
            /\ UNCHANGED <<t, b, v>>

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
PV == IF t = "connect" THEN P.ver ELSE v

(* what can be written can be read back as the same packet, in exactly one     *)
(* frame; what is strictly valid is exactly what EncClass calls "ok"           *)
RoundTrips ==
  EncBad(P, PV) \/
  LET w == Enc(P, PV)
      d == Decode(w, PV)
      f == Frame(w, 1, Len(w)) IN
  /\ f.k = "full" /\ f.next = Len(w) + 1 /\ f.lax = {}
  /\ Decodes(d)
  /\ Same(d.p, Norm(P, PV))
  /\ "nonminimal" \notin d.lax
  /\ Enc(d.p, PV) = w
  /\ HeaderType(w[1]) = WireTypeOf(P)

(* version 5 fields do not matter below version 5 *)
Strip(p) ==
  CASE p.t \in {"pingreq", "pingresp"} -> p
    [] p.t = "connect" ->
         [p EXCEPT !.props = <<>>,
                   !.will = IF @ = <<>> THEN <<>> ELSE <<[@[1] EXCEPT !.props = <<>>]>>]
    [] p.t \in AckTypes -> [p EXCEPT !.props = <<>>, !.a = <<>>, !.c = <<>>]
    [] p.t = "connack" -> [p EXCEPT !.props = <<>>, !.rea = <<>>]
    [] p.t = "subscribe" ->
         [p EXCEPT !.props = <<>>,
                   !.subs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.nl = FALSE, !.rap = FALSE, !.rh = <<>>]]]
    [] p.t \in {"suback", "unsuback"} -> [p EXCEPT !.props = <<>>, !.codes = <<>>]
    [] p.t = "disconnect" -> [p EXCEPT !.props = <<>>, !.code = <<>>]
    [] OTHER -> [p EXCEPT !.props = <<>>]
VersionOk ==
  PV >= 5 \/ t = "auth" \/
  /\ EncBad(P, PV) = EncBad(Strip(P), PV)
  /\ ~EncBad(P, PV) => Enc(P, PV) = Enc(Strip(P), PV)

(* normal forms are stable and say the same on the wire *)
NormOk ==
  EncBad(P, PV) \/
  /\ Norm(Norm(P, PV), PV) = Norm(P, PV)
  /\ ~EncBad(Norm(P, PV), PV)
  /\ Enc(Norm(P, PV), PV) = Enc(P, PV)

ASSUME TablesOk /\ PropTablesOk

Out ==
  CASE Emit = "packet" -> PrintT("GEN " \o ToJson([v |-> v, p |-> P]))
    [] Emit = "wire" ->
         EncBad(P, PV) \/ PrintT("GEN " \o ToJson([v |-> v, b |-> Enc(P, PV)]))
    [] OTHER -> TRUE
=============================================================================
