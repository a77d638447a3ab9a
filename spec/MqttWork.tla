------------------------------ MODULE MqttWork ------------------------------
(* The work of building a packet out of its parts (or its bytes out of a       *)
(* packet), in steps: one for each byte that is read or written, one for each  *)
(* part that is stored, and one for each part that is moved when a list has to *)
(* grow.  Pieces of a packet arrive one after another, any number of parts at  *)
(* a time; a malformed part ends the building, and what is left is skipped.    *)
(*                                                                             *)
(* Linear: however the parts arrive and wherever the packet is refused, the    *)
(* work is at most a constant for each byte.  Judged: the criterion with which *)
(* recorded work is judged (MqttBound) never objects to it.  Designs that are  *)
(* not linear (Variant) have to be found:                                      *)
(*   exact   a list grows by one                                               *)
(*   search  every part is compared with those before                          *)
(*   front   parts are put in front or taken from the front of a list          *)
(*   rescan  all that has arrived is looked at again for each piece            *)
(*   skip    what is skipped is collected byte by byte in lists that grow by 1 *)
EXTENDS MqttBound, IOUtils, TLC

Variant == IOEnv.VARIANT
N == 256
Max(a, b) == IF a > b THEN a ELSE b
Bytes == 2          \* of one part

VARIABLES n, cap, work, state, at
vars == <<n, cap, work, state, at>>

(* the work when there were 4, 32 and 256 parts *)
Marks == <<4, 32, 256>>

Init == n = 0 /\ cap = 0 /\ work = 0 /\ state = "build" /\ at = <<>>

Store(m, c, w) ==
  LET full == m = c
      grown == IF ~full THEN c ELSE IF Variant = "exact" THEN c + 1 ELSE Max(4, 2 * c)
      moved == IF full THEN m ELSE 0
      extra == CASE Variant = "search" -> m
                 [] Variant = "front" -> m
                 [] OTHER -> 0 IN
  [cap |-> grown, work |-> w + Bytes + 1 + moved + extra]

Skip(m, c, w) ==
  [cap |-> c, work |-> w + Bytes + (IF Variant = "skip" THEN m ELSE 0)]

Note(m, w) == IF Len(at) < 3 /\ Marks[Len(at) + 1] = m THEN Append(at, w) ELSE at

Step(x) ==
  /\ n < N
  /\ n' = n + 1
  /\ cap' = x.cap
  /\ work' = x.work
  /\ at' = Note(n + 1, x.work)

(* a part; the piece that brings it may be looked at again *)
Part == /\ state = "build"
        /\ LET again == IF Variant = "rescan" THEN n ELSE 0
           IN Step(Store(n, cap, work + again))
        /\ UNCHANGED state
(* the rest of a packet that was refused *)
Refuse == state = "build" /\ state' = "skip" /\ work' = work + 1 /\ UNCHANGED <<n, cap, at>>
Rest == state = "skip" /\ Step(Skip(n, cap, work)) /\ UNCHANGED state

Next == Part \/ Refuse \/ Rest
Spec == Init /\ [][Next]_vars

Linear == work <= (Bytes + 1 + 2) * n + 8
Judged == Proportionate(Marks, at, 1)
=============================================================================
