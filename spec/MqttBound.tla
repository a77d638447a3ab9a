----------------------------- MODULE MqttBound -----------------------------
(* What "in proportion" means for figures that were measured: going from a     *)
(* packet with n1 parts to one with n2, the work w2 may be more than n2/n1     *)
(* times w1 by a factor that leaves room for lists that grow by doubling, for  *)
(* caches and for rounding, and what is small counts as a floor.  MqttWork     *)
(* shows that this accepts every design with linear work, and refuses designs  *)
(* that do something for each part with all the parts before it.               *)
EXTENDS Integers, Sequences

Factor == 8
InProportion(n1, w1, n2, w2, floor) ==
  w2 \div (Factor * (n2 \div n1)) <= (IF w1 > floor THEN w1 ELSE floor)

(* measured at the sizes ns: all pairs of sizes agree *)
Proportionate(ns, ws, floor) ==
  \A i \in 1..Len(ws) : \A j \in (i + 1)..Len(ws) :
    InProportion(ns[i], ws[i], ns[j], ws[j], floor)
=============================================================================
