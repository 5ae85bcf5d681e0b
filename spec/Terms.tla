------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* The symbolic (Dolev-Yao style) term model in which protocol executions   *)
(* are described.                                                           *)
(*                                                                          *)
(* A message is a tuple whose first component is its head symbol:           *)
(*    <<"$nm", f, i1, ...>>   a name (fresh random value) f(i1, ...)        *)
(*    <<"$att">>              a constant chosen by the attacker             *)
(*    <<"$none">>             message/input of a step that does not happen  *)
(*    <<"$pert", ...>>        a value introduced by a perturbation          *)
(*    <<"$cell0", c, ...>>    initial content of a memory cell              *)
(*    <<f, t1, ..., tn>>      application of a user declared symbol         *)
(* Index and step arguments of a symbol are wrapped: <<"$ix", i>>,          *)
(* <<"$st", s>>.  Messages are always kept in normal form, so equality of   *)
(* messages is equality of tuples.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Att    == <<"$att">>
NoMsg  == <<"$none">>
Pert   == <<"$pert">>

(* A step is <<A, i1, ..., in>>; every step that does not happen is Undef.  *)
Undef  == <<"$undef">>

IsName(t) == t[1] = "$nm"

RECURSIVE NamesIn(_)
NamesIn(t) ==
  IF t[1] = "$nm" THEN {t}
  ELSE IF t[1] \in {"$ix", "$st", "$cell0"} THEN {}
  ELSE UNION { NamesIn(t[i]) : i \in 2..Len(t) }

(* all (message) subterms of a message *)
RECURSIVE Subterms(_)
Subterms(t) ==
  {t} \cup
  (IF t[1] \in {"$nm", "$ix", "$st", "$cell0"} THEN {}
   ELSE UNION { Subterms(t[i]) : i \in 2..Len(t) })

(* does the name n occur in the message m ? *)
OccursIn(n, m) == n \in NamesIn(m)

(* Projection number i of constructor f, leaving other arguments stuck.     *)
Project(d, f, i, t) == IF t[1] = f THEN t[i + 1] ELSE <<d, t>>
=============================================================================
