-------------------------- MODULE PortfolioScripts --------------------------
(***************************************************************************)
(* Enumerates what the environment can do to the automatic mode: who        *)
(* answers first in each round, and what.  Every terminal state prints the  *)
(* script that led to it; the harness plays it with stand-in solvers.       *)
(* A solver is given its turn only once the tool has dealt with the         *)
(* previous answer, so that a script determines the outcome; solvers that   *)
(* lost the race are left hanging.                                          *)
(***************************************************************************)
EXTENDS Portfolio
CONSTANTS Np, Max, Solvers, VA, ZA
VARIABLES script    \* sequence of <<solver, answer>>
Init == /\ InitWith([np |-> Np, max |-> Max, solvers |-> Solvers])
        /\ script = <<>>
Busy == \E s \in S : st[s] \in {"idle", "ended"}
SNext ==
  \/ /\ \E s \in S : Start(s)
     /\ UNCHANGED script
  \/ /\ ~Busy /\ ph = "race"
     /\ \E s \in S : \E a \in IF s = "vampire" THEN VA ELSE ZA :
          /\ Answer(s, a)
          /\ script' = Append(script, <<pb, try, s, a>>)
  \/ /\ (\E s \in S : Take(s) \/ Kill(s)) \/ EndRound \/ Proved \/ Failed
     /\ UNCHANGED script
Spec == Init /\ [][SNext]_<<vars, script>>
Short == Len(script) <= 8     \* for the unbounded number of tries
Emit == ph = "done" => PrintT(<<"SCRIPT", script, verdict, tries>>)
=============================================================================
