---------------------------- MODULE PortfolioMC ----------------------------
(* All behaviours of the portfolio, for a range of configurations.          *)
EXTENDS Portfolio
CONSTANTS MaxNp, MaxMax
Init == \E np \in 1..MaxNp, m \in 1..MaxMax, X \in SUBSET {"vampire", "z3"} :
          InitWith([np |-> np, max |-> m, solvers |-> X])
Spec == Init /\ [][Next]_vars /\ Fair
=============================================================================
