------------------------------ MODULE Staging ------------------------------
(***************************************************************************)
(* Proving a query with the help of lemmas.  The file declares assertions,  *)
(* lemmas L1..Ln (in order) and a query.  Problem k (k <= n) has Lk as its  *)
(* goal, problem n+1 the query; problem k may use the assertions and        *)
(* L1..L(k-1), nothing else.                                                *)
(*                                                                          *)
(* A world gives a truth value to each formula.  The module checks the      *)
(* design: whichever problems are discharged, in a world where all the      *)
(* discharged problems are valid and the assertions hold, everything taken  *)
(* as established does hold - hence the query, when all are discharged.     *)
(* That the tool's problems are these ones is checked on its real output    *)
(* (StagedProblems, instantiated per protocol).                             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANT N               \* number of lemmas; goal N+1 is the query
VARIABLES holds,         \* truth of each goal, in an arbitrary world
          base,          \* the assertions hold in that world
          done,          \* problems discharged
          established    \* goals taken as established
vars == <<holds, base, done, established>>

Assumes(k) == {j \in 1..(N + 1) : j < k}
Valid(k)   == (base /\ \A j \in Assumes(k) : holds[j]) => holds[k]

Init == /\ holds \in [1..(N + 1) -> BOOLEAN] /\ base \in BOOLEAN
        /\ done = 0 /\ established = {}
Discharge == /\ done <= N
             /\ Valid(done + 1)
             /\ done' = done + 1 /\ established' = established \cup {done + 1}
             /\ UNCHANGED <<holds, base>>
Spec == Init /\ [][Discharge]_vars

NothingFalseEstablished == base => \A k \in established : holds[k]
OnlyEarlierUsed == Assumes(done + 1) \subseteq established
QueryFollows == (done = N + 1 /\ base) => holds[N + 1]
=============================================================================
