---------------------------- MODULE OrderStruct ----------------------------
(***************************************************************************)
(* All small interpretations of the vocabulary in which the emitted theory  *)
(* describes the order of steps: which of the elements of sort Step happen, *)
(* the relations leq, lt, gt, the function pred, and the element each step  *)
(* instance denotes.  Nothing is assumed: an interpretation is built in     *)
(* stages, and only the emitted axioms themselves rule interpretations out. *)
(* What remains must be an execution order (`IsExecOrder').                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
  N,               \* number of elements of sort Step
  StepInsts,       \* the step instances of the protocol, init excluded
  Filter(_),       \* Filter(k): the emitted axioms over the symbols of stages <= k
  OrderOk(_)       \* the ordering constraints declared in the source

E == 1..N
InitStep == <<"init">>

VARIABLES w, stage
vars == <<w, stage>>

Happens(W, s) == s \in W.hap
Leq(W, a, b)  == <<a, b>> \in W.leq
Lt(W, a, b)   == <<a, b>> \in W.lt
Gt(W, a, b)   == <<a, b>> \in W.gt
Pred(W, a)    == W.pred[a]
St(W, s)      == W.st[s]
Steps(W)      == E

Init == /\ stage = 0
        /\ w = [hap |-> {}, leq |-> {}, lt |-> {}, gt |-> {},
                pred |-> [e \in E |-> 1], st |-> [s \in StepInsts \cup {InitStep} |-> 1]]

(* Up to renaming of the elements, init denotes 1.                           *)
Next ==
  /\ stage < 6
  /\ Filter(stage)
  /\ stage' = stage + 1
  /\ \/ stage = 0 /\ \E H \in SUBSET E : w' = [w EXCEPT !.hap = H]
     \/ stage = 1 /\ \E R \in SUBSET (E \X E) : w' = [w EXCEPT !.leq = R]
     \/ stage = 2 /\ \E f \in [StepInsts -> E] :
                       w' = [w EXCEPT !.st = [s \in DOMAIN @ |-> IF s = InitStep THEN 1 ELSE f[s]]]
     \/ stage = 3 /\ \E f \in [E -> E] : w' = [w EXCEPT !.pred = f]
     \/ stage = 4 /\ \E R \in SUBSET (E \X E) : w' = [w EXCEPT !.lt = R]
     \/ stage = 5 /\ \E R \in SUBSET (E \X E) : w' = [w EXCEPT !.gt = R]

Spec == Init /\ [][Next]_vars

(* ---------------- what an execution order is ---------------------------- *)
Hap == w.hap
I0  == w.st[InitStep]

TotalOrder ==
  /\ \A a, b \in E : Leq(w, a, b) => (a \in Hap /\ b \in Hap)
  /\ \A a \in Hap : Leq(w, a, a)
  /\ \A a, b \in Hap : Leq(w, a, b) \/ Leq(w, b, a)
  /\ \A a, b \in E : (Leq(w, a, b) /\ Leq(w, b, a)) => a = b
  /\ \A a, b, c \in E : (Leq(w, a, b) /\ Leq(w, b, c)) => Leq(w, a, c)
StartsAtInit == I0 \in Hap /\ \A a \in Hap : Leq(w, I0, a)
OneUndefined == Cardinality(E \ Hap) <= 1
Strict       == \A a, b \in E : Lt(w, a, b) <=> (Leq(w, a, b) /\ a # b)
Converse     == \A a, b \in E : Gt(w, a, b) <=> Lt(w, b, a)
Predecessor  ==
  \A a \in E :
    IF a \in Hap /\ a # I0
    THEN /\ Pred(w, a) \in Hap
         /\ Pred(w, a) # a
         /\ Leq(w, Pred(w, a), a)
         /\ ~\E c \in Hap \ {a, Pred(w, a)} : Leq(w, Pred(w, a), c) /\ Leq(w, c, a)
    ELSE Pred(w, a) \notin Hap
AllSteps     == StepInsts \cup {InitStep}
Exhaustive   == \A a \in Hap : \E s \in AllSteps : w.st[s] = a
Distinct     == \A s, t \in AllSteps :
                  (s # t /\ w.st[s] \in Hap) => w.st[s] # w.st[t]

IsExecOrder == /\ TotalOrder /\ StartsAtInit /\ OneUndefined /\ Strict /\ Converse
               /\ Predecessor /\ Exhaustive /\ Distinct /\ OrderOk(w)

Model     == stage = 6 /\ Filter(6)
Exact     == Model => IsExecOrder
(* vacuity guard: execution orders do exist among the interpretations        *)
CountModels == Model => TLCSet(41, 1 + TLCGet(41))
ASSUME TLCSet(41, 0)
Report == PrintT(<<"MODELS", TLCGet(41)>>)
=============================================================================
