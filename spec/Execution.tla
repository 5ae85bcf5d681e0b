----------------------------- MODULE Execution -----------------------------
(***************************************************************************)
(* Executions of a protocol, as CryptoVampire's users understand them.      *)
(*                                                                          *)
(* A protocol is a set of steps A(i,...).  An execution starts with `init'  *)
(* and performs each step instance at most once, in some order allowed by   *)
(* the declared ordering constraints.  When a step is performed             *)
(*   - the attacker, who has seen every earlier output, chooses its input;  *)
(*   - the memory cells are updated;                                        *)
(*   - the condition and the output message get their values.               *)
(* A step whose condition is false still happens; it makes `exec' false     *)
(* from there on.                                                           *)
(*                                                                          *)
(* The module is parameterised by the protocol (constants below), supplied  *)
(* by the module `tlagen' derives from the protocol source.                 *)
(*                                                                          *)
(* Besides real executions the module produces *defective worlds*: a real   *)
(* execution in which exactly one thing is wrong (an output, a condition, a *)
(* cell, or an input the attacker cannot have computed).  `flt' tells which.*)
(***************************************************************************)
EXTENDS Terms

CONSTANTS
  StepInsts,        \* all step instances but init
  InitStep,         \* <<"init">>
  CellInsts,        \* all cell instances <<c, i...>>
  MaxLen,           \* number of steps performed after init
  MsgOf(_, _),      \* MsgOf(W, s): output of s
  CondOf(_, _),     \* CondOf(W, s): condition of s
  MemOf(_, _, _),   \* MemOf(W, s, c): content of cell c after s
  OrderOk(_),       \* ordering constraints declared by the user
  Inputs(_, _),     \* Inputs(W, s): inputs the attacker may choose for s
  Guesses(_, _),    \* inputs that would require guessing a fresh name
  Forgeries(_, _),  \* inputs that would require forging
  Overrides(_),     \* points of auxiliary symbols that may be altered
  Faults            \* which defective worlds to produce

VARIABLES w, flt
vars == <<w, flt>>

(* ---------------- what formulas may ask about a world ------------------ *)
Happens(W, s) == s \in DOMAIN W.inp
St(W, s)      == IF s \in DOMAIN W.inp THEN s ELSE Undef
Steps(W)      == (DOMAIN W.inp) \cup {Undef}
Leq(W, a, b)  == /\ a \in DOMAIN W.inp /\ b \in DOMAIN W.inp
                 /\ W.pos[a] <= W.pos[b]
Lt(W, a, b)   == /\ a \in DOMAIN W.inp /\ b \in DOMAIN W.inp
                 /\ W.pos[a] < W.pos[b]
Gt(W, a, b)   == Lt(W, b, a)
Pred(W, a)    == IF a \in DOMAIN W.inp
                 THEN IF W.pos[a] > 1 THEN W.ord[W.pos[a] - 1] ELSE Undef
                 ELSE Undef
Inp(W, s)     == IF s \in DOMAIN W.inp  THEN W.inp[s]  ELSE NoMsg
Msg(W, s)     == IF s \in DOMAIN W.msg  THEN W.msg[s]  ELSE NoMsg
Cond(W, s)    == IF s \in DOMAIN W.cond THEN W.cond[s] ELSE FALSE
Exec(W, s)    == IF s \in DOMAIN W.exec THEN W.exec[s] ELSE FALSE
Cell(W, c, s) == IF s \in DOMAIN W.mem  THEN W.mem[s][c]
                 ELSE <<"$cell0">> \o c

(* An altered point of an auxiliary symbol (fault "aux"): the value of       *)
(* symbol h at the encoded arguments a is replaced by another one.          *)
NoOv             == [h |-> "", a |-> << >>]
EncB(b)          == IF b THEN <<"$true">> ELSE <<"$false">>
EncS(s)          == <<"$st", s>>
EncI(i)          == <<"$ix", i>>
Hit(W, h, a)     == IF W.ov.h = h THEN W.ov.a = a ELSE FALSE
OvB(W, h, a, v)  == IF Hit(W, h, a) THEN ~v ELSE v
OvM(W, h, a, v)  == IF Hit(W, h, a) THEN <<"$pert2">> ELSE v
OvS(W, h, a, v)  == IF Hit(W, h, a)
                    THEN (IF v = InitStep THEN Undef ELSE InitStep) ELSE v

(* ---------------- performing a step ------------------------------------ *)
Empty == [ord |-> << >>, pos |-> << >>, inp |-> << >>, msg |-> << >>,
          cond |-> << >>, exec |-> << >>, mem |-> << >>, ov |-> NoOv]

Perform(W, s, v) ==
  LET n  == Len(W.ord) + 1
      W1 == [W EXCEPT !.ord = Append(@, s),
                      !.pos = @ @@ (s :> n),
                      !.inp = @ @@ (s :> v)]
      W2 == [W1 EXCEPT !.mem = @ @@ (s :> [c \in CellInsts |-> MemOf(W1, s, c)])]
      cd == CondOf(W2, s)
      pe == IF n = 1 THEN TRUE ELSE W.exec[W.ord[n - 1]]
  IN  [W2 EXCEPT !.msg  = @ @@ (s :> MsgOf(W2, s)),
                 !.cond = @ @@ (s :> cd),
                 !.exec = @ @@ (s :> (pe /\ cd))]

Init == /\ w = Perform(Empty, InitStep, Att)
        /\ flt = "none"

Step == \E s \in StepInsts \ DOMAIN w.inp :
          \E v \in Inputs(w, s) :
            LET W == Perform(w, s, v) IN
            /\ OrderOk(W)
            /\ w' = W
            /\ flt' = "none"

(* ---------------- defective worlds ------------------------------------- *)
BadInput(kind, S(_, _)) ==
  /\ kind \in Faults
  /\ \E s \in StepInsts \ DOMAIN w.inp :
       \E v \in S(w, s) :
         LET W == Perform(w, s, v) IN
         /\ OrderOk(W)
         /\ w' = W
         /\ flt' = kind

Defect ==
  \/ BadInput("guess", Guesses)
  \/ BadInput("forge", Forgeries)
  \* a step which the declared constraints don't allow there
  \/ /\ "order" \in Faults
     /\ \E s \in StepInsts \ DOMAIN w.inp :
          \E v \in Inputs(w, s) :
            LET W == Perform(w, s, v) IN
            /\ ~OrderOk(W)
            /\ w' = W
     /\ flt' = "order"
  \/ /\ "msg" \in Faults
     /\ \E s \in DOMAIN w.inp : w' = [w EXCEPT !.msg[s] = Pert]
     /\ flt' = "msg"
  \/ /\ "cond" \in Faults
     /\ \E s \in DOMAIN w.inp : w' = [w EXCEPT !.cond[s] = ~@]
     /\ flt' = "cond"
  \/ /\ "exec" \in Faults
     /\ \E s \in DOMAIN w.inp : w' = [w EXCEPT !.exec[s] = ~@]
     /\ flt' = "exec"
  \/ /\ "mem" \in Faults
     /\ \E s \in DOMAIN w.inp : \E c \in CellInsts :
          w' = [w EXCEPT !.mem[s][c] = Pert]
     /\ flt' = "mem"
  \/ /\ "aux" \in Faults
     /\ Len(w.ord) <= 2
     /\ \E o \in Overrides(w) : w' = [w EXCEPT !.ov = o]
     /\ flt' = "aux"

(* Breadth-first prefix: bounds the number of explored worlds.  At least     *)
(* MinWorlds are, and more, up to MaxWorlds, as long as time permits.        *)
CONSTANTS MinWorlds, MaxWorlds, Seconds
InBudget == LET n == TLCGet("distinct") IN
            n < MinWorlds \/ (n < MaxWorlds /\ TLCGet("duration") < Seconds)

Next == /\ flt = "none"
        /\ InBudget
        /\ \/ Len(w.ord) <= MaxLen /\ Step
           \/ Defect

(* Coverage counters, printed at the end of a run.                           *)
Kinds == <<"none", "guess", "forge", "msg", "cond", "exec", "mem", "aux", "order">>
Count == \A i \in 1..Len(Kinds) :
           Kinds[i] = flt => TLCSet(40 + i, 1 + TLCGet(40 + i))
InitCount == \A i \in 1..Len(Kinds) : TLCSet(40 + i, 0)
ASSUME InitCount
Report == PrintT(<<"COVERED", [i \in 1..Len(Kinds) |-> <<Kinds[i], TLCGet(40 + i)>>]>>)

Spec == Init /\ [][Next]_vars

(* ---------------- sanity of the specification itself ------------------- *)
WellFormed ==
  flt = "none" =>
    /\ w.ord[1] = InitStep
    /\ DOMAIN w.pos = DOMAIN w.inp
    /\ \A i \in 1..Len(w.ord) : w.pos[w.ord[i]] = i
    /\ OrderOk(w)
    /\ \A s \in DOMAIN w.exec :
         w.exec[s] = \A t \in DOMAIN w.cond : w.pos[t] <= w.pos[s] => w.cond[t]
=============================================================================
