----------------------------- MODULE Portfolio -----------------------------
(***************************************************************************)
(* The automatic mode: a list of problems (the lemmas, then the query),     *)
(* each handed, in rounds, to a portfolio of solvers racing each other.     *)
(*                                                                          *)
(* Per round every enabled solver gets a fresh file and runs as a separate  *)
(* process.  The first decisive answer ends the round: the other processes  *)
(* are killed.  A round that ends without one is followed by another, as    *)
(* long as Vampire reported something new to learn from and the number of   *)
(* tries allows it.                                                         *)
(*                                                                          *)
(* Answers of the solvers:                                                  *)
(*   vampire: "unsat" (exit 0), "new"/"again"/"none" (time out, with        *)
(*      instances not seen before / seen before / no instance), "sig"       *)
(*      (ended by a signal), "err" (any other exit code);                   *)
(*   z3: "unsat", "sat", "timeout", "unknown" (or anything else it prints), *)
(*      "sig", "err" (exit code), "empty" (no output).                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
  conf,     \* [np: number of problems, max: tries (0: unbounded), solvers]
  pb, try,  \* current problem and round
  ph,       \* "race" | "cleanup" | "done"
  st,       \* solver -> "idle" | "running" | "ended" | "taken" | "gone"
  ans,      \* solver -> its answer of this round
  res,      \* how the round ended: "none" | "proved" | "failed"
  verdict,  \* "none" | "ok" | "ko"
  tries,    \* for each proved problem, the number of rounds it took
  saidUnsat \* ghost: problems some solver refuted the negation of
vars == <<conf, pb, try, ph, st, ans, res, verdict, tries, saidUnsat>>

VampireAnswers == {"unsat", "new", "again", "none", "sig", "err"}
Z3Answers      == {"unsat", "sat", "timeout", "unknown", "sig", "err", "empty"}
AnswersOf(s) == IF s = "vampire" THEN VampireAnswers ELSE Z3Answers
Decisive(a)  == a \in {"unsat", "sat", "err", "empty"}
S == conf.solvers

InitWith(c) ==
  /\ conf = c /\ pb = 1 /\ try = 1
  /\ ph = IF c.solvers = {} THEN "cleanup" ELSE "race"
  /\ st = [s \in c.solvers |-> "idle"] /\ ans = [s \in c.solvers |-> "none"]
  /\ res = IF c.solvers = {} THEN "failed" ELSE "none"
  /\ verdict = "none" /\ tries = <<>> /\ saidUnsat = {}

Start(s) ==
  /\ ph \in {"race", "cleanup"} /\ s \in S /\ st[s] = "idle"
  /\ st' = [st EXCEPT ![s] = "running"]
  /\ UNCHANGED <<conf, pb, try, ph, ans, res, verdict, tries, saidUnsat>>

Answer(s, a) ==
  /\ s \in S /\ st[s] = "running"
  /\ st' = [st EXCEPT ![s] = "ended"] /\ ans' = [ans EXCEPT ![s] = a]
  /\ saidUnsat' = IF a = "unsat" THEN saidUnsat \cup {pb} ELSE saidUnsat
  /\ UNCHANGED <<conf, pb, try, ph, res, verdict, tries>>

\* the tool looks at an answer
Take(s) ==
  /\ ph = "race" /\ s \in S /\ st[s] = "ended"
  /\ st' = [st EXCEPT ![s] = "taken"]
  /\ ph' = IF Decisive(ans[s]) THEN "cleanup" ELSE "race"
  /\ res' = IF ans[s] = "unsat" THEN "proved"
            ELSE IF Decisive(ans[s]) THEN "failed" ELSE "none"
  /\ UNCHANGED <<conf, pb, try, ans, verdict, tries, saidUnsat>>

Kill(s) ==
  /\ ph = "cleanup" /\ s \in S /\ st[s] = "running"
  /\ st' = [st EXCEPT ![s] = "gone"]
  /\ UNCHANGED <<conf, pb, try, ph, ans, res, verdict, tries, saidUnsat>>

Quiesced == \A s \in S : st[s] \in {"ended", "taken", "gone"}
Rest == /\ st' = [s \in S |-> "idle"] /\ ans' = [s \in S |-> "none"]
Stuck == "vampire" \in S /\ ans["vampire"] \in {"again", "none"}

\* a round nobody decided
EndRound ==
  /\ ph = "race" /\ \A s \in S : st[s] = "taken"
  /\ IF Stuck \/ try = conf.max
     THEN /\ res' = "failed" /\ ph' = "cleanup"
          /\ UNCHANGED <<try, st, ans>>
     ELSE /\ try' = try + 1 /\ Rest /\ UNCHANGED <<res, ph>>
  /\ UNCHANGED <<conf, pb, verdict, tries, saidUnsat>>

Proved ==
  /\ ph = "cleanup" /\ res = "proved" /\ Quiesced
  /\ tries' = Append(tries, try)
  /\ IF pb = conf.np
     THEN /\ ph' = "done" /\ verdict' = "ok"
          /\ UNCHANGED <<pb, try, st, ans, res>>
     ELSE /\ pb' = pb + 1 /\ try' = 1 /\ Rest /\ res' = "none" /\ ph' = "race"
          /\ UNCHANGED verdict
  /\ UNCHANGED <<conf, saidUnsat>>

Failed ==
  /\ ph = "cleanup" /\ res = "failed" /\ Quiesced
  /\ ph' = "done" /\ verdict' = "ko"
  /\ UNCHANGED <<conf, pb, try, st, ans, res, tries, saidUnsat>>

Next ==
  \/ \E s \in S : Start(s) \/ Take(s) \/ Kill(s) \/ \E a \in AnswersOf(s) : Answer(s, a)
  \/ EndRound \/ Proved \/ Failed

\* solvers answer in the end, and the tool does its part
Fair == WF_vars(Next)
        /\ WF_vars(\E s \in S : \E a \in AnswersOf(s) : Answer(s, a))
        /\ WF_vars(\E s \in S : Take(s)) /\ WF_vars(EndRound)

(* ------------------------------ properties ------------------------------ *)
\* success is reported only if every problem was proved by a solver
Honest == verdict = "ok" => saidUnsat = 1..conf.np
\* a problem is attempted only when all earlier ones are proved
Staged == \A p \in 1..(pb - 1) : p \in saidUnsat
\* no solver outlives the tool
NoOrphan == ph = "done" => Quiesced
Bounded == conf.max > 0 => try <= conf.max
OneLinePerProblem == verdict = "ok" => Len(tries) = conf.np
\* a failure is not reported as long as nothing went wrong
Decided == verdict = "ko" => \/ S = {}
                             \/ \E s \in S : ans[s] \in {"sat", "err", "empty"}
                             \/ Stuck \/ try = conf.max
Terminates == <>(ph = "done")
=============================================================================
