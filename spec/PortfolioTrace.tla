--------------------------- MODULE PortfolioTrace ---------------------------
(***************************************************************************)
(* Are the recorded runs of the real tool behaviours of Portfolio?          *)
(* Traces[i] = [conf, log]; a log is a sequence of                          *)
(*   [e |-> "start", s, p]     solver s was started on the file of problem p*)
(*   [e |-> "answer", s, a]    solver s ended by itself with answer a       *)
(*   [e |-> "exit", v, t]      the tool ended with verdict v, tries t       *)
(* What the tool does in between (looking at answers, killing) is not       *)
(* observed.                                                                *)
(***************************************************************************)
EXTENDS Portfolio
CONSTANT Traces
VARIABLES tid, l
tvars == <<vars, tid, l>>

Log == Traces[tid].log
Obs(e) == l <= Len(Log) /\ Log[l] = e /\ l' = l + 1 /\ UNCHANGED tid
Silent == UNCHANGED <<tid, l>>

TInit == /\ tid \in 1..Len(Traces) /\ l = 1
         /\ InitWith(Traces[tid].conf)
TNext ==
  \/ \E s \in S : /\ Start(s)
                  /\ \/ Obs([e |-> "start", s |-> s, p |-> pb])
                     \* killed before it could tell
                     \/ ph = "cleanup" /\ Silent
  \/ \E s \in S : \E a \in AnswersOf(s) :
        Answer(s, a) /\ Obs([e |-> "answer", s |-> s, a |-> a])
  \/ ((\E s \in S : Take(s) \/ Kill(s)) \/ EndRound) /\ Silent
  \/ (Proved \/ Failed) /\ ph' # "done" /\ Silent
  \/ (Proved \/ Failed) /\ ph' = "done"
     /\ \/ Obs([e |-> "exit", v |-> verdict', t |-> IF verdict' = "ok" THEN tries' ELSE <<>>])
        \/ Obs([e |-> "exit", v |-> verdict'])    \* quiet: the verdict only
TSpec == TInit /\ [][TNext]_tvars

\* how far each trace could be followed
Progress == TLCSet(tid, IF l > TLCGet(tid) THEN l ELSE TLCGet(tid))
Report == PrintT(<<"FOLLOWED", [i \in 1..Len(Traces) |-> TLCGet(i)]>>)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
=============================================================================
