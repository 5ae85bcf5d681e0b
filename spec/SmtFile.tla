------------------------------ MODULE SmtFile ------------------------------
(***************************************************************************)
(* A problem file, as the run of a machine that reads its commands: what   *)
(* has been declared so far decides which command may come next.  A file   *)
(* is fit for a prover when the machine reads it to its end and has then   *)
(* been asked exactly one thing.                                           *)
(*                                                                         *)
(* Files[i] = [dialect, cmds]; a command is a record                       *)
(*   [c |-> "sort", n]            (declare-sort n 0)                       *)
(*   [c |-> "alias", n, s]        (define-sort n () s)                     *)
(*   [c |-> "fun", n, a, s]       (declare-fun n a s)                      *)
(*   [c |-> "data", d]            (declare-datatypes ...), d a sequence of *)
(*        [n, k], k a sequence of constructors [n, a], a a sequence of     *)
(*        selectors <<name, sort>>                                         *)
(*   [c |-> "assert", f], [c |-> "theory", f], [c |-> "goal", f]           *)
(*   [c |-> "check"], [c |-> "option"]                                     *)
(* and a term <<kind, name, binders, arguments>>.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Files == JsonDeserialize("files.json")

VARIABLES fid,    \* which file
          pos,    \* next command
          sorts,  \* declared sorts
          alias,  \* abbreviations
          sig,    \* name |-> [a, s]
          phase   \* "facts", "asked" (the goal is there), "checked"
vars == <<fid, pos, sorts, alias, sig, phase>>

Cmds == Files[fid].cmds
Cmd == Cmds[pos]
At(c) == pos <= Len(Cmds) /\ Cmd.c = c
Advance == pos' = pos + 1 /\ UNCHANGED fid

\* words of the language
Reserved == {"true", "false", "not", "and", "or", "=>", "=", "distinct", "ite", "forall", "exists", "let", "as", "par",
             "match", "_", "!", "assert", "declare-fun", "declare-sort", "Bool", "Int", "Real", "Array", "String", "lambda"}
Legal(n) == n \notin Reserved
\* which characters a name is made of is judged outside: .bad tells the names with other ones
Plain(n) == n \notin {Files[fid].bad[i] : i \in 1..Len(Files[fid].bad)}

Res(s) == IF s \in DOMAIN alias THEN alias[s] ELSE s
Known(s) == Res(s) \in sorts \cup {"Bool"}

ILL == "$ill"
RECURSIVE Last(_, _)
Last(env, x) == IF env = <<>> THEN ILL ELSE IF env[Len(env)][1] = x THEN Res(env[Len(env)][2]) ELSE Last(SubSeq(env, 1, Len(env) - 1), x)
Bound(env, x) == \E i \in 1..Len(env) : env[i][1] = x

RECURSIVE Sort(_, _)
Sort(env, t) ==
  LET k == t[1]  n == t[2]  b == t[3]  c == t[4]
      All(s) == \A i \in 1..Len(c) : Sort(env, c[i]) = s
  IN CASE k \in {"forall", "exists"} ->
            IF /\ Len(b) > 0
               /\ \A i \in 1..Len(b) : Known(b[i][2]) /\ Legal(b[i][1])
               /\ \A i, j \in 1..Len(b) : i # j => b[i][1] # b[j][1]
               \* a variable hides no symbol
               /\ \A i \in 1..Len(b) : b[i][1] \notin DOMAIN sig
               /\ Sort(env \o b, c[1]) = "Bool" THEN "Bool" ELSE ILL
       [] c = <<>> /\ Bound(env, n) -> Last(env, n)
       [] n \in {"true", "false"} -> IF c = <<>> THEN "Bool" ELSE ILL
       [] n = "not" -> IF Len(c) = 1 /\ All("Bool") THEN "Bool" ELSE ILL
       [] n \in {"and", "or"} -> IF Len(c) >= 1 /\ All("Bool") THEN "Bool" ELSE ILL
       [] n = "=>" -> IF Len(c) >= 2 /\ All("Bool") THEN "Bool" ELSE ILL
       [] n \in {"=", "distinct"} ->
            IF Len(c) < 2 THEN ILL
            ELSE LET s == Sort(env, c[1]) IN IF s # ILL /\ All(s) THEN "Bool" ELSE ILL
       [] n = "ite" ->
            IF Len(c) # 3 THEN ILL
            ELSE LET s == Sort(env, c[2]) IN
                 IF Sort(env, c[1]) = "Bool" /\ s # ILL /\ Sort(env, c[3]) = s THEN s ELSE ILL
       [] n \in DOMAIN sig ->
            LET g == sig[n] IN
            IF Len(c) = Len(g.a) /\ \A i \in 1..Len(c) : Sort(env, c[i]) = Res(g.a[i]) THEN Res(g.s) ELSE ILL
       [] OTHER -> ILL

Closed(f) == Sort(<<>>, f) = "Bool"

Init == /\ fid \in 1..Len(Files) /\ pos = 1
        /\ sorts = {} /\ alias = <<>> /\ sig = <<>> /\ phase = "facts"

New(n) == n \notin DOMAIN sig /\ Legal(n) /\ Plain(n)

DeclareSort ==
  /\ At("sort") /\ Cmd.n \notin sorts /\ Legal(Cmd.n) /\ Plain(Cmd.n) /\ Cmd.n \notin DOMAIN alias
  /\ sorts' = sorts \cup {Cmd.n} /\ Advance /\ UNCHANGED <<alias, sig, phase>>

Alias ==
  /\ At("alias") /\ Cmd.n \notin sorts /\ Cmd.n \notin DOMAIN alias /\ Known(Cmd.s)
  /\ alias' = (Cmd.n :> Res(Cmd.s)) @@ alias /\ Advance /\ UNCHANGED <<sorts, sig, phase>>

DeclareFun ==
  /\ At("fun") /\ New(Cmd.n) /\ Known(Cmd.s) /\ \A i \in 1..Len(Cmd.a) : Known(Cmd.a[i])
  /\ sig' = (Cmd.n :> [a |-> Cmd.a, s |-> Cmd.s]) @@ sig
  /\ Advance /\ UNCHANGED <<sorts, alias, phase>>

\* the constructors and selectors a datatype brings along
Brings(d) ==
  UNION {{<<d[i].k[j].n, [a |-> [x \in 1..Len(d[i].k[j].a) |-> d[i].k[j].a[x][2]], s |-> d[i].n]>> : j \in 1..Len(d[i].k)}
         : i \in 1..Len(d)}
  \cup UNION {UNION {{<<d[i].k[j].a[x][1], [a |-> <<d[i].n>>, s |-> d[i].k[j].a[x][2]]>> : x \in 1..Len(d[i].k[j].a)}
         : j \in 1..Len(d[i].k)} : i \in 1..Len(d)}
HowMany(d) ==
  LET RECURSIVE Ks(_), Ds(_)
      Ks(k) == IF k = <<>> THEN 0 ELSE 1 + Len(k[1].a) + Ks(Tail(k))
      Ds(e) == IF e = <<>> THEN 0 ELSE Ks(e[1].k) + Ds(Tail(e))
  IN Ds(d)

DeclareData ==
  /\ At("data")
  /\ LET d == Cmd.d
         ns == {d[i].n : i \in 1..Len(d)}
         br == Brings(d)
     IN /\ Cardinality(ns) = Len(d) /\ ns \cap sorts = {} /\ \A n \in ns : Legal(n) /\ Plain(n)
        /\ \A i \in 1..Len(d) : d[i].k # <<>>
        /\ Cardinality({b[1] : b \in br}) = HowMany(d)      \* each name once
        /\ \A b \in br : /\ New(b[1]) /\ Res(b[2].s) \in sorts \cup ns
                         /\ \A x \in 1..Len(b[2].a) : Res(b[2].a[x]) \in sorts \cup ns
        /\ sorts' = sorts \cup ns
        /\ sig' = [n \in {b[1] : b \in br} |-> (CHOOSE b \in br : b[1] = n)[2]] @@ sig
  /\ Advance /\ UNCHANGED <<alias, phase>>

Fact ==
  /\ At("assert") \/ (At("theory") /\ Files[fid].dialect = "vampire")
  /\ phase = "facts" /\ Closed(Cmd.f)
  /\ Advance /\ UNCHANGED <<sorts, alias, sig, phase>>

Ask ==
  /\ At("goal") /\ phase = "facts" /\ Closed(Cmd.f)
  /\ phase' = "asked" /\ Advance /\ UNCHANGED <<sorts, alias, sig>>

Check ==
  /\ At("check") /\ phase = "asked"
  /\ phase' = "checked" /\ Advance /\ UNCHANGED <<sorts, alias, sig>>

Option == At("option") /\ Advance /\ UNCHANGED <<sorts, alias, sig, phase>>

Next == DeclareSort \/ Alias \/ DeclareFun \/ DeclareData \/ Fact \/ Ask \/ Check \/ Option
Spec == Init /\ [][Next]_vars

\* how far each file can be read; one more when it ends as it should
Done == pos = Len(Cmds) + 1 /\ phase = "checked"
Progress == TLCSet(fid, IF Done THEN pos + 1 ELSE IF pos > TLCGet(fid) THEN pos ELSE TLCGet(fid))
Report == PrintT(<<"READ", [i \in 1..Len(Files) |-> TLCGet(i)]>>)
ASSUME \A i \in 1..Len(Files) : TLCSet(i, 0)

\* invariants of the machine
OneQuestion == phase = "checked" => \E i \in 1..(pos - 1) : Cmds[i].c = "goal" /\ \A j \in 1..(pos - 1) : Cmds[j].c = "goal" => i = j
SigOverSorts == \A n \in DOMAIN sig : Known(sig[n].s) /\ \A i \in 1..Len(sig[n].a) : Known(sig[n].a[i])
=============================================================================
