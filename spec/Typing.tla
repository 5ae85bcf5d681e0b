------------------------------- MODULE Typing -------------------------------
(***************************************************************************)
(* Which protocol files are well-formed, as a judgement on their syntax,   *)
(* and the files one reaches from a well-formed one by a few edits.        *)
(*                                                                         *)
(* A term is a node <<kind, name, binders, children>>, kind one of         *)
(*   "app" (function, constant or variable), "macro", "infix", "if",       *)
(*   "find", "forall", "exists", "let".                                    *)
(* Binders are pairs <<variable, sort>>.                                   *)
(*                                                                         *)
(* Terms live in one of two realms: "S", the bodies of steps, where truth  *)
(* values are of sort Condition and equality is between messages only; and *)
(* "E", the goals, where they are of sort Bool, where happens, lt, ... are  *)
(* available, and where any two terms of the same sort can be compared.    *)
(* "T" is the realm of the messages a goal talks about: as "S", with the    *)
(* macros of the steps.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Types,    \* user sorts
          Funs0,    \* declared symbols: name |-> <<argument sorts, sort>>
          StepNames,\* those that are steps
          Cells,    \* memory cells: name |-> sorts of the indices
          Macros0,  \* name |-> <<parameters, body>>
          Slots0,   \* the terms of the file: id |-> [step, env, realm, sort, term]
          Asg0,     \* the assignments: id |-> [step, env, fresh, cell, args, term]
          Pool,     \* replacement terms
          Names,    \* replacement names for symbols
          Vars,     \* replacement names for variables
          SortPool, \* replacement sorts for binders
          Cryptos0  \* the cryptographic assumptions: <<name, symbols>>
          \* (a slot and an assignment also say which step they belong to: .step)

VARIABLES types, funs, macros, slots, asg, cryptos, what

vars == <<types, funs, macros, slots, asg, cryptos, what>>

ILL == "$ill"       \* must be refused
UNK == "$unknown"   \* not specified here

Sorts == types \cup {"Message", "Step", "Bool", "Condition", "Name"}

\* ------------------------------------------------------------ judgement
In(r) == IF r = "S" THEN "S" ELSE "T"
Truth(r) == IF r = "E" THEN "Bool" ELSE "Condition"
\* in goals messages and conditions stand for their values
Norm(r, s) == IF s = "Name" THEN "Message" ELSE IF r = "E" /\ s = "Condition" THEN "Bool" ELSE s
\* Bool in the declaration of a function means Condition
Decl(s) == IF s = "Bool" THEN "Condition" ELSE s

OnlyGoals == [happens |-> <<<<"Step">>, "Bool">>, lt |-> <<<<"Step", "Step">>, "Bool">>,
              leq |-> <<<<"Step", "Step">>, "Bool">>, gt |-> <<<<"Step", "Step">>, "Bool">>]
Builtin == [input |-> <<<<"Step">>, "Message">>, msg |-> <<<<"Step">>, "Message">>,
            cond |-> <<<<"Step">>, "Condition">>, exec |-> <<<<"Step">>, "Condition">>,
            pred |-> <<<<"Step">>, "Step">>, empty |-> << <<>>, "Message">>]
StepMacros == {"msg", "cond", "exec"}

RECURSIVE Last(_, _)
Last(env, x) == IF env = <<>> THEN "" ELSE IF env[Len(env)][1] = x THEN env[Len(env)][2] ELSE Last(SubSeq(env, 1, Len(env) - 1), x)

\* combination of verdicts: unknown if any is, ill if any is, else the result
RECURSIVE Join(_, _)
Join(ss, res) ==
  IF ss = <<>> THEN res
  ELSE LET t == Join(Tail(ss), res) IN
       IF Head(ss) = UNK \/ t = UNK THEN UNK
       ELSE IF Head(ss) = ILL \/ t = ILL THEN ILL ELSE t
Is(s, want) == IF s \in {UNK, ILL} THEN s ELSE IF s = want THEN want ELSE ILL

\* P = [funs, macros, bodies]; bodies: what msg!/cond! of a step stand for
RECURSIVE SortOf(_, _, _, _)

ArgsAre(P, r, env, cs, ss, res) ==
  IF Len(cs) # Len(ss) THEN Join([i \in 1..Len(cs) |-> IF SortOf(P, r, env, cs[i]) = UNK THEN UNK ELSE ILL] \o <<ILL>>, ILL)
  ELSE Join([i \in 1..Len(cs) |-> Is(SortOf(P, r, env, cs[i]), Norm(r, ss[i]))], res)

SortOf(P, r, env, t) ==
  LET k == t[1]  n == t[2]  b == t[3]  c == t[4]
      S(i) == SortOf(P, r, env, c[i])
      all(s) == [i \in 1..Len(c) |-> Is(S(i), s)]
      badBinder == \E i \in 1..Len(b) : b[i][2] \notin Sorts
  IN CASE k = "app" ->
            LET v == Last(env, n) IN
            IF c = <<>> /\ v # "" THEN (IF v = "Name" THEN UNK ELSE Norm(r, v))
            ELSE IF n \in {"true", "false"} THEN (IF c = <<>> THEN Truth(r) ELSE ILL)
            ELSE IF n = "not" THEN ArgsAre(P, r, env, c, <<Truth(r)>>, Truth(r))
            ELSE IF n \in DOMAIN OnlyGoals THEN
                   (IF r # "E" THEN ArgsAre(P, r, env, c, OnlyGoals[n][1], ILL)
                    ELSE ArgsAre(P, "E", env, c, OnlyGoals[n][1], "Bool"))
            ELSE IF n \in DOMAIN Builtin THEN
                   (IF n \in StepMacros /\ r = "S" THEN UNK
                    ELSE ArgsAre(P, In(r), env, c, Builtin[n][1], Norm(r, Builtin[n][2])))
            ELSE IF n \in DOMAIN P.funs THEN
                   \* the arguments of functions and names are terms, not values
                   LET f == P.funs[n] IN
                   ArgsAre(P, IF n \in StepNames THEN r ELSE In(r), env, c, [i \in 1..Len(f[1]) |-> f[1][i]],
                           Norm(r, f[2]))
            ELSE Join([i \in 1..Len(c) |-> IF S(i) = UNK THEN UNK ELSE ILL], ILL)
       [] k = "infix" ->
            IF Len(c) < 2 THEN ILL
            ELSE CASE n \in {"&&", "||"} -> Join(all(Truth(r)), Truth(r))
                   [] n = "=>" -> IF Len(c) # 2 THEN Join(all(Truth(r)) \o <<ILL>>, ILL) ELSE Join(all(Truth(r)), Truth(r))
                   [] n = "<=>" -> IF r = "E" /\ S(1) # "Bool" THEN Join(<<UNK>>, UNK) ELSE Join(all(Truth(r)), Truth(r))
                   [] n \in {"==", "!="} ->
                        IF r # "E" THEN IF S(2) \notin {"Message", "Condition", UNK, ILL} THEN UNK ELSE
                            Join(all("Message"), "Condition")
                        ELSE IF S(1) \in {UNK, ILL} THEN Join([i \in 1..Len(c) |-> S(i)], "Bool")
                        ELSE Join(all(S(1)), "Bool")
                   [] OTHER -> UNK
       [] k = "if" ->
            IF r # "E" THEN IF S(2) \notin {"Message", "Condition", UNK, ILL} THEN UNK ELSE
                            Join(<<Is(S(1), "Condition"), Is(S(2), "Message"), Is(S(3), "Message")>>, "Message")
            ELSE IF S(2) \in {UNK, ILL} THEN Join(<<Is(S(1), "Bool"), S(2), S(3)>>, ILL)
            ELSE IF S(2) \notin {"Message", "Bool"} THEN UNK
            ELSE Join(<<Is(S(1), "Bool"), Is(S(3), S(2))>>, S(2))
       [] k \in {"forall", "exists"} ->
            IF badBinder THEN ILL
            ELSE Is(SortOf(P, r, env \o b, c[1]), Truth(r))
       [] k = "find" ->
            IF badBinder THEN ILL
            ELSE Join(<<Is(SortOf(P, In(r), env \o b, c[1]), "Condition"),
                        Is(SortOf(P, In(r), env \o b, c[2]), "Message"),
                        Is(SortOf(P, In(r), env, c[3]), "Message")>>, "Message")
       [] k = "let" ->
            IF badBinder THEN ILL
            ELSE IF b[1][2] \in {"Bool", "Condition", "Name"} THEN UNK
            ELSE LET r1 == IF b[1][2] = "Message" THEN In(r) ELSE r IN
                 Join(<<Is(SortOf(P, r1, env, c[1]), b[1][2])>>, SortOf(P, r, env \o b, c[2]))
       [] k = "macro" ->
            IF n \in {"msg", "cond"} THEN
               \* only of a step, given by its name; its body is read again at this place
               IF Len(c) # 1 \/ c[1][1] # "app" \/ c[1][2] \notin StepNames \/ c[1][2] \notin DOMAIN P.funs THEN
                  (IF \E i \in 1..Len(c) : S(i) = UNK THEN UNK ELSE ILL)
               ELSE IF r = "S" THEN UNK
               ELSE Join(<<Is(S(1), "Step")>>, IF n = "msg" THEN "Message" ELSE Truth(r))
            ELSE IF n \notin DOMAIN P.macros THEN Join([i \in 1..Len(c) |-> IF S(i) = UNK THEN UNK ELSE ILL], ILL)
            ELSE LET m == P.macros[n] IN
                 IF \E i \in 1..Len(m[1]) : m[1][i][2] \in {"Bool", "Condition", "Name"} THEN UNK
                 ELSE IF \E i \in 1..Len(m[1]) : m[1][i][2] \notin Sorts THEN ILL
                 ELSE IF Len(c) # Len(m[1]) THEN (IF \E i \in 1..Len(c) : S(i) = UNK THEN UNK ELSE ILL)
                 ELSE LET ra(i) == IF m[1][i][2] = "Message" THEN In(r) ELSE r IN
                      Join([i \in 1..Len(c) |-> Is(SortOf(P, ra(i), env, c[i]), m[1][i][2])],
                           SortOf(P, r, m[1], m[2]))
       [] OTHER -> UNK

SlotOk(P, s) == Is(SortOf(P, s.realm, s.env, s.term), s.sort)

AsgOk(P, a) ==
  IF \E i \in 1..Len(a.fresh) : a.fresh[i][2] \notin Sorts THEN ILL
  ELSE IF \E i \in 1..Len(a.fresh) : a.fresh[i][1] \in DOMAIN P.funs \/ Last(a.env \o SubSeq(a.fresh, 1, i - 1), a.fresh[i][1]) # "" THEN ILL
  ELSE IF a.cell \notin DOMAIN Cells THEN ILL
  ELSE Join(<<ArgsAre(P, "S", a.env \o a.fresh, a.args, Cells[a.cell], "Message"),
              Is(SortOf(P, "S", a.env \o a.fresh, a.term), "Message")>>, "Message")

\* a cryptographic assumption is about functions of the right arity and sorts
Msgs(n) == [i \in 1..n |-> "Message"]
SignatureIs(f, n, out) ==
  IF f \in DOMAIN Builtin \cup DOMAIN OnlyGoals THEN UNK
  ELSE IF f \notin DOMAIN funs THEN ILL
  ELSE IF f \in StepNames \cup DOMAIN Cells THEN ILL
  ELSE IF funs[f][2] = "Name" \/ "Name" \in {funs[f][1][i] : i \in 1..Len(funs[f][1])} THEN UNK
  ELSE IF funs[f] = <<Msgs(n), out>> THEN "ok" ELSE ILL
CryptoOk(c) ==
  LET n == Len(c[2])
      all(ss) == Join([i \in 1..Len(ss) |-> SignatureIs(c[2][i], ss[i][1], ss[i][2])], "ok")
  IN CASE c[1] \in {"nonce", "memory_cell"} -> IF n = 0 THEN "ok" ELSE UNK
       [] c[1] = "unfolding" -> IF n = 0 THEN "ok" ELSE ILL
       [] c[1] \in {"uf-cma", "euf-cma"} /\ n = 2 -> all(<<<<2, "Message">>, <<3, "Condition">>>>)
       [] c[1] = "euf-cma" /\ n = 3 -> all(<<<<2, "Message">>, <<3, "Condition">>, <<1, "Message">>>>)
       [] c[1] = "int-ctxt" /\ n = 3 -> all(<<<<3, "Message">>, <<2, "Message">>, <<0, "Message">>>>)
       [] c[1] = "int-ctxt" /\ n = 4 -> UNK
       [] OTHER -> ILL

RECURSIVE UsesMacro(_, _)
UsesMacro(t, m) == (t[1] = "macro" /\ t[2] = m) \/ \E i \in 1..Len(t[4]) : UsesMacro(t[4][i], m)
MacroUsed(m) == \E i \in DOMAIN slots : UsesMacro(slots[i].term, m)

SetJoin(S) == IF UNK \in S THEN UNK ELSE IF ILL \in S THEN ILL ELSE "ok"

Verdict ==
  LET P == [funs |-> funs, macros |-> macros]
      v == SetJoin({SlotOk(P, slots[i]) : i \in DOMAIN slots} \cup {AsgOk(P, asg[i]) : i \in DOMAIN asg}
                    \cup {CryptoOk(cryptos[i]) : i \in DOMAIN cryptos})
      \* every sort a declaration mentions has to exist
      d == {x \in DOMAIN funs : \E i \in 1..Len(funs[x][1]) : funs[x][1][i] \notin Sorts} \cup
           {x \in DOMAIN funs : funs[x][2] \notin Sorts} \cup
           \* names are told apart by their arguments, which is not so of messages
           {x \in DOMAIN funs : funs[x][2] = "Name" /\ \E i \in 1..Len(funs[x][1]) : funs[x][1][i] \in {"Message", "Bool", "Condition"}}
  IN CASE what[1] = "twice" -> "refuse"
       [] v = UNK -> "unknown"
       [] v = ILL \/ d # {} -> "refuse"
       \* macros are read where they are used
       [] what[1] = "macro" /\ ~MacroUsed(what[2]) -> "unknown"
       [] OTHER -> "accept"

\* ---------------------------------------------------------------- edits
TrueNode == <<"app", "true", <<>>, <<>>>>

RECURSIVE Mut(_)
Mut(t) ==
  LET k == t[1]  n == t[2]  b == t[3]  c == t[4]
      flat == k \in {"app", "macro", "infix"}
  IN (Pool \cup
      (IF flat /\ c # <<>> THEN {<<k, n, b, SubSeq(c, 1, Len(c) - 1)>>, <<k, n, b, Append(c, c[Len(c)])>>} ELSE {}) \cup
      (IF k # "let" /\ Len(c) >= 2 THEN {<<k, n, b, <<c[2], c[1]>> \o SubSeq(c, 3, Len(c))>>} ELSE {}) \cup
      (IF k \in {"if", "find"} THEN {<<k, n, b, <<c[1], c[3], c[2]>>>>} ELSE {}) \cup
      \* put into something else
      {<<"if", "", <<>>, <<TrueNode, t, t>>>>, <<"app", "not", <<>>, <<t>>>>, <<"infix", "==", <<>>, <<t, t>>>>, <<"infix", "&&", <<>>, <<t, t>>>>,
       <<"let", "", <<<<"zw", "Message">>>>, <<t, <<"app", "zw", <<>>, <<>>>>>>>>} \cup
      {<<"find", "", <<<<"zw", s>>>>, <<TrueNode, t, t>>>> : s \in {CHOOSE s \in types : TRUE}} \cup
      {<<"exists", "", <<<<"zw", s>>>>, <<t>>>> : s \in {CHOOSE s \in types : TRUE}} \cup
      {c[i] : i \in 1..Len(c)} \cup
      (IF k = "app" THEN {<<k, m, b, c>> : m \in (IF c = <<>> THEN Vars ELSE Names)} ELSE {}) \cup
      (IF k = "infix" THEN {<<k, o, b, c>> : o \in {"==", "&&", "=>", "<=>", "!="}} ELSE {}) \cup
      {<<k, n, [b EXCEPT ![i][2] = s], c>> : i \in 1..Len(b), s \in SortPool} \cup
      {<<k, n, [b EXCEPT ![i][1] = v], c>> : i \in 1..Len(b), v \in Vars} \cup
      UNION {{<<k, n, b, [c EXCEPT ![i] = m]>> : m \in Mut(c[i])} : i \in 1..Len(c)})
     \ {t}

Init ==
  /\ types = Types /\ funs = Funs0 /\ macros = Macros0 /\ slots = Slots0 /\ asg = Asg0 /\ cryptos = Cryptos0
  /\ what = <<"none", "", "">>

EditSlot == \E i \in DOMAIN slots : \E t \in Mut(slots[i].term) :
  /\ slots' = [slots EXCEPT ![i].term = t]
  /\ what' = <<"slot", i, t>>
  /\ UNCHANGED <<types, funs, macros, asg, cryptos>>

EditMacro == \E m \in DOMAIN macros : \E t \in Mut(macros[m][2]) :
  /\ macros' = [macros EXCEPT ![m][2] = t]
  /\ what' = <<"macro", m, t>>
  /\ UNCHANGED <<types, funs, slots, asg, cryptos>>

EditAsg == \E i \in DOMAIN asg :
  \/ \E t \in Mut(asg[i].term) :
       /\ asg' = [asg EXCEPT ![i].term = t]
       /\ what' = <<"asg", i, t>>
       /\ UNCHANGED <<types, funs, macros, slots, cryptos>>
  \/ \E as \in {SubSeq(asg[i].args, 1, Len(asg[i].args) - 1) : x \in (IF asg[i].args = <<>> THEN {} ELSE {1})}
              \cup {Append(asg[i].args, p) : p \in Pool}
              \cup UNION {{[asg[i].args EXCEPT ![j] = m] : m \in Mut(asg[i].args[j])} : j \in 1..Len(asg[i].args)} :
       /\ asg' = [asg EXCEPT ![i].args = as]
       /\ what' = <<"asgargs", i, as>>
       /\ UNCHANGED <<types, funs, macros, slots, cryptos>>
  \/ \E fr \in {[asg[i].fresh EXCEPT ![j][1] = v] : j \in 1..Len(asg[i].fresh), v \in Vars}
              \cup {[asg[i].fresh EXCEPT ![j][2] = s] : j \in 1..Len(asg[i].fresh), s \in SortPool}
              \cup {SubSeq(asg[i].fresh, 1, Len(asg[i].fresh) - 1) : x \in (IF asg[i].fresh = <<>> THEN {} ELSE {1})} :
       /\ asg' = [asg EXCEPT ![i].fresh = fr]
       /\ what' = <<"fresh", i, fr>>
       /\ UNCHANGED <<types, funs, macros, slots, cryptos>>

\* a declaration is forgotten; steps and cells keep theirs
Forget == \E f \in DOMAIN funs \ (StepNames \cup DOMAIN Cells) :
  /\ funs' = [g \in DOMAIN funs \ {f} |-> funs[g]]
  /\ what' = <<"forget", f, "">>
  /\ UNCHANGED <<types, macros, slots, asg, cryptos>>

ForgetMacro == \E m \in DOMAIN macros :
  /\ macros' = [x \in DOMAIN macros \ {m} |-> macros[x]]
  /\ what' = <<"forgetmacro", m, "">>
  /\ UNCHANGED <<types, funs, slots, asg, cryptos>>

\* a function or a name is declared with other sorts; names take indices only,
\* and functions give messages or conditions
EditSig == \E f \in DOMAIN funs \ (StepNames \cup DOMAIN Cells) :
  LET a == funs[f][1]  o == funs[f][2]
      as == {Append(a, s) : s \in SortPool} \cup (IF a = <<>> THEN {} ELSE {SubSeq(a, 1, Len(a) - 1)})
            \cup {[a EXCEPT ![i] = s] : i \in 1..Len(a), s \in SortPool}
      os == IF o = "Name" THEN {} ELSE {"Message", "Condition"}
  IN \E g \in ({<<x, o>> : x \in as} \cup {<<a, x>> : x \in os}) \ {funs[f]} :
       /\ \A i \in 1..Len(g[1]) : g[1][i] # "Step"
       /\ funs' = [funs EXCEPT ![f] = g]
       /\ what' = <<"sig", f, g>>
       /\ UNCHANGED <<types, macros, slots, asg, cryptos>>

\* a parameter of a step is of another sort
EditParam == \E s \in StepNames : \E i \in 1..Len(funs[s][1]) : \E x \in (types \cup {"nosort"}) \ {funs[s][1][i]} :
  /\ funs' = [funs EXCEPT ![s][1][i] = x]
  /\ slots' = [j \in DOMAIN slots |-> IF slots[j].step = s THEN [slots[j] EXCEPT !.env[i][2] = x] ELSE slots[j]]
  /\ asg' = [j \in DOMAIN asg |-> IF asg[j].step = s THEN [asg[j] EXCEPT !.env[i][2] = x] ELSE asg[j]]
  /\ what' = <<"param", s, <<i, x>>>>
  /\ UNCHANGED <<types, macros, cryptos>>

\* a step loses its last parameter
DropParam == \E s \in StepNames :
  /\ funs[s][1] # <<>>
  /\ LET n == Len(funs[s][1])
         cut(e) == SubSeq(e, 1, n - 1) \o SubSeq(e, n + 1, Len(e))
     IN /\ funs' = [funs EXCEPT ![s][1] = SubSeq(@, 1, n - 1)]
        /\ slots' = [j \in DOMAIN slots |-> IF slots[j].step = s THEN [slots[j] EXCEPT !.env = cut(@)] ELSE slots[j]]
        /\ asg' = [j \in DOMAIN asg |-> IF asg[j].step = s THEN [asg[j] EXCEPT !.env = cut(@)] ELSE asg[j]]
  /\ what' = <<"dropparam", s, "">>
  /\ UNCHANGED <<types, macros, cryptos>>

ForgetType == \E t \in types :
  /\ types' = types \ {t}
  /\ what' = <<"forgettype", t, "">>
  /\ UNCHANGED <<funs, macros, slots, asg, cryptos>>

\* a cryptographic assumption is about something else, or another one
EditCrypto == \E i \in DOMAIN cryptos :
  LET c == cryptos[i]  n == Len(c[2])
      symbols == DOMAIN funs \cup {"nosuch"}
  IN \E d \in {<<m, c[2]>> : m \in {"nonce", "memory_cell", "unfolding", "uf-cma", "euf-cma", "int-ctxt", "nosuch"}}
              \cup {<<c[1], Append(c[2], f)>> : f \in symbols}
              \cup (IF n = 0 THEN {} ELSE {<<c[1], SubSeq(c[2], 1, n - 1)>>})
              \cup {<<c[1], [c[2] EXCEPT ![j] = f]>> : j \in 1..n, f \in symbols} :
       /\ d # c
       /\ cryptos' = [cryptos EXCEPT ![i] = d]
       /\ what' = <<"crypto", ToString(i), d>>
       /\ UNCHANGED <<types, funs, macros, slots, asg>>

\* something is declared a second time
Twice == \E f \in DOMAIN funs \cup DOMAIN macros :
  /\ what' = <<"twice", f, "">>
  /\ UNCHANGED <<types, funs, macros, slots, asg, cryptos>>

Next == /\ what[1] = "none"
        /\ Twice \/ EditSlot \/ EditMacro \/ EditAsg \/ Forget \/ ForgetMacro \/ EditSig \/ EditParam \/ DropParam \/ ForgetType \/ EditCrypto

Spec == Init /\ [][Next]_vars

\* the unedited file is well-formed
StartsWell == what[1] = "none" => Verdict = "accept"
Report == PrintT(<<"M", what, Verdict>>)
=============================================================================
