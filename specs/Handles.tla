------------------------------ MODULE Handles ------------------------------
(* Handles that own descriptors.  Slot x = 10 * kind + i holds nothing (0), a handle that owns none (-1), or a     *)
(* handle on object n > 0 (copies are handles on the same object; a scheduler's objects are its own).  cost[k]:    *)
(* how many descriptors a fresh handle of kind k owns - learned from the first one made, the same ever after.      *)
(* part: slots whose handle was closed but keeps its other descriptors (a server's stop source).                   *)
(* The descriptor table of the process is looked at after each operation ("tab") and must be exactly what the      *)
(* handles own, each one a descriptor of its own on the right object.                                              *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, slot, cost, part, shut, last, seen
vars == <<pend, slot, cost, part, shut, last, seen>>
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Kinds == 1..7
Slots == {10 * k + i : k \in Kinds, i \in 1..3}
Kind(x) == x \div 10
Least == [k \in Kinds |-> IF k = 2 THEN 2 ELSE 1]
Init(par) == pend = [c \in C |-> Idle] /\ slot = [x \in Slots |-> 0] /\ cost = [k \in Kinds |-> 0] /\ part = {} /\ shut = {} /\ last = 0 /\ seen = FALSE
Order == [n \in 1..21 |-> 10 * ((n - 1) \div 3 + 1) + ((n - 1) % 3) + 1]
Owns(x) == IF slot[x] > 0 THEN cost[Kind(x)] ELSE IF x \in part THEN cost[Kind(x)] - 1 ELSE 0
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Owns(x) + Sum(S \ {x})
Total == Sum({x \in Slots : slot[x] # 0})
Shown(x) == IF Kind(x) = 6 /\ slot[x] # 0 THEN -2 ELSE slot[x]
Busy == \E c \in C : pend[c].pc # "idle"
Took(S, to, from) == IF from \in S THEN (S \ {from}) \cup {to} ELSE S \ {to}
P(c, op, a, b, res) == pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> "called", res |-> res, val |-> 0]] /\ seen' = FALSE
Usable(x) == IF slot[x] <= 0 THEN "inert" ELSE IF x \in shut THEN "shut" ELSE "live"
Lose(x) == part' = part \ {x} /\ shut' = shut \ {x}
Call(c, op, a, b) ==
    /\ ~Busy
    /\ CASE op = "mk" -> P(c, op, a, b, "cost") /\ slot' = [slot EXCEPT ![a] = last + 1] /\ last' = last + 1 /\ Lose(a) /\ UNCHANGED cost
         [] op = "few" -> P(c, op, a, b, "-") /\ slot' = [slot EXCEPT ![a] = 0] /\ Lose(a) /\ UNCHANGED <<cost, last>>
         [] op \in {"cc", "ca"} -> P(c, op, a, b, "ok") /\ slot' = [slot EXCEPT ![a] = slot[b]] /\ UNCHANGED <<cost, part, shut, last>>
         [] op \in {"mc", "ma"} -> /\ P(c, op, a, b, "ok") /\ UNCHANGED <<cost, last>>
                                   /\ IF a = b THEN UNCHANGED <<slot, part, shut>>
                                      ELSE slot' = [slot EXCEPT ![a] = slot[b], ![b] = -1] /\ part' = Took(part, a, b) /\ shut' = Took(shut, a, b)
         [] op = "cl" -> /\ P(c, op, a, b, "ok") /\ slot' = [slot EXCEPT ![a] = -1] /\ UNCHANGED <<cost, shut, last>>
                         /\ part' = (IF Kind(a) = 4 /\ slot[a] > 0 THEN part \cup {a} ELSE part)
         [] op = "de" -> P(c, op, a, b, "ok") /\ slot' = [slot EXCEPT ![a] = 0] /\ Lose(a) /\ UNCHANGED <<cost, last>>
         [] op = "sd" -> P(c, op, a, b, "ok") /\ shut' = shut \cup {a} /\ UNCHANGED <<slot, cost, part, last>>
         [] op = "us" -> P(c, op, a, b, Usable(a)) /\ UNCHANGED <<slot, cost, part, shut, last>>
         [] op = "bad" -> P(c, op, a, b, "throw") /\ UNCHANGED <<slot, cost, part, shut, last>>
Silent == FALSE /\ UNCHANGED vars
Cost(k, n) == /\ \E c \in C : pend[c].op = "mk" /\ pend[c].res = "cost" /\ Kind(pend[c].a) = k /\ pend' = [pend EXCEPT ![c].res = "ok"]
              /\ n >= Least[k] /\ cost[k] \in {0, n} /\ cost' = [cost EXCEPT ![k] = n] /\ UNCHANGED <<slot, part, shut, last, seen>>
\* the table as it must be
Matches(tab, total, uniq, bad) == uniq = 1 /\ bad = 0 /\ total = Total /\ \A n \in 1..21 : tab[n] = Shown(Order[n])
\* with few descriptors left a handle is made whole, or not at all
Few(tab, total, uniq, bad) ==
    \E c \in C : /\ pend[c].op = "few" /\ pend[c].res = "-"
                 /\ LET x == pend[c].a k == Kind(x) IN
                    \/ Matches(tab, total, uniq, bad) /\ (cost[k] # 0 => pend[c].b < cost[k]) /\ pend' = [pend EXCEPT ![c].res = "throw", ![c].pc = "done"] /\ UNCHANGED <<slot, cost, last>>
                    \/ /\ uniq = 1 /\ bad = 0 /\ slot' = [slot EXCEPT ![x] = last + 1] /\ last' = last + 1
                       /\ LET n == total - Total IN n >= Least[k] /\ n <= pend[c].b /\ cost[k] \in {0, n} /\ cost' = [cost EXCEPT ![k] = n]
                       /\ \A m \in 1..21 : tab[m] = (IF Order[m] = x THEN (IF k = 6 THEN -2 ELSE last + 1) ELSE Shown(Order[m]))
                       /\ pend' = [pend EXCEPT ![c].res = "ok", ![c].pc = "done"]
Look(tab, total, uniq, bad) ==
    /\ ~seen /\ seen' = TRUE
    /\ IF \E c \in C : pend[c].op = "few" THEN Few(tab, total, uniq, bad) /\ UNCHANGED <<part, shut>>
       ELSE Matches(tab, total, uniq, bad) /\ (\A c \in C : pend[c].res # "cost") /\ pend' = [c \in C |-> IF pend[c].pc = "called" THEN [pend[c] EXCEPT !.pc = "done"] ELSE pend[c]] /\ UNCHANGED <<slot, cost, part, shut, last>>
Drop(x) == ~Busy /\ slot[x] # 0 /\ slot' = [slot EXCEPT ![x] = 0] /\ Lose(x) /\ seen' = FALSE /\ UNCHANGED <<pend, cost, last>>
Other(e) == \/ e[1] = "cost" /\ Cost(e[2], e[3])
            \/ e[1] = "tab" /\ Look(e[2], e[3], e[4], e[5])
            \/ e[1] = "drop" /\ Drop(e[2])
            \/ e[1] = "left" /\ e[2] = 0 /\ e[3] = 0 /\ (\A x \in Slots : slot[x] = 0) /\ UNCHANGED vars
Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ val = 0 /\ vis = 1 /\ res = pend[c].res
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<slot, cost, part, shut, last, seen>>
Q(S) == S = {} /\ ~Busy /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

\* the model's own descriptor tables: all that a correct library may show
Tab(x0, v0) == [n \in 1..21 |-> IF Order[n] = x0 THEN v0 ELSE Shown(Order[n])]
Real == [k \in Kinds |-> IF k = 2 THEN 2 ELSE IF k = 4 THEN 3 ELSE IF k = 6 THEN 6 ELSE 1]
MCOther == \/ \E k \in Kinds : Cost(k, Real[k])
           \/ ~seen /\ (Look(Tab(0, 0), Total, 1, 0) \/ \E c \in C : pend[c].op = "few" /\ LET x == pend[c].a IN Look(Tab(x, IF Kind(x) = 6 THEN -2 ELSE last + 1), Total + Real[Kind(x)], 1, 0))
MCPars == {<<0>>}
MCOps == {<<"mk", 11, 0>>, <<"cc", 12, 11>>, <<"mc", 12, 11>>, <<"ca", 11, 12>>, <<"ca", 11, 11>>, <<"ma", 11, 12>>, <<"ma", 12, 12>>, <<"cl", 11, 0>>, <<"de", 12, 0>>, <<"us", 11, 0>>,
          <<"mk", 41, 0>>, <<"mk", 42, 0>>, <<"ma", 41, 42>>, <<"mc", 42, 41>>, <<"cl", 41, 0>>, <<"sd", 41, 0>>, <<"us", 42, 0>>, <<"few", 61, 3>>, <<"few", 61, 8>>, <<"few", 42, 3>>, <<"bad", 2, 0>>}
May(c, o) == CASE o[1] \in {"cc", "mc"} -> slot[o[3]] # 0
               [] o[1] \in {"ca", "ma"} -> slot[o[2]] # 0 /\ slot[o[3]] # 0
               [] o[1] \in {"cl", "de", "us"} -> slot[o[2]] # 0
               [] o[1] = "sd" -> slot[o[2]] > 0
               [] OTHER -> TRUE
Inv == /\ part \subseteq {x \in Slots : Kind(x) = 4 /\ slot[x] = -1} /\ Total >= 0
       /\ \A x \in Slots : slot[x] <= last
       \* two handles are on one object only if it can be copied
       /\ \A x \in Slots : \A y \in Slots : slot[x] > 0 /\ slot[x] = slot[y] /\ x # y => Kind(x) = Kind(y) /\ Kind(x) \notin {2, 4, 6}
=============================================================================
