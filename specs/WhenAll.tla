------------------------------ MODULE WhenAll ------------------------------
(* coro::when_all.  grp[g]: the form of the calls made (child i of g has the id 8g+i); begun, fin: the        *)
(* children that began / are finishing; open: the gate some children wait at.  The value of a return has a    *)
(* digit per child: 1 its value, 2 its exception.                                                             *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, grp, begun, fin, open
vars == <<pend, grp, begun, fin, open>>
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Empty == [x \in {} |-> 0]
Init(par) == pend = [c \in C |-> Idle] /\ grp = Empty /\ begun = {} /\ fin = {} /\ open = FALSE
Num(b) == b % 8
Kind(id) == (grp[id \div 8] \div (256 * 8^((id % 8) % 4))) % 8
Kids(g) == {8 * g + i : i \in 0..(Num(grp[g]) - 1)}
All == UNION {Kids(g) : g \in DOMAIN grp}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE Results(_, _)
Results(g, i) == IF i = Num(grp[g]) THEN 0 ELSE (1 + (Kind(8 * g + i) % 2)) * 10^i + Results(g, i + 1)
Call(c, op, a, b) == /\ pend[c].pc = "idle" /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> IF op = "go" THEN "done" ELSE "called", res |-> IF op = "go" THEN "ok" ELSE "-", val |-> 0]]
                     /\ open' = (open \/ op = "go")
                     /\ (op = "all" => a \notin DOMAIN grp) /\ grp' = IF op = "all" THEN Put(grp, a, b) ELSE grp
                     /\ UNCHANGED <<begun, fin>>
Complete(c) == /\ pend[c].pc = "called" /\ pend[c].op = "all" /\ Kids(pend[c].a) \subseteq fin
               /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = "ok", ![c].val = Results(pend[c].a, 0)]
               /\ UNCHANGED <<grp, begun, fin, open>>
Silent == \E c \in C : Complete(c)
Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ res = pend[c].res /\ val = pend[c].val /\ vis = 1
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<grp, begun, fin, open>>
Begin(id) == id \in All \ begun /\ begun' = begun \cup {id} /\ UNCHANGED <<pend, grp, fin, open>>
Finish(id) == id \in begun \ fin /\ (Kind(id) \in {4, 7} => open) /\ fin' = fin \cup {id} /\ UNCHANGED <<pend, grp, begun, open>>
Other(e) == \/ e[1] = "cb" /\ Begin(e[2])
            \/ e[1] = "cf" /\ Finish(e[2]) /\ e[3] = 0
            \/ e[1] = "cd" /\ e[2] \in fin /\ UNCHANGED vars
            \/ e[1] = "gone" /\ e[2] = 0 /\ begun = All /\ fin = All /\ UNCHANGED vars
\* an awaiter waits only for a child at the closed gate; all the others have been started and have finished
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"}
        /\ \A c \in S : pend[c].op = "all" /\ pend[c].pc = "called" /\ ~(Kids(pend[c].a) \subseteq fin)
        /\ begun = All /\ \A id \in begun \ fin : ~open /\ Kind(id) \in {4, 7}
        /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCOther == \E id \in All : Begin(id) \/ Finish(id)
MCPars == {<<0>>}
\* two at once and at the gate; two, one throwing; none; a range of three
MCOps == {<<"all", 1, 2 + 256 * (0 + 8 * 4)>>, <<"all", 2, 2 + 16 + 256 * (2 + 8 * 3)>>, <<"all", 3, 8>>, <<"all", 4, 3 + 8 + 256 * (2 + 8 * 6 + 64 * 7)>>, <<"go", 0, 0>>}
May(c, o) == o[1] = "all" => o[2] \notin DOMAIN grp
Inv == /\ fin \subseteq begun /\ begun \subseteq All
       /\ \A c \in C : pend[c].pc = "done" /\ pend[c].op = "all" => Kids(pend[c].a) \subseteq fin
Wakes == \A c \in C : (pend[c].pc = "called" /\ pend[c].op = "all" /\ (open \/ \A id \in Kids(pend[c].a) : Kind(id) \notin {4, 7})) ~> pend[c].pc # "called"
=============================================================================
