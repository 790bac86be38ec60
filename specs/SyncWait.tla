------------------------------ MODULE SyncWait ------------------------------
(* coro::sync_wait.  grp[g]: the form of the calls made (operation 8g, the one it sync_waits itself 8g+1);     *)
(* begun, fin, nested: operations that began, are finishing, whose nested wait returned.                       *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, grp, begun, fin, nested, open
vars == <<pend, grp, begun, fin, nested, open>>
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Empty == [x \in {} |-> 0]
Init(par) == pend = [c \in C |-> Idle] /\ grp = Empty /\ begun = {} /\ fin = {} /\ nested = {} /\ open = FALSE
Nests(g) == (grp[g] \div 64) % 2 = 1
Kind(id) == IF id % 8 = 0 THEN grp[id \div 8] % 8 ELSE (grp[id \div 8] \div 128) % 8
Kids(g) == {8 * g} \cup (IF Nests(g) THEN {8 * g + 1} ELSE {})
All == UNION {Kids(g) : g \in DOMAIN grp}
Outcome(id) == 1 + (Kind(id) % 2)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Call(c, op, a, b) == /\ pend[c].pc = "idle" /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> IF op = "go" THEN "done" ELSE "called", res |-> IF op = "go" THEN "ok" ELSE "-", val |-> 0]]
                     /\ open' = (open \/ op = "go")
                     /\ (op = "sw" => a \notin DOMAIN grp) /\ grp' = IF op = "sw" THEN Put(grp, a, b) ELSE grp
                     /\ UNCHANGED <<begun, fin, nested>>
Complete(c) == /\ pend[c].pc = "called" /\ pend[c].op = "sw" /\ 8 * pend[c].a \in fin
               /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = "ok", ![c].val = Outcome(8 * pend[c].a)]
               /\ UNCHANGED <<grp, begun, fin, nested, open>>
Silent == \E c \in C : Complete(c)
Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ res = pend[c].res /\ val = pend[c].val /\ vis = 1
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<grp, begun, fin, nested, open>>
Begin(id) == id \in All \ begun /\ (id % 8 = 1 => id - 1 \in begun) /\ begun' = begun \cup {id} /\ UNCHANGED <<pend, grp, fin, nested, open>>
NestRet(id) == id \in fin /\ id % 8 = 1 /\ id \notin nested /\ nested' = nested \cup {id} /\ UNCHANGED <<pend, grp, begun, fin, open>>
Finish(id) == /\ id \in begun \ fin /\ (Kind(id) \in {4, 7} => open) /\ (id % 8 = 0 /\ Nests(id \div 8) => id + 1 \in nested)
              /\ fin' = fin \cup {id} /\ UNCHANGED <<pend, grp, begun, nested, open>>
Other(e) == \/ e[1] = "cb" /\ Begin(e[2])
            \/ e[1] = "cf" /\ Finish(e[2]) /\ e[3] = 0
            \/ e[1] = "cd" /\ e[2] \in fin /\ UNCHANGED vars
            \/ e[1] = "nest" /\ e[3] = Outcome(e[2]) /\ e[4] = 1 /\ NestRet(e[2])
            \/ e[1] = "gone" /\ e[2] = 0 /\ begun = All /\ fin = All /\ UNCHANGED vars
Stuck(id) == id \in begun /\ ~open /\ Kind(id) \in {4, 7}
\* a thread waits only for an operation that waits at the closed gate
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"}
        /\ \A c \in S : pend[c].op = "sw" /\ pend[c].pc = "called" /\ 8 * pend[c].a \notin fin
        /\ \A id \in All \ fin : IF id % 8 = 0 THEN (id \in begun /\ ((Nests(id \div 8) /\ id + 1 \notin nested) \/ Stuck(id))) ELSE Stuck(id)
        /\ \A id \in All : (id % 8 = 1 /\ id \in fin) => id \in nested
        /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCOther == \E id \in All : Begin(id) \/ Finish(id) \/ NestRet(id)
MCPars == {<<0>>}
MCOps == {<<"sw", 1, 2>>, <<"sw", 2, 4 + 8>>, <<"sw", 3, 3 + 16 + 64 + 128 * 2>>, <<"sw", 4, 6 + 64 + 128 * 4>>, <<"go", 0, 0>>}
May(c, o) == o[1] = "sw" => o[2] \notin DOMAIN grp
Inv == /\ fin \subseteq begun /\ begun \subseteq All /\ nested \subseteq fin
       /\ \A c \in C : pend[c].pc = "done" /\ pend[c].op = "sw" => Kids(pend[c].a) \subseteq fin
Wakes == \A c \in C : (pend[c].pc = "called" /\ pend[c].op = "sw" /\ (open \/ \A id \in Kids(pend[c].a) : Kind(id) \notin {4, 7})) ~> pend[c].pc # "called"
=============================================================================
