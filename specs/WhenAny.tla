------------------------------ MODULE WhenAny ------------------------------
(* coro::when_any.  grp[g]: the form of the calls made (child i of g has the id 8g+i); begun, fin: the       *)
(* children that began / are finishing; cand[g]: fixed once a child of g is known to have completed: the      *)
(* first completion is among the children that were finishing by then.  open: the gate some children wait at. *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, grp, begun, fin, cand, open
vars == <<pend, grp, begun, fin, cand, open>>
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Empty == [x \in {} |-> 0]
Init(par) == pend = [c \in C |-> Idle] /\ grp = Empty /\ begun = {} /\ fin = {} /\ cand = Empty /\ open = FALSE
Num(b) == (b % 4) + 1
IsVoid(b) == (b \div 4) % 2 = 1 /\ (b \div 8) % 4 = 1
Source(b) == (b \div 32) % 2 = 1
Kind(id) == (grp[id \div 8] \div (64 * 8^(id % 8))) % 8
Throws(id) == Kind(id) \in {1, 3, 7}
Kids(g) == {8 * g + i : i \in 0..(Num(grp[g]) - 1)}
All == UNION {Kids(g) : g \in DOMAIN grp}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Call(c, op, a, b) == /\ pend[c].pc = "idle" /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> IF op = "go" THEN "done" ELSE "called", res |-> IF op = "go" THEN "ok" ELSE "-", val |-> 0]]
                     /\ open' = (open \/ op = "go") /\ (op = "any" => a \notin DOMAIN grp) /\ grp' = IF op = "any" THEN Put(grp, a, b) ELSE grp
                     /\ UNCHANGED <<begun, fin, cand>>
\* the outcome is that of the first completion
Winner(c) == /\ pend[c].pc = "called" /\ pend[c].op = "any"
             /\ LET g == pend[c].a IN \E w \in IF g \in DOMAIN cand THEN cand[g] ELSE fin \cap Kids(g) :
                  pend' = [pend EXCEPT ![c].pc = "done", ![c].res = IF Throws(w) THEN "threw" ELSE "ok", ![c].val = IF IsVoid(grp[g]) /\ ~Throws(w) THEN 9 ELSE w - 8 * g]
             /\ UNCHANGED <<grp, begun, fin, cand, open>>
Silent == \E c \in C : Winner(c)
Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ res = pend[c].res /\ val = pend[c].val /\ vis = 1
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<grp, begun, fin, cand, open>>
Begin(id) == id \in All \ begun /\ begun' = begun \cup {id} /\ UNCHANGED <<pend, grp, fin, cand, open>>
\* the first completion of a group decides, so a stop can be seen only after a completion
MayFin(id, stopped) == /\ id \in begun \ fin
                       /\ stopped = 1 => Source(grp[id \div 8]) /\ fin \cap Kids(id \div 8) # {}
                       /\ Kind(id) \in {4, 7} => open
                       /\ Kind(id) = 5 => open \/ stopped = 1
Finish(id, stopped) == MayFin(id, stopped) /\ fin' = fin \cup {id} /\ UNCHANGED <<pend, grp, begun, cand, open>>
Over(id) == /\ id \in fin /\ LET g == id \div 8 IN cand' = IF g \in DOMAIN cand THEN cand ELSE Put(cand, g, fin \cap Kids(g))
            /\ UNCHANGED <<pend, grp, begun, fin, open>>
Other(e) == \/ e[1] = "cb" /\ Begin(e[2])
            \/ e[1] = "cf" /\ Finish(e[2], e[3])
            \/ e[1] = "cd" /\ Over(e[2])
            \/ e[1] = "gone" /\ e[2] = 0 /\ begun = All /\ fin = All /\ UNCHANGED vars
\* everything has been started; who has not finished waits at the gate; the awaiter waits only while nobody has finished
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"}
        /\ \A c \in S : pend[c].op = "any" /\ pend[c].pc = "called" /\ fin \cap Kids(pend[c].a) = {}
        /\ begun = All
        /\ \A id \in begun \ fin : ~open /\ Kind(id) \in {4, 5, 7} /\ (Kind(id) = 5 /\ Source(grp[id \div 8]) => fin \cap Kids(id \div 8) = {})
        /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCOther == \E id \in All : Begin(id) \/ Finish(id, 0) \/ Finish(id, 1) \/ (id \notin UNION {cand[g] : g \in DOMAIN cand} /\ Over(id))
MCPars == {<<0>>}
\* 2 children: at once + gate; hop + throwing; gate or stop + hop; a range of 3
MCOps == {<<"any", 1, 1 + 64 * (0 + 8 * 4)>>, <<"any", 2, 1 + 4 + 8 + 64 * (2 + 8 * 3)>>, <<"any", 3, 1 + 32 + 64 * (5 + 8 * 6)>>, <<"any", 4, 2 + 4 + 64 * (4 + 8 * 7 + 64 * 4)>>, <<"go", 0, 0>>}
May(c, o) == o[1] = "any" => o[2] \notin DOMAIN grp
Inv == /\ fin \subseteq begun /\ begun \subseteq All
       /\ \A g \in DOMAIN cand : cand[g] # {} /\ cand[g] \subseteq fin
       /\ \A c \in C : pend[c].pc = "done" /\ pend[c].op = "any" => fin \cap Kids(pend[c].a) # {}
       /\ \A c \in C : pend[c].pc = "called" /\ pend[c].op = "any" /\ fin \cap Kids(pend[c].a) # {} => ENABLED Winner(c)
Wakes == \A c \in C : (pend[c].pc = "called" /\ pend[c].op = "any" /\ \E id \in Kids(pend[c].a) : Kind(id) < 4) ~> pend[c].pc # "called"
=============================================================================
