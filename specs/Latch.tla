------------------------------- MODULE Latch -------------------------------
(* coro::latch.  A count-down first decreases the count; the one(s) that find it exhausted then open  *)
(* the latch before they return.  seen: ids of the count-downs every awaiter must see.                *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, count, open, seen
vars == <<pend, count, open, seen>>
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Init(par) == pend = [c \in C |-> Idle] /\ count = par[1] /\ open = (par[1] <= 0) /\ seen = {}
Call(c, op, a, b) ==
    /\ pend[c].pc = "idle"
    /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> "called", res |-> "-", val |-> 0]]
    /\ UNCHANGED <<count, open, seen>>
Done(c, r, v) == pend' = [pend EXCEPT ![c].pc = "done", ![c].res = r, ![c].val = v]
Wait(c) == /\ pend[c].op = "wait" /\ open /\ Done(c, "ok", 0) /\ UNCHANGED <<count, open, seen>>
Dec(c) == /\ pend[c].op = "down" /\ pend[c].pc = "called"
          /\ count' = count - pend[c].a
          /\ seen' = IF count > 0 THEN seen \cup {pend[c].b \div 2} ELSE seen
          /\ IF count - pend[c].a <= 0 THEN pend' = [pend EXCEPT ![c].pc = "exhausted"] ELSE Done(c, "ok", 0)
          /\ UNCHANGED open
Fire(c) == /\ pend[c].pc = "exhausted" /\ open' = TRUE /\ Done(c, "ok", 0) /\ UNCHANGED <<count, seen>>
Remaining(c) == /\ pend[c].op = "remaining" /\ Done(c, "ok", IF count > 0 THEN count ELSE 0) /\ UNCHANGED <<count, open, seen>>
Ready(c) == /\ pend[c].op = "ready" /\ Done(c, IF open THEN "true" ELSE "false", 0) /\ UNCHANGED <<count, open, seen>>
\* the executor refuses everything from now on
Close(c) == pend[c].op = "close" /\ Done(c, "ok", 0) /\ UNCHANGED <<count, open, seen>>
Step(c) == \/ pend[c].pc = "called" /\ (Close(c) \/ Wait(c) \/ Dec(c) \/ Remaining(c) \/ Ready(c))
           \/ Fire(c)
Silent == \E c \in C : Step(c)
Has(mask, id) == (mask \div (2 ^ id)) % 2 = 1
Ret(c, op, res, val, vis) ==
    /\ pend[c].pc = "done" /\ pend[c].op = op /\ pend[c].res = res /\ vis = 1
    /\ IF op = "wait" THEN \A i \in seen : Has(val, i) ELSE val = pend[c].val
    /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<count, open, seen>>
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"} /\ \A c \in S : pend[c].pc = "called" /\ pend[c].op = "wait" /\ ~open
        /\ (S # {} => count > 0) /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars
Other(e) == FALSE /\ UNCHANGED vars

MCPars == {<<0>>, <<1>>, <<2>>, <<3>>}
MCOps == {<<"wait", 0, 0>>, <<"down", 1, 0>>, <<"down", 2, 2>>, <<"remaining", 0, 0>>, <<"ready", 0, 0>>, <<"close", 0, 0>>}
May(c, o) == TRUE
OpenOnlyExhausted == open => count <= 0
ReleasedOnlyOpen == \A c \in C : (pend[c].pc = "done" /\ pend[c].op = "wait") => open
\* an exhausted latch is open as soon as no count-down is under way
ExhaustedOpens == (count <= 0 /\ ~\E c \in C : pend[c].pc = "exhausted") => open
Inv == OpenOnlyExhausted /\ ReleasedOnlyOpen /\ ExhaustedOpens
WaitersReleased == \A c \in C : [](((count <= 0) /\ pend[c].op = "wait") => <>(pend[c].op # "wait" \/ pend[c].pc = "done"))
=============================================================================
