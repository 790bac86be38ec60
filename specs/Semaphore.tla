----------------------------- MODULE Semaphore -----------------------------
(* coro::semaphore.  permits: available now; max: upper bound; down: shut down.                       *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, permits, max, down
vars == <<pend, permits, max, down>>
Idle == [op |-> "-", pc |-> "idle", res |-> "-", val |-> 0]
\* par = <<max, start, lockmode>>
Init(par) == pend = [c \in C |-> Idle] /\ permits = par[2] /\ max = par[1] /\ down = FALSE
Call(c, op, a, b) == /\ pend[c].pc = "idle"
                     /\ pend' = [pend EXCEPT ![c] = [op |-> op, pc |-> "called", res |-> "-", val |-> 0]]
                     /\ UNCHANGED <<permits, max, down>>
Done(p, c, r, v) == [p EXCEPT ![c].pc = "done", ![c].res = r, ![c].val = v]
Waiting == {c \in C : pend[c].pc = "waiting"}
Acquire(c) == /\ pend[c].op = "acquire"
              /\ \/ down /\ pend' = Done(pend, c, "shutdown", 0) /\ UNCHANGED permits
                 \/ ~down /\ permits > 0 /\ permits' = permits - 1 /\ pend' = Done(pend, c, "acquired", 0)
                 \/ ~down /\ permits <= 0 /\ pend' = [pend EXCEPT ![c].pc = "waiting"] /\ UNCHANGED permits
              /\ UNCHANGED <<max, down>>
Try(c) == /\ pend[c].op = "try"
          /\ IF permits > 0 THEN permits' = permits - 1 /\ pend' = Done(pend, c, "true", 0)
             ELSE pend' = Done(pend, c, "false", 0) /\ UNCHANGED permits
          /\ UNCHANGED <<max, down>>
Release(c) == /\ pend[c].op = "release"
              /\ IF permits >= max THEN pend' = Done(pend, c, "ok", 0) /\ UNCHANGED permits
                 ELSE \/ \E w \in Waiting : pend' = Done(Done(pend, c, "ok", 0), w, "acquired", 0) /\ UNCHANGED permits
                      \/ Waiting = {} /\ permits' = permits + 1 /\ pend' = Done(pend, c, "ok", 0)
              /\ UNCHANGED <<max, down>>
\* destroying the semaphore is a shutdown, too
Shutdown(c) == /\ pend[c].op \in {"shutdown", "destroy"} /\ down' = TRUE
               /\ pend' = [d \in C |-> IF d = c THEN Done(pend, c, "ok", 0)[c]
                                       ELSE IF d \in Waiting THEN Done(pend, d, "shutdown", 0)[d] ELSE pend[d]]
               /\ UNCHANGED <<permits, max>>
Value(c) == pend[c].op = "value" /\ pend' = Done(pend, c, "ok", permits) /\ UNCHANGED <<permits, max, down>>
IsDown(c) == pend[c].op = "down" /\ pend' = Done(pend, c, IF down THEN "true" ELSE "false", 0) /\ UNCHANGED <<permits, max, down>>
Step(c) == pend[c].pc = "called" /\ (Acquire(c) \/ Try(c) \/ Release(c) \/ Shutdown(c) \/ Value(c) \/ IsDown(c))
Silent == \E c \in C : Step(c)
Ret(c, op, res, val, vis) ==
    /\ pend[c].pc = "done" /\ pend[c].op = op /\ pend[c].res = res /\ pend[c].val = val /\ vis = 1
    /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<permits, max, down>>
\* only acquirers without a permit to take may stay suspended, and not after a shutdown
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"} /\ S = Waiting /\ (S # {} => permits <= 0 /\ ~down) /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars
Other(e) == FALSE /\ UNCHANGED vars

MCPars == {<<1, 1, 0>>, <<2, 0, 0>>, <<2, 1, 0>>, <<1, 0, 0>>}
MCOps == {<<"acquire", 0, 0>>, <<"try", 0, 0>>, <<"release", 0, 0>>, <<"shutdown", 0, 0>>, <<"value", 0, 0>>}
May(c, o) == TRUE
Bounds == permits >= 0 /\ permits <= max
NoneStranded == Waiting # {} => permits = 0 /\ ~down
Inv == Bounds /\ NoneStranded
=============================================================================
