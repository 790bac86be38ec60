------------------------------- MODULE Queue -------------------------------
(* coro::queue.  elems: accepted elements not yet delivered; rs: "run", "drain", "stop".              *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, elems, rs
vars == <<pend, elems, rs>>
Idle == [op |-> "-", a |-> 0, pc |-> "idle", res |-> "-", val |-> 0, solo |-> FALSE]
Init(par) == pend = [c \in C |-> Idle] /\ elems = <<>> /\ rs = "run"
Pushes == {"push", "pushc", "emplace"}
Resting == {"idle", "waiting", "draining"}
Call(c, op, a, b) ==
    /\ pend[c].pc = "idle"
    /\ pend' = [d \in C |->
          IF d = c THEN [op |-> op, a |-> a, pc |-> "called", res |-> "-", val |-> 0,
                         solo |-> op = "trypop" /\ \A x \in C \ {c} : pend[x].pc \in {"idle", "waiting"}]
          ELSE [pend[d] EXCEPT !.solo = FALSE]]
    /\ UNCHANGED <<elems, rs>>
Done(p, c, r, v) == [p EXCEPT ![c].pc = "done", ![c].res = r, ![c].val = v]
Waiting == {c \in C : pend[c].pc = "waiting"}
Push(c) == /\ pend[c].op \in Pushes
           /\ IF rs # "run" THEN pend' = Done(pend, c, "stopped", 0) /\ UNCHANGED elems
              ELSE IF Waiting # {} THEN \E w \in Waiting : pend' = Done(Done(pend, c, "produced", 0), w, "value", pend[c].a) /\ UNCHANGED elems
              ELSE elems' = Append(elems, pend[c].a) /\ pend' = Done(pend, c, "produced", 0)
           /\ UNCHANGED rs
Pop(c) == /\ pend[c].op = "pop"
          /\ IF rs = "stop" THEN pend' = Done(pend, c, "stopped", 0) /\ UNCHANGED elems
             ELSE IF elems # <<>> THEN pend' = Done(pend, c, "value", Head(elems)) /\ elems' = Tail(elems)
             ELSE pend' = [pend EXCEPT ![c].pc = "waiting"] /\ UNCHANGED elems
          /\ UNCHANGED rs
TryPop(c) == /\ pend[c].op = "trypop"
             /\ \/ rs = "stop" /\ pend' = Done(pend, c, "stopped", 0) /\ UNCHANGED elems
                \/ rs # "stop" /\ elems = <<>> /\ pend' = Done(pend, c, "empty", 0) /\ UNCHANGED elems
                \/ rs # "stop" /\ elems # <<>> /\ pend' = Done(pend, c, "value", Head(elems)) /\ elems' = Tail(elems)
                \/ ~pend[c].solo /\ pend' = Done(pend, c, "busy", 0) /\ UNCHANGED elems
             /\ UNCHANGED rs
\* the stop itself: everyone waiting is released, later calls report stopped
StopAll(p) == [d \in C |-> IF d \in Waiting THEN Done(p, d, "stopped", 0)[d] ELSE p[d]]
\* destroying the queue is a shutdown, too
Shutdown(c) == /\ pend[c].op \in {"shutdown", "destroy"} /\ rs' = "stop" /\ pend' = Done(StopAll(pend), c, "ok", 0) /\ UNCHANGED elems
Drain(c) == /\ pend[c].op = "drain" /\ pend[c].pc = "called"
            /\ IF rs = "run" THEN rs' = "drain" /\ pend' = [pend EXCEPT ![c].pc = "draining"]
               ELSE UNCHANGED rs /\ pend' = Done(pend, c, "ok", 0)
            /\ UNCHANGED elems
DrainEnd(c) == /\ pend[c].pc = "draining" /\ (elems = <<>> \/ rs = "stop")
               /\ rs' = "stop" /\ pend' = Done(StopAll(pend), c, "ok", 0) /\ UNCHANGED elems
Size(c) == pend[c].op = "size" /\ pend' = Done(pend, c, "ok", Len(elems)) /\ UNCHANGED <<elems, rs>>
IsDown(c) == pend[c].op = "down" /\ pend' = Done(pend, c, IF rs # "run" THEN "true" ELSE "false", 0) /\ UNCHANGED <<elems, rs>>
Step(c) == \/ pend[c].pc = "called" /\ (Push(c) \/ Pop(c) \/ TryPop(c) \/ Shutdown(c) \/ Drain(c) \/ Size(c) \/ IsDown(c))
           \/ DrainEnd(c)
Silent == \E c \in C : Step(c)
Ret(c, op, res, val, vis) ==
    /\ pend[c].pc = "done" /\ pend[c].op = op /\ pend[c].res = res /\ vis = 1
    \* the size after a stop is that of the discarded elements: not specified
    /\ (op = "size" /\ rs = "stop") \/ val = pend[c].val
    /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<elems, rs>>
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"}
        /\ \A c \in S : pend[c].pc \in {"waiting", "draining"}
        /\ Waiting # {} => (elems = <<>> /\ rs # "stop")
        /\ \A c \in S : pend[c].pc = "draining" => (elems # <<>> /\ rs # "stop")
        /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars
Other(e) == FALSE /\ UNCHANGED vars

MCPars == {<<>>}
MCOps == {<<"push", 1, 0>>, <<"push", 2, 0>>, <<"pop", 0, 0>>, <<"trypop", 0, 0>>, <<"shutdown", 0, 0>>, <<"drain", 0, 0>>}
May(c, o) == TRUE
\* no consumer waits while an element is there, nobody waits once stopped
NoneStranded == Waiting # {} => (elems = <<>> /\ rs # "stop")
Inv == NoneStranded
=============================================================================
