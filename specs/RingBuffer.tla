----------------------------- MODULE RingBuffer -----------------------------
(* coro::ring_buffer.  buf: stored elements (at most cap); rs: "run", "drain", "stop".  Waiting        *)
(* producers and consumers are served by separate steps (Admit, Feed) of whoever made room or stored. *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, buf, rs, cap
vars == <<pend, buf, rs, cap>>
Idle == [op |-> "-", a |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Init(par) == pend = [c \in C |-> Idle] /\ buf = <<>> /\ rs = "run" /\ cap = par[1]
Call(c, op, a, b) == /\ pend[c].pc = "idle"
                     /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, pc |-> "called", res |-> "-", val |-> 0]]
                     /\ UNCHANGED <<buf, rs, cap>>
Done(p, c, r, v) == [p EXCEPT ![c].pc = "done", ![c].res = r, ![c].val = v]
WP == {c \in C : pend[c].pc = "waitP"}
WC == {c \in C : pend[c].pc = "waitC"}
All(p, S, r) == [d \in C |-> IF d \in S THEN Done(p, d, r, 0)[d] ELSE p[d]]
Produce(c) == /\ pend[c].op = "produce" /\ pend[c].pc = "called"
              /\ IF rs # "run" THEN pend' = Done(pend, c, "stopped", 0) /\ UNCHANGED buf
                 ELSE IF Len(buf) < cap THEN buf' = Append(buf, pend[c].a) /\ pend' = Done(pend, c, "produced", 0)
                 ELSE pend' = [pend EXCEPT ![c].pc = "waitP"] /\ UNCHANGED buf
              /\ UNCHANGED <<rs, cap>>
Consume(c) == /\ pend[c].op = "consume" /\ pend[c].pc = "called"
              /\ IF rs = "stop" THEN pend' = Done(pend, c, "stopped", 0) /\ UNCHANGED buf
                 ELSE IF buf # <<>> THEN buf' = Tail(buf) /\ pend' = Done(pend, c, "value", Head(buf))
                 ELSE pend' = [pend EXCEPT ![c].pc = "waitC"] /\ UNCHANGED buf
              /\ UNCHANGED <<rs, cap>>
Admit(c) == /\ pend[c].pc = "waitP" /\ Len(buf) < cap
            /\ buf' = Append(buf, pend[c].a) /\ pend' = Done(pend, c, "produced", 0) /\ UNCHANGED <<rs, cap>>
Feed(c) == /\ pend[c].pc = "waitC" /\ buf # <<>>
           /\ buf' = Tail(buf) /\ pend' = Done(pend, c, "value", Head(buf)) /\ UNCHANGED <<rs, cap>>
NotifyP(c) == /\ pend[c].op = "notifyP" /\ pend[c].pc = "called"
              /\ pend' = Done(All(pend, WP, "notified"), c, "ok", 0) /\ UNCHANGED <<buf, rs, cap>>
NotifyC(c) == /\ pend[c].op = "notifyC" /\ pend[c].pc = "called"
              /\ pend' = Done(All(pend, WC, "notified"), c, "ok", 0) /\ UNCHANGED <<buf, rs, cap>>
Stop(c) == /\ rs' = "stop" /\ pend' = Done(All(pend, WP \cup WC, "stopped"), c, "ok", 0) /\ UNCHANGED <<buf, cap>>
\* destroying the buffer is a shutdown, too
Shutdown(c) == pend[c].op \in {"shutdown", "destroy"} /\ pend[c].pc = "called" /\ Stop(c)
Drain(c) == /\ pend[c].op = "drain" /\ pend[c].pc = "called"
            /\ IF rs = "run" THEN rs' = "drain" /\ pend' = [All(pend, WP, "stopped") EXCEPT ![c].pc = "draining"]
               ELSE UNCHANGED rs /\ pend' = Done(pend, c, "ok", 0)
            /\ UNCHANGED <<buf, cap>>
DrainEnd(c) == pend[c].pc = "draining" /\ (buf = <<>> \/ rs = "stop") /\ Stop(c)
Obs(c, op, r, v) == pend[c].op = op /\ pend[c].pc = "called" /\ pend' = Done(pend, c, r, v) /\ UNCHANGED <<buf, rs, cap>>
B(x) == IF x THEN "true" ELSE "false"
Step(c) == \/ Produce(c) \/ Consume(c) \/ Admit(c) \/ Feed(c) \/ NotifyP(c) \/ NotifyC(c) \/ Shutdown(c) \/ Drain(c) \/ DrainEnd(c)
           \/ Obs(c, "size", "ok", Len(buf)) \/ Obs(c, "full", B(Len(buf) = cap), 0) \/ Obs(c, "empty", B(buf = <<>>), 0)
           \/ Obs(c, "down", B(rs # "run"), 0)
Silent == \E c \in C : Step(c)
Ret(c, op, res, val, vis) ==
    /\ pend[c].pc = "done" /\ pend[c].op = op /\ pend[c].res = res /\ pend[c].val = val /\ vis = 1
    /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<buf, rs, cap>>
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"}
        /\ \A c \in S : pend[c].pc \in {"waitP", "waitC", "draining"}
        /\ WP # {} => (Len(buf) = cap /\ rs = "run")
        /\ WC # {} => (buf = <<>> /\ rs # "stop")
        /\ \A c \in S : pend[c].pc = "draining" => (buf # <<>> /\ rs # "stop")
        /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars
Other(e) == FALSE /\ UNCHANGED vars

MCPars == {<<1>>, <<2>>}
MCOps == {<<"produce", 1, 0>>, <<"produce", 2, 0>>, <<"consume", 0, 0>>, <<"notifyP", 0, 0>>, <<"notifyC", 0, 0>>, <<"shutdown", 0, 0>>, <<"drain", 0, 0>>}
May(c, o) == TRUE
Bounded == Len(buf) <= cap
NoneAfterStop == rs = "stop" => WP = {} /\ WC = {}
NoProducerInDrain == rs # "run" => WP = {}
Inv == Bounded /\ NoneAfterStop /\ NoProducerInDrain
\* under fair stepping nobody waits for ever in front of room or of an element
Served == \A c \in C : /\ (pend[c].pc = "waitP" /\ Len(buf) < cap) ~> (pend[c].pc # "waitP" \/ Len(buf) = cap)
                       /\ (pend[c].pc = "waitC" /\ buf # <<>>) ~> (pend[c].pc # "waitC" \/ buf = <<>>)
=============================================================================
