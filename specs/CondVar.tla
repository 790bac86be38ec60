------------------------------ MODULE CondVar ------------------------------
(* coro::condition_variable with its coro::mutex.  holder: owner of the mutex (0: none); flag: the   *)
(* data the predicates look at (true when flag >= level); stopped: a stop was requested;            *)
(* ones: notify_one() calls handed to an executor, or passed on by a waiter that had timed out.      *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, holder, flag, stopped, ones
vars == <<pend, holder, flag, stopped, ones>>
Idle == [op |-> "-", a |-> 0, pc |-> "idle", res |-> "-", val |-> 0, st |-> "-", to |-> FALSE]
PredOps == {"waitp", "waits", "waitfp", "waitfs"}
StopOps == {"waits", "waitfs"}
Timed == {"waitf", "waitfp", "waitfs"}
Waits == {"wait", "waitf"} \cup PredOps
Init(par) == pend = [c \in C |-> Idle] /\ holder = 0 /\ flag = 0 /\ stopped = FALSE /\ ones = 0
Call(c, op, a, b) == /\ pend[c].pc = "idle"
                     /\ pend' = [pend EXCEPT ![c] = [Idle EXCEPT !.op = op, !.a = a, !.pc = "called"]]
                     /\ UNCHANGED <<holder, flag, stopped, ones>>
At(c, pc) == pend[c].pc = pc
Waiting == {c \in C : At(c, "waiting")}
True(c) == flag >= pend[c].a
\* the outcome a waiter is granted the mutex with
Grant(c, v, st, to) == pend' = [pend EXCEPT ![c].pc = "granted", ![c].val = v, ![c].st = st, ![c].to = to]
\* the wait begins: returns at once if its predicate holds, otherwise releases the mutex and waits, in one step
Begin(c) == /\ At(c, "locked") /\ pend[c].op \in Waits /\ holder = c
            /\ IF pend[c].op \in PredOps /\ True(c)
               THEN Grant(c, 1, "-", FALSE) /\ UNCHANGED holder
               ELSE pend' = [pend EXCEPT ![c].pc = "waiting"] /\ holder' = 0
            /\ UNCHANGED <<flag, stopped, ones>>
\* a waiter a notification was given to takes the mutex and looks at its predicate
Eval(c) == /\ pend[c].pc \in {"claimed1", "claimedA"} /\ holder = 0
           /\ LET v == IF pend[c].op \in PredOps THEN IF True(c) THEN 1 ELSE 0 ELSE 1 IN
              IF v = 1 \/ (pend[c].op \in StopOps /\ stopped)
              THEN Grant(c, v, IF pend[c].op = "waitf" THEN "no_timeout" ELSE "-", FALSE) /\ holder' = c
              ELSE pend' = [pend EXCEPT ![c].pc = "requeue"] /\ holder' = c
           /\ UNCHANGED <<flag, stopped, ones>>
\* ... and waits again; it has the mutex until then, but a stop request and a notification don't need the mutex
Requeue(c) == /\ At(c, "requeue") /\ holder' = 0 /\ pend' = [pend EXCEPT ![c].pc = "waiting"]
              /\ UNCHANGED <<flag, stopped, ones>>
\* the time of a timed wait has passed; a notify_one() it was meant to get goes to somebody else
TimeOut(c) == /\ pend[c].op \in Timed /\ pend[c].pc \in {"waiting", "claimed1", "claimedA"}
              /\ ones' = ones + (IF At(c, "claimed1") THEN 1 ELSE 0)
              /\ pend' = [pend EXCEPT ![c].pc = "timedout"] /\ UNCHANGED <<holder, flag, stopped>>
GrantT(c) == /\ At(c, "timedout") /\ holder = 0 /\ holder' = c
             /\ IF pend[c].op = "waitf" THEN Grant(c, 1, "timeout", TRUE)
                ELSE Grant(c, IF True(c) THEN 1 ELSE 0, "-", TRUE)
             /\ UNCHANGED <<flag, stopped, ones>>
Done(p, c) == [p EXCEPT ![c].pc = "done", ![c].res = "ok"]
ClaimAll(p) == [d \in C |-> IF At(d, "waiting") THEN [p[d] EXCEPT !.pc = "claimedA"] ELSE p[d]]
NotifyOne(c) == /\ At(c, "called") /\ pend[c].op = "one"
                /\ \/ Waiting = {} /\ pend' = Done(pend, c)
                   \/ \E w \in Waiting : pend' = [Done(pend, c) EXCEPT ![w].pc = "claimed1"]
                /\ UNCHANGED <<holder, flag, stopped, ones>>
NotifyAll(c) == /\ At(c, "called") /\ pend[c].op \in {"all", "xall"} /\ pend' = ClaimAll(Done(pend, c))
                /\ UNCHANGED <<holder, flag, stopped, ones>>
NotifyOneX(c) == At(c, "called") /\ pend[c].op = "xone" /\ pend' = Done(pend, c) /\ ones' = ones + 1 /\ UNCHANGED <<holder, flag, stopped>>
OneBg == /\ ones > 0 /\ ones' = ones - 1
         /\ \/ Waiting = {} /\ UNCHANGED pend
            \/ \E w \in Waiting : pend' = [pend EXCEPT ![w].pc = "claimed1"]
         /\ UNCHANGED <<holder, flag, stopped>>
Stop(c) == At(c, "called") /\ pend[c].op = "stop" /\ stopped' = TRUE /\ pend' = Done(pend, c) /\ UNCHANGED <<holder, flag, ones>>
\* the executor refuses everything from now on: notifications through it are made by the caller
Close(c) == At(c, "called") /\ pend[c].op = "close" /\ pend' = Done(pend, c) /\ UNCHANGED <<holder, flag, stopped, ones>>
Silent == OneBg \/ \E c \in C : Begin(c) \/ Eval(c) \/ Requeue(c) \/ TimeOut(c) \/ GrantT(c) \/ NotifyOne(c) \/ NotifyAll(c) \/ NotifyOneX(c) \/ Stop(c) \/ Close(c)

Ret(c, op, res, val, vis) == /\ At(c, "done") /\ pend[c].op = op /\ res = pend[c].res /\ vis = 1
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<holder, flag, stopped, ones>>
\* the caller has locked the mutex; the wait returned, with the mutex; the caller is about to unlock
Lk(c) == At(c, "called") /\ pend[c].op \in Waits \cup {"set"} /\ holder = 0 /\ holder' = c /\ pend' = [pend EXCEPT ![c].pc = "locked"]
         /\ flag' = (IF pend[c].op = "set" THEN pend[c].a ELSE flag) /\ UNCHANGED <<stopped, ones>>
Wk(c, st, val, early) == /\ At(c, "granted") /\ holder = c /\ pend[c].st = st /\ pend[c].val = val /\ (pend[c].to => early = 0)
                         /\ pend' = [pend EXCEPT ![c].pc = "awake"] /\ UNCHANGED <<holder, flag, stopped, ones>>
Ul(c) == (At(c, "awake") \/ (At(c, "locked") /\ pend[c].op = "set")) /\ holder = c /\ holder' = 0 /\ pend' = Done(pend, c) /\ UNCHANGED <<flag, stopped, ones>>
Other(e) == \/ e[1] = "lk" /\ e[3] = 1 /\ Lk(e[2])
            \/ e[1] = "wk" /\ e[6] = 1 /\ Wk(e[2], e[3], e[4], e[5])
            \/ e[1] = "ul" /\ e[3] = 1 /\ Ul(e[2])
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"} /\ ones = 0 /\ holder = 0
        /\ \A c \in S : At(c, "waiting") /\ pend[c].op \notin Timed
        /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCOther == \E c \in C : Lk(c) \/ Wk(c, pend[c].st, pend[c].val, 0) \/ Ul(c)
MCPars == {<<1>>}
MCOps == {<<"wait", 0, 0>>, <<"waitp", 1, 0>>, <<"waits", 1, 0>>, <<"waitf", 1, 0>>, <<"waitfp", 1, 1>>, <<"waitfs", 1, 1>>, <<"one", 0, 0>>, <<"all", 0, 0>>, <<"xone", 0, 0>>, <<"xall", 0, 0>>, <<"set", 1, 0>>, <<"set", 0, 0>>, <<"stop", 0, 0>>}
May(c, o) == TRUE
HoldsIt == {"locked", "requeue", "granted", "awake"}
Exclusion == \A c \in C : pend[c].pc \in HoldsIt <=> holder = c
PredTrue == \A c \in C : (pend[c].pc = "granted" /\ pend[c].op \in PredOps /\ pend[c].val = 0) => (pend[c].to \/ stopped)
Inv == Exclusion /\ PredTrue
\* a waiter that was given a notification returns or waits again
ClaimedServed == \A c \in C : (pend[c].pc \in {"claimed1", "claimedA", "timedout"}) ~> (pend[c].pc \notin {"claimed1", "claimedA", "timedout"})
=============================================================================
