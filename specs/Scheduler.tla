----------------------------- MODULE Scheduler -----------------------------
(* coro::scheduler, execution of coroutines.  queue: accepted and waiting, in order; run: started, on  *)
(* the event loop thread (inline) or on a pool thread; yl: of those, the ones inside yield(); hold:    *)
(* items that keep their thread until the gate opens; shut: shutdown was requested; ioex: the event    *)
(* loop has found nothing left and ended; closed: nothing is accepted anymore; stopped: threads that   *)
(* have ended.  nt: threads that run items; man: the user drives the event loop.                       *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, nt, pool, man, queue, run, yl, hold, shut, ioex, closed, stopped, open
vars == <<pend, nt, pool, man, queue, run, yl, hold, shut, ioex, closed, stopped, open>>
conf == <<nt, pool, man>>
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0, late |-> FALSE]
Init(par) == /\ pend = [c \in C |-> Idle] /\ pool = (par[1] > 0) /\ nt = (IF par[1] > 0 THEN par[1] ELSE 1) /\ man = (par[2] > 0)
             /\ queue = <<>> /\ run = {} /\ yl = {} /\ hold = {} /\ shut = FALSE /\ ioex = FALSE /\ closed = FALSE /\ stopped = 0 /\ open = FALSE
\* threads that report their end
Threads == (IF pool THEN nt ELSE 0) + (IF man THEN 0 ELSE 1)
Call(c, op, a, b) == /\ pend[c].pc = "idle" /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> "called", res |-> "-", val |-> 0, late |-> FALSE]]
                     /\ UNCHANGED <<conf, queue, run, yl, hold, shut, ioex, closed, stopped, open>>
Done(c, r, v) == pend' = [pend EXCEPT ![c].pc = "done", ![c].res = r, ![c].val = v]
Ids(c) == IF pend[c].op = "range" THEN <<pend[c].a, pend[c].a + 1>> ELSE <<pend[c].a>>
Submits == {"sched", "resume", "spawn", "join", "range"}
\* A range is submitted one by one to an inline scheduler: it may be overtaken and refused in the middle.
Accept(c, ids) == /\ queue' = queue \o ids
                  /\ hold' = IF pend[c].b % 2 = 1 THEN hold \cup {ids[i] : i \in DOMAIN ids} ELSE hold
Submit(c) == /\ pend[c].pc \in {"called", "half"} /\ pend[c].op \in Submits
             /\ \/ /\ (shut /\ pend[c].op # "sched") \/ closed
                   /\ IF pend[c].pc = "half" THEN Done(c, "ok", 1) ELSE Done(c, "refused", 0)
                   /\ UNCHANGED <<queue, hold>>
                \/ /\ ~closed /\ (shut => pend[c].op = "sched" \/ pend[c].late)
                   /\ IF pend[c].op = "join" THEN pend' = [pend EXCEPT ![c].pc = "joining"] /\ Accept(c, Ids(c))
                      ELSE IF pend[c].op = "range"
                      THEN IF pend[c].pc = "called" THEN pend' = [pend EXCEPT ![c].pc = "half"] /\ Accept(c, <<pend[c].a>>)
                           ELSE Done(c, "ok", 2) /\ Accept(c, <<pend[c].a + 1>>)
                      ELSE Done(c, "ok", 1) /\ Accept(c, Ids(c))
             /\ UNCHANGED <<conf, run, yl, shut, ioex, closed, stopped, open>>
Null(c) == pend[c].pc = "called" /\ pend[c].op = "null" /\ Done(c, "refused", 0) /\ UNCHANGED <<conf, queue, run, yl, hold, shut, ioex, closed, stopped, open>>
\* the first caller waits for the end, the others return
Shut(c) == /\ pend[c].pc = "called" /\ pend[c].op = "shutdown" /\ shut' = TRUE
           /\ pend' = [d \in C |-> IF d = c THEN (IF shut THEN [pend[c] EXCEPT !.pc = "done", !.res = "ok"] ELSE [pend[c] EXCEPT !.pc = "shutting"])
                                   ELSE IF pend[d].pc \in {"called", "half"} THEN [pend[d] EXCEPT !.late = TRUE] ELSE pend[d]]
           /\ UNCHANGED <<conf, queue, run, yl, hold, ioex, closed, stopped, open>>
\* the event loop ends when nothing is left (the user's loop does not end); nothing is accepted afterwards
IoExit == /\ shut /\ ~ioex /\ ~man /\ queue = <<>> /\ run = {} /\ ioex' = TRUE /\ closed' = ~pool
          /\ UNCHANGED <<conf, pend, queue, run, yl, hold, shut, stopped, open>>
PoolClose == /\ pool /\ shut /\ (ioex \/ man) /\ ~closed /\ closed' = TRUE
             /\ UNCHANGED <<conf, pend, queue, run, yl, hold, shut, ioex, stopped, open>>
Joined(c) == /\ pend[c].pc = "shutting" /\ (closed => queue = <<>> /\ run = {}) /\ (closed \/ (man /\ ~pool)) /\ stopped = Threads
             /\ Done(c, "ok", 0) /\ UNCHANGED <<conf, queue, run, yl, hold, shut, ioex, closed, stopped, open>>
Free(c) == pend[c].pc = "called" /\ pend[c].op = "free" /\ open' = TRUE /\ Done(c, "ok", 0) /\ UNCHANGED <<conf, queue, run, yl, hold, shut, ioex, closed, stopped>>
Requeue(i) == /\ i \in yl /\ ~closed /\ yl' = yl \ {i} /\ run' = run \ {i} /\ queue' = Append(queue, i)
              /\ UNCHANGED <<conf, pend, hold, shut, ioex, closed, stopped, open>>
Silent == IoExit \/ PoolClose \/ (\E i \in yl : Requeue(i)) \/ \E c \in C : Submit(c) \/ Null(c) \/ Shut(c) \/ Joined(c) \/ Free(c)
Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ res = pend[c].res /\ val = pend[c].val /\ vis = 1
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<conf, queue, run, yl, hold, shut, ioex, closed, stopped, open>>
Held(i) == i \in hold /\ ~open
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
StartEv(i) == /\ \E k \in DOMAIN queue : queue[k] = i /\ Cardinality(run) + k <= nt /\ queue' = Without(queue, k)
              /\ run' = run \cup {i} /\ UNCHANGED <<conf, pend, yl, hold, shut, ioex, closed, stopped, open>>
EndEv(i) == /\ i \in run /\ i \notin yl /\ ~Held(i) /\ run' = run \ {i}
            /\ pend' = [c \in C |-> IF pend[c].pc = "joining" /\ pend[c].a = i THEN [pend[c] EXCEPT !.pc = "done", !.res = "ok", !.val = 1] ELSE pend[c]]
            /\ UNCHANGED <<conf, queue, yl, hold, shut, ioex, closed, stopped, open>>
YieldEv(i) == i \in run /\ i \notin yl /\ yl' = yl \cup {i} /\ UNCHANGED <<conf, pend, queue, run, hold, shut, ioex, closed, stopped, open>>
YRefEv(i) == i \in yl /\ closed /\ yl' = yl \ {i} /\ UNCHANGED <<conf, pend, queue, run, hold, shut, ioex, closed, stopped, open>>
WStop == shut /\ (ioex \/ man) /\ stopped < Threads /\ stopped' = stopped + 1 /\ UNCHANGED <<conf, pend, queue, run, yl, hold, shut, ioex, closed, open>>
Other(e) == \/ e[1] = "start" /\ e[3] = 1 /\ e[4] = 1 /\ StartEv(e[2])
            \/ e[1] = "fin" /\ EndEv(e[2])
            \/ e[1] = "y" /\ YieldEv(e[2])
            \/ e[1] = "yref" /\ YRefEv(e[2])
            \/ e[1] = "wstop" /\ WStop
            \/ e[1] = "size" /\ (e[2] = 0 <=> (queue = <<>> /\ run = {})) /\ UNCHANGED vars
            \/ e[1] = "gone" /\ e[2] = 0 /\ queue = <<>> /\ run = {} /\ stopped = Threads /\ UNCHANGED vars
Blocked == \/ run = {} /\ queue = <<>>
           \/ (\A i \in run : i \notin yl /\ Held(i)) /\ (queue # <<>> => Cardinality(run) = nt)
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"} /\ Blocked
        /\ \A c \in S : (pend[c].pc = "shutting" /\ run # {}) \/ (pend[c].pc = "joining" /\ pend[c].a \in run \cup {queue[i] : i \in DOMAIN queue})
        /\ (shut /\ run = {} /\ (pool \/ ~man) => stopped = Threads)
        /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCOther == (\E i \in {queue[k] : k \in DOMAIN queue} : StartEv(i)) \/ (\E i \in run : EndEv(i) \/ YieldEv(i) \/ YRefEv(i)) \/ (closed /\ queue = <<>> /\ Cardinality(run) + stopped < Threads /\ WStop)
MCPars == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>}
MCOps == {<<"resume", 10, 0>>, <<"sched", 20, 1>>, <<"join", 30, 0>>, <<"range", 40, 0>>, <<"shutdown", 0, 0>>, <<"free", 0, 0>>, <<"null", 0, 0>>}
May(c, o) == o[1] \in Submits => {o[2], o[2] + 1} \cap (run \cup {queue[i] : i \in DOMAIN queue} \cup {pend[d].a : d \in {x \in C : pend[x].pc # "idle"}}) = {}
Inv == /\ yl \subseteq run /\ Cardinality(run) <= nt
       /\ \A i, j \in DOMAIN queue : i # j => queue[i] # queue[j]
       /\ \A i \in DOMAIN queue : queue[i] \notin run
       /\ \A c \in C : (pend[c].op = "shutdown" /\ pend[c].pc = "shutting" /\ stopped = Threads /\ closed) => (queue = <<>> /\ run = {})
\* everybody who waits for a submission or for the shutdown gets through once the gate is open
Served == \A c \in C : (open /\ pend[c].pc = "joining") ~> pend[c].pc # "joining"
=============================================================================
