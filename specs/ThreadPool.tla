----------------------------- MODULE ThreadPool -----------------------------
(* coro::thread_pool.  queue: accepted and waiting, in order; run: started, on a worker; yl: of those, *)
(* the ones inside yield(); shut: shutdown was requested; stopped: workers that have ended; open: the *)
(* gate of the holding items is open; sdp: items inside their own call of shutdown().     *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES sdp, pend, nt, queue, run, yl, hold, shut, stopped, open
vars == <<sdp, pend, nt, queue, run, yl, hold, shut, stopped, open>>
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Init(par) == /\ sdp = {} /\ pend = [c \in C |-> Idle] /\ nt = par[1] /\ queue = <<>> /\ run = {}  /\ yl = {} /\ hold = {}
             /\ shut = FALSE /\ stopped = 0 /\ open = FALSE
Call(c, op, a, b) == /\ pend[c].pc = "idle" /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> "called", res |-> "-", val |-> 0]]
                     /\ UNCHANGED <<sdp, nt, queue, run, yl, hold, shut, stopped, open>>
Done(c, r, v) == pend' = [pend EXCEPT ![c].pc = "done", ![c].res = r, ![c].val = v]
\* items submitted: number a (three of them, a, a+1, a+2, for a range); bit 0 of b: the item holds its worker until the gate opens
Ids(c) == IF pend[c].op = "range" THEN <<pend[c].a, pend[c].a + 1>> ELSE <<pend[c].a>>
Submits == {"sched", "resume", "spawn", "range"}
Submit(c) == /\ pend[c].pc = "called" /\ pend[c].op \in Submits
             /\ IF shut THEN Done(c, "refused", 0) /\ UNCHANGED <<queue, hold>>
                ELSE /\ Done(c, "ok", IF pend[c].op = "range" THEN 2 ELSE 1)
                     /\ queue' = queue \o Ids(c)
                     /\ hold' = IF pend[c].b % 2 = 1 THEN hold \cup {Ids(c)[i] : i \in DOMAIN Ids(c)} ELSE hold
             /\ UNCHANGED <<sdp, nt, run, yl, shut, stopped, open>>
Null(c) == pend[c].pc = "called" /\ pend[c].op = "null" /\ Done(c, "refused", 0) /\ UNCHANGED <<sdp, nt, queue, run, yl, hold, shut, stopped, open>>
Shut(c) == pend[c].pc = "called" /\ pend[c].op = "shutdown" /\ shut' = TRUE /\ pend' = [pend EXCEPT ![c].pc = "shutting"] /\ UNCHANGED <<sdp, nt, queue, run, yl, hold, stopped, open>>
Joined(c) == pend[c].pc = "shutting" /\ queue = <<>> /\ run = {} /\ stopped = nt /\ Done(c, "ok", 0) /\ UNCHANGED <<sdp, nt, queue, run, yl, hold, shut, stopped, open>>
Free(c) == pend[c].pc = "called" /\ pend[c].op = "free" /\ open' = TRUE /\ Done(c, "ok", 0) /\ UNCHANGED <<sdp, nt, queue, run, yl, hold, shut, stopped>>
\* an item yields: it leaves its worker and queues at the end
Requeue(i) == /\ i \in yl /\ ~shut /\ yl' = yl \ {i} /\ run' = run \ {i} /\ queue' = Append(queue, i)
              /\ UNCHANGED <<sdp, pend, nt, hold, shut, stopped, open>>
SelfShut(i) == i \in run /\ i \notin yl /\ sdp' = sdp \cup {i} /\ UNCHANGED <<pend, nt, queue, run, yl, hold, shut, stopped, open>>
SelfShutDo(i) == i \in sdp /\ sdp' = sdp \ {i} /\ shut' = TRUE /\ UNCHANGED <<pend, nt, queue, run, yl, hold, stopped, open>>
Silent == (\E i \in sdp : SelfShutDo(i)) \/ (\E i \in yl : Requeue(i)) \/ \E c \in C : Submit(c) \/ Null(c) \/ Shut(c) \/ Joined(c) \/ Free(c)
Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ res = pend[c].res /\ val = pend[c].val /\ vis = 1
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<sdp, nt, queue, run, yl, hold, shut, stopped, open>>
Held(i) == i \in hold /\ ~open
\* The item at place k starts: those before it have been taken by workers that have not started them yet, so
\* all of them fit on the workers.
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
StartEv(i) == /\ \E k \in DOMAIN queue : queue[k] = i /\ Cardinality(run) + k <= nt /\ queue' = Without(queue, k)
              /\ run' = run \cup {i} /\ UNCHANGED <<sdp, pend, nt, yl, hold, shut, stopped, open>>
EndEv(i) == i \in run /\ i \notin sdp /\ i \notin yl /\ ~Held(i) /\ run' = run \ {i} /\ UNCHANGED <<sdp, pend, nt, queue, yl, hold, shut, stopped, open>>
YieldEv(i) == i \in run /\ i \notin yl /\ yl' = yl \cup {i} /\ UNCHANGED <<sdp, pend, nt, queue, run, hold, shut, stopped, open>>
\* refused because of the shutdown: the item goes on where it was
YRefEv(i) == i \in yl /\ shut /\ yl' = yl \ {i} /\ UNCHANGED <<sdp, pend, nt, queue, run, hold, shut, stopped, open>>
WStop == shut /\ stopped < nt /\ stopped' = stopped + 1 /\ UNCHANGED <<sdp, pend, nt, queue, run, yl, hold, shut, open>>
Other(e) == \/ e[1] = "start" /\ e[3] = 1 /\ e[4] = 1 /\ StartEv(e[2])
            \/ e[1] = "fin" /\ EndEv(e[2])
            \/ e[1] = "y" /\ YieldEv(e[2])
            \/ e[1] = "yref" /\ YRefEv(e[2])
            \/ e[1] = "sd" /\ SelfShut(e[2])
            \/ e[1] = "wstop" /\ WStop
            \* size() at rest: zero exactly when nothing is queued or running
            \/ e[1] = "size" /\ (e[2] = 0 <=> (queue = <<>> /\ run = {})) /\ e[3] = Len(queue) /\ UNCHANGED vars
            \* the pool is gone: nothing left behind, no frame of a spawned task either
            \/ e[1] = "gone" /\ e[2] = 0 /\ queue = <<>> /\ run = {} /\ stopped = nt /\ UNCHANGED vars
Blocked == \/ run = {} /\ queue = <<>>
           \/ (\A i \in run : i \notin yl /\ Held(i)) /\ (queue # <<>> => Cardinality(run) = nt)
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"} /\ Blocked
        /\ \A c \in S : pend[c].pc = "shutting" /\ run # {}
        /\ (shut /\ run = {} => stopped = nt)
        /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCOther == (\E i \in {queue[k] : k \in DOMAIN queue} : StartEv(i)) \/ (\E i \in run : EndEv(i) \/ YieldEv(i) \/ YRefEv(i)) \/ (shut /\ queue = <<>> /\ Cardinality(run) + stopped < nt /\ WStop)
MCPars == {<<1>>, <<2>>}
MCOps == {<<"resume", 10 * k, h>> : k \in 1..2, h \in {0, 1}} \cup {<<"range", 40, 0>>, <<"shutdown", 0, 0>>, <<"free", 0, 0>>, <<"null", 0, 0>>}
\* every item is submitted once
May(c, o) == o[1] \in {"resume", "range"} => {o[2], o[2] + 1} \cap (run \cup {queue[i] : i \in DOMAIN queue} \cup {pend[d].a : d \in {x \in C : pend[x].pc # "idle"}}) = {}
Inv == /\ yl \subseteq run /\ Cardinality(run) <= nt
       /\ \A i, j \in DOMAIN queue : i # j => queue[i] # queue[j]
       /\ \A i \in DOMAIN queue : queue[i] \notin run
       /\ \A c \in C : (pend[c].op = "shutdown" /\ pend[c].pc = "done") => (queue = <<>> /\ run = {} /\ stopped = nt)
=============================================================================
