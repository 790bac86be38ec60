---------------------------- MODULE SharedMutex ----------------------------
(* coro::shared_mutex.  xh: exclusive holder (0: none), sh: shared holders, queue: suspended lockers  *)
(* in arrival order.                                                                                  *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, xh, sh, queue
vars == <<pend, xh, sh, queue>>
Idle == [op |-> "-", a |-> 0, pc |-> "idle", res |-> "-", val |-> 0, solo |-> FALSE]
Excl == {"lock", "scx"}
Shar == {"lockS", "scs"}
Tries == {"try", "tryS"}
Scoped == {"scx", "scs"}
Init(par) == pend = [c \in C |-> Idle] /\ xh = 0 /\ sh = {} /\ queue = <<>>
Call(c, op, a, b) == /\ pend[c].pc = "idle"
                     /\ pend' = [d \in C |->
                          IF d = c THEN [op |-> op, a |-> a, pc |-> "called", res |-> "-", val |-> 0,
                                         solo |-> op \in Tries /\ \A x \in C \ {c} : pend[x].pc \in {"idle", "queued"}]
                          ELSE [pend[d] EXCEPT !.solo = FALSE]]
                     /\ UNCHANGED <<xh, sh, queue>>
Done(p, c, r) == [p EXCEPT ![c].pc = "done", ![c].res = r]
\* a plain lock returns once granted; a scoped one runs its task first
Granted(p, c) == IF p[c].op \in Scoped THEN [p EXCEPT ![c].pc = "granted"] ELSE Done(p, c, "ok")
GrantAll(p, S) == [d \in C |-> IF d \in S THEN Granted(p, d)[d] ELSE p[d]]
WriterWaits == \E i \in 1..Len(queue) : pend[queue[i]].op \in Excl
\* the readers at the head of the queue
RECURSIVE Run(_)
Run(q) == IF q = <<>> \/ pend[Head(q)].op \in Excl THEN 0 ELSE 1 + Run(Tail(q))

Lock(c) == /\ pend[c].pc = "called" /\ pend[c].op \in Excl
           /\ IF xh = 0 /\ sh = {} THEN xh' = c /\ pend' = Granted(pend, c) /\ UNCHANGED queue
              ELSE queue' = Append(queue, c) /\ pend' = [pend EXCEPT ![c].pc = "queued"] /\ UNCHANGED xh
           /\ UNCHANGED sh
LockS(c) == /\ pend[c].pc = "called" /\ pend[c].op \in Shar
            /\ IF xh = 0 /\ ~WriterWaits THEN sh' = sh \cup {c} /\ pend' = Granted(pend, c) /\ UNCHANGED queue
               ELSE queue' = Append(queue, c) /\ pend' = [pend EXCEPT ![c].pc = "queued"] /\ UNCHANGED sh
            /\ UNCHANGED xh
\* a try may fail because of another call in progress (it does not wait for the internal lock), but
\* not when it is alone
Try(c) == /\ pend[c].pc = "called" /\ pend[c].op = "try"
          /\ \/ xh = 0 /\ sh = {} /\ xh' = c /\ pend' = Done(pend, c, "true")
             \/ ~(pend[c].solo /\ xh = 0 /\ sh = {}) /\ pend' = Done(pend, c, "false") /\ UNCHANGED xh
          /\ UNCHANGED <<sh, queue>>
TryS(c) == /\ pend[c].pc = "called" /\ pend[c].op = "tryS"
           /\ \/ xh = 0 /\ ~WriterWaits /\ sh' = sh \cup {c} /\ pend' = Done(pend, c, "true")
              \/ ~(pend[c].solo /\ xh = 0 /\ ~WriterWaits) /\ pend' = Done(pend, c, "false") /\ UNCHANGED sh
           /\ UNCHANGED <<xh, queue>>
\* p: pend after the releaser is marked; hands over to the head of the queue when the lock is empty
Release(p, c) == LET s2 == sh \ {c} IN
    IF (xh = c \/ xh = 0) /\ s2 = {} /\ queue # <<>> THEN
        IF pend[Head(queue)].op \in Excl
        THEN xh' = Head(queue) /\ sh' = {} /\ queue' = Tail(queue) /\ pend' = GrantAll(p, {Head(queue)})
        ELSE LET k == Run(queue) S == {queue[i] : i \in 1..k} IN
             xh' = 0 /\ sh' = S /\ queue' = SubSeq(queue, k + 1, Len(queue)) /\ pend' = GrantAll(p, S)
    ELSE xh' = (IF xh = c THEN 0 ELSE xh) /\ sh' = s2 /\ queue' = queue /\ pend' = p
Holds(c) == xh = c \/ c \in sh
Unlock(c) == pend[c].pc = "called" /\ pend[c].op = "unlock" /\ Holds(c) /\ Release(Done(pend, c, "ok"), c)
ScopedEnd(c) == pend[c].pc = "ran" /\ Release(Done(pend, c, IF pend[c].a = 1 THEN "exc" ELSE "ok"), c)
\* the executor refuses everything from now on
Close(c) == pend[c].pc = "called" /\ pend[c].op = "close" /\ pend' = Done(pend, c, "ok") /\ UNCHANGED <<xh, sh, queue>>
Step(c) == Close(c) \/ Lock(c) \/ LockS(c) \/ Try(c) \/ TryS(c) \/ Unlock(c) \/ ScopedEnd(c)
Silent == \E c \in C : Step(c)

Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ pend[c].res = res /\ vis = 1
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<xh, sh, queue>>
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"} /\ S = {queue[i] : i \in 1..Len(queue)} 
        /\ (S # {} => xh # 0 \/ sh # {}) /\ UNCHANGED vars
\* the task of a scoped lock begins and ends, with the lock held
Other(e) == LET c == e[2] IN
    /\ \/ e[1] = "in" /\ e[3] = 1 /\ pend[c].pc = "granted" /\ pend' = [pend EXCEPT ![c].pc = "run"]
       \/ e[1] = "out" /\ pend[c].pc = "run" /\ pend' = [pend EXCEPT ![c].pc = "ran"]
    /\ UNCHANGED <<xh, sh, queue>>
End(why) == why = "ok" /\ UNCHANGED vars

MCPars == {<<1>>}
MCOps == {<<"lock", 0, 0>>, <<"lockS", 0, 0>>, <<"try", 0, 0>>, <<"tryS", 0, 0>>, <<"unlock", 0, 0>>, <<"close", 0, 0>>}
May(c, o) == IF o[1] = "close" THEN TRUE ELSE IF o[1] = "unlock" THEN Holds(c) ELSE ~Holds(c)
Exclusion == (xh # 0 => sh = {})
NoneStranded == queue # <<>> => (xh # 0 \/ sh # {})
ReadersWaitForWriterOnly == (queue # <<>> /\ xh = 0) => pend[Head(queue)].op \in Excl
HoldersGranted == \A c \in C : Holds(c) => pend[c].pc # "queued"
Inv == Exclusion /\ NoneStranded /\ ReadersWaitForWriterOnly /\ HoldersGranted
=============================================================================
