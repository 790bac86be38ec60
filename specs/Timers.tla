----------------------------- MODULE Timers -----------------------------
(* coro::scheduler, timers.  tm: the timers (and polls with a timeout) that wait, each with the bounds  *)
(* of its deadline: lo, before which it must not fire, and, once the submitting call has returned with   *)
(* the deadline still ahead (sure), hi, by which it is due.  now: the last time seen.  ordered: one      *)
(* thread resumes (inline or one pool thread), so that firing order is observable.  strict: time moves   *)
(* only while the whole system is idle, so a timer that fires late was late.  Times are <<ms, ns>>.      *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, ordered, strict, man, tm, now, shut, wr, closed
vars == <<pend, ordered, strict, man, tm, now, shut, wr, closed>>
Lt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Le(x, y) == ~Lt(y, x)
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Init(par) == /\ pend = [c \in C |-> Idle] /\ ordered = (par[1] <= 1) /\ strict = (par[3] = 1) /\ man = (par[2] = 1)
             /\ tm = [i \in {} |-> 0] /\ now = <<0, 0>> /\ shut = FALSE /\ wr = {} /\ closed = FALSE
Call(c, op, a, b) == /\ pend[c].pc = "idle" /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> IF op = "shutdown" THEN "shutting" ELSE "done", res |-> "ok", val |-> 0]]
                     /\ shut' = (shut \/ op = "shutdown") /\ UNCHANGED <<ordered, strict, man, tm, now, wr, closed>>
\* a shutdown ends once nothing waits (if the event loop is the user's, he waits himself; a second, concurrent one may return at once)
Down(c) == /\ pend[c].pc = "shutting" /\ LET others == \E d \in C \ {c} : pend[d].pc = "shutting" IN
              /\ man \/ others \/ \A i \in DOMAIN tm : ~tm[i].sure
              /\ closed' = (closed \/ ~(man \/ others))
           /\ pend' = [pend EXCEPT ![c].pc = "done"] /\ UNCHANGED <<ordered, strict, man, tm, now, shut, wr>>
Silent == \E c \in C : Down(c)
Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ res = pend[c].res /\ val = pend[c].val /\ vis = 1
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<ordered, strict, man, tm, now, shut, wr, closed>>
Less(i) == [j \in DOMAIN tm \ {i} |-> tm[j]]
Arm(i, lo) == /\ i \notin DOMAIN tm /\ tm' = [j \in DOMAIN tm \cup {i} |-> IF j = i THEN [lo |-> lo, hi |-> lo, sure |-> FALSE] ELSE tm[j]]
              /\ UNCHANGED <<pend, ordered, strict, man, now, shut, wr, closed>>
Armed(i, hi) == /\ ~closed /\ i \in DOMAIN tm /\ tm' = [tm EXCEPT ![i].hi = hi, ![i].sure = TRUE] /\ UNCHANGED <<pend, ordered, strict, man, now, shut, wr, closed>>
\* nobody fires before its time, nor overtakes a timer that was due before it
FireEv(i, t) == /\ ~closed /\ i \in DOMAIN tm /\ Le(tm[i].lo, t) /\ Le(now, t) /\ now' = t
                /\ (ordered /\ tm[i].sure) => \A j \in DOMAIN tm \ {i} : tm[j].sure => Le(tm[i].lo, tm[j].hi)
                /\ (strict /\ tm[i].sure) => Le(t, <<tm[i].hi[1] + 1, tm[i].hi[2]>>)
                /\ tm' = Less(i) /\ UNCHANGED <<pend, ordered, strict, man, shut, wr, closed>>
\* a poll that was ready (or could not be accepted) takes its timer along
ReadyEv(i, how) == /\ i \in DOMAIN tm /\ (IF how = "read" THEN i \in wr ELSE how = "error" /\ shut)
                   /\ tm' = Less(i) /\ UNCHANGED <<pend, ordered, strict, man, now, shut, wr, closed>>
Refused(i) == i \in DOMAIN tm /\ shut /\ tm' = Less(i) /\ UNCHANGED <<pend, ordered, strict, man, now, shut, wr, closed>>
Wrote(i) == wr' = wr \cup {i} /\ UNCHANGED <<pend, ordered, strict, man, tm, now, shut, closed>>
Other(e) == \/ e[1] = "arm" /\ Arm(e[2], <<e[3], e[4]>>)
            \/ e[1] = "armed" /\ Armed(e[2], <<e[3], e[4]>>)
            \/ e[1] = "fire" /\ e[5] = 1 /\ e[6] = 1 /\ FireEv(e[2], <<e[3], e[4]>>)
            \/ e[1] = "ready" /\ (e[3] = "read" => e[4] = 1) /\ ReadyEv(e[2], e[3])
            \/ e[1] = "refused" /\ Refused(e[2])
            \/ e[1] = "wr" /\ Wrote(e[2])
            \/ e[1] = "size" /\ e[2] = 0 /\ DOMAIN tm = {} /\ UNCHANGED vars
            \/ e[1] = "gone" /\ DOMAIN tm = {} /\ UNCHANGED vars
Q(S) == S = {c \in C : pend[c].pc # "idle"} /\ S = {} /\ DOMAIN tm = {} /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

\* ---- for model checking: ids 1..3, times in 0..3 ms
Times == {<<x, 0>> : x \in 0..3}
Ids == 1..3
MCOther == \/ \E i \in Ids, t \in Times : Le(now, t) /\ (strict => \A j \in DOMAIN tm : Le(now, <<tm[j].hi[1] + 1, 0>>)) /\ (\E c \in C : pend[c].op = "tm" /\ pend[c].pc = "done") /\ Arm(i, t)
           \/ \E i \in DOMAIN tm : ~tm[i].sure /\ (\E t \in Times : Le(tm[i].lo, t) /\ Armed(i, t))
           \/ \E i \in DOMAIN tm, t \in Times : (strict => \A j \in DOMAIN tm : Le(t, <<tm[j].hi[1] + 1, 0>>)) /\ FireEv(i, t)
           \/ \E i \in DOMAIN tm : ReadyEv(i, "read") \/ Refused(i)
MCPars == {<<0, 0, 1>>, <<1, 0, 0>>, <<2, 0, 0>>}
MCOps == {<<"tm", 1, 24>>, <<"shutdown", 0, 0>>}
May(c, o) == TRUE
Inv == /\ \A i \in DOMAIN tm : Le(tm[i].lo, tm[i].hi)
       /\ \A c \in C : pend[c].pc # "idle" => pend[c].op \in {"tm", "poll", "wr", "shutdown"}
\* the ordering rule never excludes every continuation
NoStandoff == (DOMAIN tm # {} /\ ~strict) => \E i \in DOMAIN tm : \A j \in DOMAIN tm \ {i} : (tm[i].sure /\ tm[j].sure) => Le(tm[i].lo, tm[j].hi)
=============================================================================
