------------------------------ MODULE Timed ------------------------------
(* coro::scheduler::schedule(task, timeout).  run: the tasks that have begun and not finished; fin: the   *)
(* finished ones, each with the time (us after the call) and in the order they finished; who is late is   *)
(* decided by fin and the limit.  strict: time moves only while the system is idle.  open: the gate that   *)
(* some tasks wait at.  The operations are "ts": a = task id, b = limit, kind of task, stop source.        *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, strict, run, fin, open
vars == <<pend, strict, run, fin, open>>
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Init(par) == pend = [c \in C |-> Idle] /\ strict = (par[3] = 1) /\ run = {} /\ fin = [i \in {} |-> 0] /\ open = FALSE
Lim(b) == <<0, 0, 500, 1000, 1900, 2000, 5000, 20000>>[(b % 8) + 1]
Source(b) == (b \div 960) % 2 = 1
Throws(i) == (i \div 2) % 5 = 0
Slack == 1000
Call(c, op, a, b) == /\ pend[c].pc = "idle" /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> "called", res |-> "-", val |-> 0]]
                     /\ UNCHANGED <<strict, run, fin, open>>
\* the outcome is the task's own if it finished, unless it finished when its time was over
Outcome(c) == /\ pend[c].pc = "called" /\ pend[c].op = "ts"
              /\ LET i == pend[c].a l == Lim(pend[c].b) IN
                 \/ /\ i \in DOMAIN fin /\ (strict /\ l > 0 => fin[i] <= l + Slack)
                    /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = IF Throws(i) THEN "threw" ELSE "ok", ![c].val = IF Throws(i) THEN 0 ELSE 3 * i]
                 \/ /\ l > 0 /\ (i \in DOMAIN fin => (~strict \/ fin[i] >= l)) /\ i \in run \cup DOMAIN fin
                    /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = "timeout"]
              /\ UNCHANGED <<strict, run, fin, open>>
Go(c) == pend[c].pc = "called" /\ pend[c].op = "go" /\ open' = TRUE /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = "ok"] /\ UNCHANGED <<strict, run, fin>>
Silent == \E c \in C : Outcome(c) \/ Go(c)
Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ res = pend[c].res /\ vis = 1
                             /\ IF res = "timeout" THEN val >= Lim(pend[c].b) /\ (strict => val <= Lim(pend[c].b) + Slack) ELSE val = pend[c].val
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<strict, run, fin, open>>
Begin(i) == /\ i \notin run \cup DOMAIN fin /\ (\E c \in C : pend[c].op = "ts" /\ pend[c].a = i /\ pend[c].pc = "called") /\ run' = run \cup {i}
            /\ UNCHANGED <<pend, strict, fin, open>>
\* a stop is requested only of a task that is timed out
FinEv(i, stopped, t) == /\ i \in run /\ run' = run \ {i}
                        /\ stopped = 1 => \A c \in C : (pend[c].op = "ts" /\ pend[c].a = i) => (Source(pend[c].b) /\ Lim(pend[c].b) > 0 /\ t >= Lim(pend[c].b))
                        /\ fin' = [j \in DOMAIN fin \cup {i} |-> IF j = i THEN t ELSE fin[j]] /\ UNCHANGED <<pend, strict, open>>
Other(e) == \/ e[1] = "begin" /\ Begin(e[2])
            \/ e[1] = "fin" /\ FinEv(e[2], e[3], e[4])
            \/ e[1] = "gone" /\ e[2] = 0 /\ run = {} /\ UNCHANGED vars
\* who waits, waits for a running task without a limit
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"} /\ \A c \in S : pend[c].op = "ts" /\ pend[c].pc = "called" /\ pend[c].a \in run /\ Lim(pend[c].b) = 0
        /\ (open => run = {}) /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCOther == \E i \in {pend[c].a : c \in C} : Begin(i) \/ \E t \in {0, 500, 501, 1500, 3000}, st \in {0, 1} : FinEv(i, st, t)
MCPars == {<<0, 0, 0>>, <<0, 0, 1>>}
MCOps == {<<"ts", 2, 0>>, <<"ts", 4, 2>>, <<"ts", 10, 962>>, <<"ts", 12, 963>>, <<"go", 0, 0>>}
May(c, o) == o[1] = "ts" => o[2] \notin run \cup DOMAIN fin \cup {pend[d].a : d \in {x \in C : pend[x].pc # "idle"}}
Inv == /\ run \cap DOMAIN fin = {}
       /\ \A c \in C : (pend[c].pc = "done" /\ pend[c].op = "ts" /\ pend[c].res # "timeout") => pend[c].a \in DOMAIN fin
       /\ \A c \in C : (pend[c].pc = "called" /\ pend[c].op = "ts" /\ pend[c].a \in DOMAIN fin) => ENABLED Outcome(c)
\* a limited one always ends
Bounded == \A c \in C : (pend[c].pc = "called" /\ pend[c].op = "ts" /\ Lim(pend[c].b) > 0 /\ pend[c].a \in run) ~> pend[c].pc # "called"
=============================================================================
