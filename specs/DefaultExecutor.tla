-------------------------- MODULE DefaultExecutor --------------------------
(* coro::default_executor.  For each kind (0 thread pool, 1 scheduler): opt, the options set last; inst: 0 nothing  *)
(* exists, -1 somebody (by[k]) is creating, n > 0: there is the instance with n threads.                           *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, opt, inst, by
vars == <<pend, opt, inst, by>>
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Kinds == {0, 1}
Init(par) == pend = [c \in C |-> Idle] /\ opt = [k \in Kinds |-> par[k + 1]] /\ inst = [k \in Kinds |-> 0] /\ by = [k \in Kinds |-> 0]
Call(c, op, a, b) == /\ pend[c].pc = "idle"
                     /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> IF op = "opt" THEN "done" ELSE "called", res |-> IF op = "opt" THEN "ok" ELSE "-", val |-> 0]]
                     /\ opt' = IF op = "opt" THEN [opt EXCEPT ![a] = b] ELSE opt
                     /\ UNCHANGED <<inst, by>>
Uses(c) == pend[c].op \in {"get", "work"}
Start(c) == /\ pend[c].pc = "called" /\ Uses(c) /\ inst[pend[c].a] = 0
            /\ inst' = [inst EXCEPT ![pend[c].a] = -1] /\ by' = [by EXCEPT ![pend[c].a] = c] /\ UNCHANGED <<pend, opt>>
Create(c) == /\ pend[c].pc = "called" /\ Uses(c) /\ inst[pend[c].a] = -1 /\ by[pend[c].a] = c
             /\ inst' = [inst EXCEPT ![pend[c].a] = opt[pend[c].a]] /\ UNCHANGED <<pend, opt, by>>
Serve(c) == /\ pend[c].pc = "called" /\ Uses(c) /\ inst[pend[c].a] > 0
            /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = "ok", ![c].val = 100 + (IF pend[c].op = "work" THEN inst[pend[c].a] ELSE 0)]
            /\ UNCHANGED <<opt, inst, by>>
Silent == \E c \in C : Start(c) \/ Create(c) \/ Serve(c)
Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ res = pend[c].res /\ val = pend[c].val /\ vis = 1
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<opt, inst, by>>
\* only the threads of the one instance exist
Other(e) == \/ e[1] = "threads" /\ (\A k \in Kinds : e[k + 2] = (IF inst[k] > 0 THEN inst[k] ELSE 0)) /\ UNCHANGED vars
            \/ e[1] = "gone" /\ UNCHANGED vars
Q(S) == S = {} /\ (\A c \in C : pend[c].pc = "idle") /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCPars == {<<1, 2>>}
MCOps == {<<"get", 0, 0>>, <<"work", 0, 0>>, <<"get", 1, 1>>, <<"work", 1, 0>>, <<"opt", 0, 3>>}
May(c, o) == o[1] = "opt" => \A d \in C : pend[d].pc = "idle"
Inv == /\ \A c \in C : pend[c].pc = "done" /\ Uses(c) => inst[pend[c].a] > 0
Once == [][\A k \in Kinds : inst[k] > 0 => inst'[k] = inst[k]]_vars
Served == \A c \in C : pend[c].pc = "called" ~> pend[c].pc = "done"
=============================================================================
