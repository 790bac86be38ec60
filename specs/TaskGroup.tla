----------------------------- MODULE TaskGroup -----------------------------
(* coro::task_group and spawn_joinable.  acc: tasks accepted and not begun; run: begun; fin: finished  *)
(* but still counted; counting: start() calls not decided yet; ref: the executor refuses; joined tasks *)
(* (spawn_joinable) form groups of their own: jt is the set of those.  nst: tasks being started by      *)
(* tasks of the group (the group cannot become empty meanwhile).                                       *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, acc, run, fin, jt, ref, nst
vars == <<pend, acc, run, fin, jt, ref, nst>>
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Init(par) == pend = [c \in C |-> Idle] /\ acc = {} /\ run = {} /\ fin = {} /\ jt = {} /\ ref = FALSE /\ nst = {}
Call(c, op, a, b) == /\ pend[c].pc = "idle" /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> "called", res |-> "-", val |-> 0]]
                     /\ UNCHANGED <<acc, run, fin, jt, ref, nst>>
Is(c, op, pc) == pend[c].op = op /\ pend[c].pc = pc
Done(p, c, r, v) == [p EXCEPT ![c].pc = "done", ![c].res = r, ![c].val = v]
R == (acc \cup run \cup fin) \ jt
\* start() calls that may be counted although they have not been decided
Starting == {c \in C : Is(c, "start", "called")}
Release(p) == [d \in C |-> IF p[d].op = "wait" /\ p[d].pc = "waiting" THEN [p[d] EXCEPT !.pc = "done", !.res = "ok"] ELSE p[d]]
Start(c) == /\ Is(c, "start", "called")
            /\ IF ref THEN /\ (\/ pend' = Done(pend, c, "refused", 0)
                               \/ R = {} /\ pend' = Release(Done(pend, c, "refused", 0)))
                           /\ (R = {} /\ Starting = {c} => pend' = Release(Done(pend, c, "refused", 0)))
                           /\ UNCHANGED acc
               ELSE pend' = Done(pend, c, "ok", 1) /\ acc' = acc \cup {pend[c].a}
            /\ UNCHANGED <<run, fin, jt, ref, nst>>
Wait(c) == /\ Is(c, "wait", "called")
           /\ \/ R = {} /\ pend' = Done(pend, c, "ok", 0)
              \/ (R # {} \/ Starting # {}) /\ pend' = [pend EXCEPT ![c].pc = "waiting"]
           /\ UNCHANGED <<acc, run, fin, jt, ref, nst>>
\* the task is not counted anymore; the last one releases everybody who waits
Dec(i) == /\ i \in fin /\ fin' = fin \ {i}
          /\ IF i \in jt THEN /\ pend' = [c \in C |-> IF pend[c].op \in {"join", "jdrop"} /\ pend[c].a = i /\ pend[c].pc = "joining" THEN Done(pend, c, "ok", 1)[c] ELSE pend[c]]
                              /\ jt' = jt \ {i}
             ELSE /\ jt' = jt
                  /\ IF R = {i} THEN pend' = Release(pend) \/ (Starting # {} /\ pend' = pend) ELSE pend' = pend
          /\ UNCHANGED <<acc, run, ref, nst>>
Join(c) == /\ pend[c].op \in {"join", "jdrop"} /\ pend[c].pc = "called"
           /\ IF ref THEN pend' = Done(pend, c, "ok", 0) /\ UNCHANGED <<acc, jt>>
              ELSE pend' = [pend EXCEPT ![c].pc = "joining"] /\ acc' = acc \cup {pend[c].a} /\ jt' = jt \cup {pend[c].a}
           /\ UNCHANGED <<run, fin, ref, nst>>
Refuse(c) == Is(c, "refuse", "called") /\ ref' = TRUE /\ pend' = Done(pend, c, "ok", 0) /\ UNCHANGED <<acc, run, fin, jt, nst>>
Size(c) == /\ Is(c, "size", "called") /\ \E k \in Cardinality(R \ nst)..(Cardinality(R) + Cardinality(Starting)) : pend' = Done(pend, c, "ok", k)
           /\ UNCHANGED <<acc, run, fin, jt, ref, nst>>
Silent == (\E i \in fin : Dec(i)) \/ \E c \in C : Start(c) \/ Wait(c) \/ Join(c) \/ Refuse(c) \/ Size(c)
Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ res = pend[c].res /\ val = pend[c].val /\ vis = 1
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<acc, run, fin, jt, ref, nst>>
StartEv(i) == i \in acc /\ acc' = acc \ {i} /\ run' = run \cup {i} /\ UNCHANGED <<pend, fin, jt, ref, nst>>
FinEv(i) == i \in run /\ (i + 1) \notin nst /\ run' = run \ {i} /\ fin' = fin \cup {i} /\ UNCHANGED <<pend, acc, jt, ref, nst>>
NestEv(i) == acc' = acc \cup {i} /\ nst' = nst \cup {i} /\ UNCHANGED <<pend, run, fin, jt, ref>>
NokEv(i) == i \in nst /\ nst' = nst \ {i} /\ UNCHANGED <<pend, acc, run, fin, jt, ref>>
NrefEv(i) == i \in nst \cap acc /\ ref /\ nst' = nst \ {i} /\ acc' = acc \ {i} /\ UNCHANGED <<pend, run, fin, jt, ref>>
Other(e) == \/ e[1] = "nest" /\ run \ jt # {} /\ NestEv(e[2])
            \/ e[1] = "nok" /\ NokEv(e[2])
            \/ e[1] = "nref" /\ NrefEv(e[2])
            \/ e[1] = "start" /\ e[3] = 1 /\ StartEv(e[2])
            \/ e[1] = "fin" /\ FinEv(e[2])
            \/ e[1] = "null" /\ e[2] = 4 /\ UNCHANGED vars   \* no group without an executor
            \/ e[1] = "size" /\ R = {} /\ e[2] = 0 /\ UNCHANGED vars
            \* the group is gone, and the frames of all tasks, e[2] counts what is left
            \/ e[1] = "gone" /\ acc \cup run = {} /\ e[2] = 0 /\ e[3] = 1 /\ UNCHANGED vars
Q(S) == S = {c \in C : pend[c].pc # "idle"} /\ S = {} /\ acc \cup run \cup fin = {} /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCOther == (\E i \in run \ jt : Cardinality(C) > 2 /\ ~ref /\ i = 10 /\ (i + 1) \notin (acc \cup run \cup fin) /\ NestEv(i + 1)) \/ (\E i \in nst : NokEv(i) \/ NrefEv(i)) \/ (\E i \in acc : StartEv(i)) \/ (\E i \in run : FinEv(i))
MCPars == {<<1, 0, 0>>}
MCOps == {<<"start", 10, 0>>, <<"start", 20, 0>>, <<"start", 30, 0>>, <<"wait", 0, 0>>, <<"join", 40, 0>>, <<"jdrop", 50, 0>>, <<"refuse", 0, 0>>, <<"size", 0, 0>>}
May(c, o) == o[1] \in {"start", "join", "jdrop"} => o[2] \notin (acc \cup run \cup fin \cup {pend[d].a : d \in C})
Inv == /\ acc \cap run = {} /\ (acc \cup run) \cap fin = {}
       /\ (R = {} /\ Starting = {}) => \A c \in C : ~Is(c, "wait", "waiting")
Joined == \A c \in C : Is(c, "wait", "waiting") ~> ~Is(c, "wait", "waiting")
=============================================================================
