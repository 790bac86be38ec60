-------------------------------- MODULE Task --------------------------------
(* coro::task in slots.  t[id]: a task that was made: b its form (pauses, whether it throws, type, depth of     *)
(* the chain of awaits), seg the parts of its body run so far, up the levels of the chain that have resumed,     *)
(* ld / pd whether its locals / its frame were released, inv whether coro::invoke() made it.  run: a task that is to run a part now, exactly one;    *)
(* rel: tasks whose frame is to be released now.                                                               *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANTS C, Made   \* Made: the ways tasks are made in this world
VARIABLES pend, slot, t, run, rel, last
vars == <<pend, slot, t, run, rel, last>>
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0, id |-> 0]
Slots == 1..3
Init(par) == pend = [c \in C |-> Idle] /\ slot = [s \in Slots |-> 0] /\ t = [x \in {} |-> 0] /\ run = 0 /\ rel = {} /\ last = 0
Pauses(b) == b % 4
Throws(b) == (b \div 4) % 2 = 1
IsVoid(b) == (b \div 8) % 4 = 1
Depth(b) == <<0, 1, 2, 3, 5, 12, 40, 7>>[((b \div 32) % 8) + 1]
\* the parts of the body have run, and so have the levels above it
Ran(i) == t[i].seg > Pauses(t[i].b)
Complete(i) == Ran(i) /\ (Throws(t[i].b) \/ t[i].up = Depth(t[i].b)) /\ t[i].ld
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
P(op, a, b, res, val, id) == [op |-> op, a |-> a, b |-> b, pc |-> "called", res |-> res, val |-> val, id |-> id]
Bool(x) == IF x THEN "true" ELSE "false"
\* no part is half done: nothing else than awaits is in progress
Quiet == run = 0 /\ rel = {} /\ (\A i \in DOMAIN t : Ran(i) => Complete(i)) /\ \A c \in C : pend[c].pc = "idle" \/ pend[c].op = "await"
\* coro::invoke() calls the functor at once, its task runs like any other; the functor that throws ("refuse")
\* leaves a task that is complete with the exception
Makers == {"make", "invoke", "refuse"}
New(op, b) == [b |-> b, seg |-> IF op = "refuse" THEN Pauses(b) + 1 ELSE 0, up |-> 0, ld |-> op = "refuse", pd |-> FALSE, inv |-> op # "make"]
Call(c, op, a, b) ==
    /\ pend[c].pc = "idle" /\ Quiet /\ (op = "refuse" => Throws(b)) /\ (op \in Makers => op \in Made)
    /\ LET i == slot[a] IN
       CASE op \in Makers -> /\ last' = last + 1 /\ t' = Put(t, last + 1, New(op, b))
                           /\ slot' = [slot EXCEPT ![a] = last + 1] /\ rel' = (IF i = 0 THEN {} ELSE {i}) /\ run' = 0
                           /\ pend' = [pend EXCEPT ![c] = P(op, a, b, "ok", last + 1, 0)]
         [] op = "move" -> /\ slot' = (IF a = b THEN slot ELSE [slot EXCEPT ![b] = i, ![a] = 0]) /\ rel' = (IF a = b \/ slot[b] = 0 THEN {} ELSE {slot[b]})
                           /\ pend' = [pend EXCEPT ![c] = P(op, a, b, "ok", 0, 0)] /\ UNCHANGED <<t, run, last>>
         [] op = "self" -> pend' = [pend EXCEPT ![c] = P(op, a, b, "ok", 0, 0)] /\ UNCHANGED <<slot, t, run, rel, last>>
         [] op = "destroy" -> /\ slot' = [slot EXCEPT ![a] = 0] /\ rel' = (IF i = 0 THEN {} ELSE {i})
                              /\ pend' = [pend EXCEPT ![c] = P(op, a, b, Bool(i # 0), 0, 0)] /\ UNCHANGED <<t, run, last>>
         [] op = "ready" -> pend' = [pend EXCEPT ![c] = P(op, a, b, Bool(i = 0 \/ Complete(i)), 0, 0)] /\ UNCHANGED <<slot, t, run, rel, last>>
         [] op = "resume" -> /\ i # 0 /\ run' = (IF Complete(i) THEN 0 ELSE i) /\ pend' = [pend EXCEPT ![c] = P(op, a, b, "run", 0, i)] /\ UNCHANGED <<slot, t, rel, last>>
         [] op = "step" -> /\ i # 0 /\ ~Complete(i) /\ t[i].seg > 0 /\ run' = i /\ pend' = [pend EXCEPT ![c] = P(op, a, b, "run", 0, i)] /\ UNCHANGED <<slot, t, rel, last>>
         [] op = "await" -> /\ i # 0 /\ run' = (IF Complete(i) THEN 0 ELSE i) /\ pend' = [pend EXCEPT ![c] = P(op, a, b, "wait", 0, i)] /\ UNCHANGED <<slot, t, rel, last>>
         [] op = "result" -> /\ i # 0 /\ pend' = [pend EXCEPT ![c] = P(op, a, b, "wait", 0, i)] /\ UNCHANGED <<slot, t, run, rel, last>>
Outcome(i) == IF Throws(t[i].b) THEN <<"threw", i>> ELSE <<"ok", i>>
\* what an operation returns, once it may
Answer(c) == LET p == pend[c] IN
    CASE p.op = "resume" -> <<Bool(~Complete(p.id)), 0>>
      [] p.op = "step" -> <<"ok", 0>>
      [] p.op = "await" -> Outcome(p.id)
      [] p.op = "result" -> IF Complete(p.id) THEN Outcome(p.id) ELSE IF IsVoid(t[p.id].b) THEN <<"ok", p.id>> ELSE <<"unset", 0>>
      [] OTHER -> <<p.res, p.val>>
Finished(c) == /\ pend[c].pc = "called" /\ run = 0 /\ rel = {}
               \* a part that has run the body to its end has gone up the chain and has resumed the awaiter
               /\ pend[c].op \in {"resume", "step"} => (Ran(pend[c].id) => Complete(pend[c].id)) /\ \A d \in C : ~(pend[d].op = "await" /\ pend[d].id = pend[c].id /\ Complete(pend[c].id))
               /\ pend[c].op = "await" => Complete(pend[c].id)
               /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = Answer(c)[1], ![c].val = Answer(c)[2]]
               /\ UNCHANGED <<slot, t, run, rel, last>>
Silent == \E c \in C : Finished(c)
Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ res = pend[c].res /\ val = pend[c].val /\ vis = 1
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<slot, t, run, rel, last>>
Part(i, k) == run = i /\ t[i].seg = k /\ k <= Pauses(t[i].b) /\ run' = 0 /\ t' = [t EXCEPT ![i].seg = k + 1] /\ UNCHANGED <<pend, slot, rel, last>>
Up(i, k) == i \in DOMAIN t /\ Ran(i) /\ ~Throws(t[i].b) /\ t[i].up = k - 1 /\ k <= Depth(t[i].b) /\ ~t[i].ld /\ t' = [t EXCEPT ![i].up = k] /\ UNCHANGED <<pend, slot, run, rel, last>>
\* locals go when the body ends or with the frame; the frame goes when its owner lets go of it
Locals(i) == /\ i \in DOMAIN t /\ ~t[i].ld /\ t[i].seg > 0 /\ ((Ran(i) /\ (Throws(t[i].b) \/ t[i].up = Depth(t[i].b))) \/ i \in rel)
             /\ t' = [t EXCEPT ![i].ld = TRUE] /\ UNCHANGED <<pend, slot, run, rel, last>>
Frame(i) == /\ i \in rel /\ (t[i].seg > 0 => t[i].ld) /\ rel' = rel \ {i} /\ t' = [t EXCEPT ![i].pd = TRUE] /\ UNCHANGED <<pend, slot, run, last>>
\* the end: all slots are let go, in any order
EndRel(i) == Quiet /\ \E s \in Slots : slot[s] = i /\ i # 0 /\ slot' = [slot EXCEPT ![s] = 0] /\ rel' = {i} /\ UNCHANGED <<pend, t, run, last>>
EndLocals(i) == \E s \in Slots : slot[s] = i /\ t[i].seg > 0 /\ ~t[i].ld /\ slot' = [slot EXCEPT ![s] = 0] /\ rel' = {i} /\ t' = [t EXCEPT ![i].ld = TRUE] /\ UNCHANGED <<pend, run, last>>
EndFrame(i) == \E s \in Slots : slot[s] = i /\ (t[i].seg > 0 => t[i].ld) /\ slot' = [slot EXCEPT ![s] = 0] /\ t' = [t EXCEPT ![i].pd = TRUE] /\ UNCHANGED <<pend, run, rel, last>>
NoOps == run = 0 /\ \A c \in C : pend[c].pc = "idle" \/ pend[c].op = "await"
Other(e) == \/ e[1] = "tb" /\ Part(e[2], e[3])
            \/ e[1] = "up" /\ Up(e[2], e[3])
            \/ e[1] = "ld" /\ (Locals(e[2]) \/ (NoOps /\ e[2] \in DOMAIN t /\ ~Ran(e[2]) /\ e[2] \notin rel /\ EndLocals(e[2])))
            \/ e[1] = "pd" /\ (Frame(e[2]) \/ (NoOps /\ e[2] \notin rel /\ e[2] # 0 /\ EndFrame(e[2])))
            \/ e[1] = "gone" /\ e[2] = 0 /\ rel = {} /\ (\A i \in DOMAIN t : t[i].pd /\ (t[i].seg > 0 => t[i].ld)) /\ UNCHANGED vars
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"} /\ Quiet /\ \A c \in S : pend[c].pc = "called" /\ pend[c].op = "await" /\ ~Complete(pend[c].id)
        /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCOther == \E i \in DOMAIN t : Part(i, t[i].seg) \/ Up(i, t[i].up + 1) \/ Locals(i) \/ Frame(i)
MCPars == {<<0>>}
AllOps == {<<"make", 1, 1>>, <<"make", 2, 4 + 32>>, <<"make", 1, 2 + 8>>, <<"make", 2, 16>>, <<"move", 1, 2>>, <<"destroy", 2, 0>>, <<"await", 1, 0>>, <<"await", 2, 0>>, <<"invoke", 1, 1 + 16>>, <<"refuse", 2, 4>>, <<"resume", 1, 0>>, <<"resume", 2, 0>>,
          <<"step", 1, 0>>, <<"step", 2, 0>>, <<"result", 1, 0>>, <<"ready", 2, 0>>}
MCOps == {o \in AllOps : o[1] \in Makers => o[1] \in Made}
Awaited(i) == i # 0 /\ ~Complete(i) /\ \E c \in C : pend[c].op = "await" /\ pend[c].id = i
May(c, o) == /\ Quiet /\ \A d \in C : pend[d].pc = "called" => (pend[d].op = "await" /\ ~Complete(pend[d].id))
             /\ LET i == slot[o[2]] IN
                CASE o[1] \in Makers \cup {"destroy"} -> ~Awaited(i)
                  [] o[1] = "move" -> ~Awaited(slot[o[3]])
                  [] o[1] = "step" -> i # 0 /\ ~Complete(i) /\ t[i].seg > 0
                  [] o[1] \in {"resume", "await"} -> i # 0 /\ (o[1] = "await" => ~Awaited(i)) /\ (~Complete(i) /\ t[i].seg > 0 => (Depth(t[i].b) = 0 /\ ~t[i].inv))
                  [] o[1] = "result" -> i # 0
                  [] OTHER -> TRUE
Inv == /\ \A i \in DOMAIN t : t[i].pd => \A s \in Slots : slot[s] # i
       /\ \A s \in Slots : \A u \in Slots : slot[s] # 0 /\ slot[s] = slot[u] => s = u
       /\ \A i \in DOMAIN t : t[i].seg <= Pauses(t[i].b) + 1 /\ t[i].up <= Depth(t[i].b)
=============================================================================
