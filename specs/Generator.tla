------------------------------ MODULE Generator ------------------------------
(* coro::generator in slots.  t[id]: a generator that was made: b its form (number of values, whether it throws   *)
(* at the end, type), seg the parts of its body run so far - part k ends at the yield of value k, the last at the *)
(* end -, ld / pd whether its locals / its frame were released.  run, need: a generator that is to run exactly     *)
(* that many parts now; rel: generators whose frame is to be released now.                                        *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, slot, t, run, need, rel, last
vars == <<pend, slot, t, run, need, rel, last>>
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0, id |-> 0]
Slots == 1..3
Init(par) == pend = [c \in C |-> Idle] /\ slot = [s \in Slots |-> 0] /\ t = [x \in {} |-> 0] /\ run = 0 /\ need = 0 /\ rel = {} /\ last = 0
Values(i) == t[i].b % 8
Throws(i) == (t[i].b \div 8) % 2 = 1
Ran(i) == t[i].seg > Values(i)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
P(op, a, b, res, val, id) == [op |-> op, a |-> a, b |-> b, pc |-> "called", res |-> res, val |-> val, id |-> id]
Busy == \E c \in C : pend[c].pc # "idle"
Least(a, b) == IF a < b THEN a ELSE b
Call(c, op, a, b) ==
    /\ ~Busy
    /\ LET i == slot[a] IN
       CASE op = "make" -> /\ last' = last + 1 /\ t' = Put(t, last + 1, [b |-> b, seg |-> 0, ld |-> FALSE, pd |-> FALSE])
                           /\ slot' = [slot EXCEPT ![a] = last + 1] /\ rel' = (IF i = 0 THEN {} ELSE {i})
                           /\ pend' = [pend EXCEPT ![c] = P(op, a, b, "ok", last + 1, 0)] /\ UNCHANGED <<run, need>>
         [] op = "move" -> /\ slot' = (IF a = b THEN slot ELSE [slot EXCEPT ![b] = i, ![a] = 0]) /\ rel' = (IF a = b \/ slot[b] = 0 THEN {} ELSE {slot[b]})
                           /\ pend' = [pend EXCEPT ![c] = P(op, a, b, "ok", 0, 0)] /\ UNCHANGED <<t, run, need, last>>
         [] op = "self" -> pend' = [pend EXCEPT ![c] = P(op, a, b, "ok", 0, 0)] /\ UNCHANGED <<slot, t, run, need, rel, last>>
         [] op = "drop" -> /\ slot' = [slot EXCEPT ![a] = 0] /\ rel' = (IF i = 0 THEN {} ELSE {i})
                           /\ pend' = [pend EXCEPT ![c] = P(op, a, b, "ok", 0, 0)] /\ UNCHANGED <<t, run, need, last>>
         [] op \in {"begin", "inc", "post", "all"} ->
                           /\ i # 0 /\ run' = i /\ need' = IF op = "all" THEN Least(b + 1, Values(i) + 1) ELSE 1
                           /\ pend' = [pend EXCEPT ![c] = P(op, a, b, "-", 0, i)] /\ UNCHANGED <<slot, t, rel, last>>
         [] op \in {"get", "end"} -> i # 0 /\ pend' = [pend EXCEPT ![c] = P(op, a, b, "-", 0, i)] /\ UNCHANGED <<slot, t, run, need, rel, last>>
Answer(c) == LET p == pend[c] i == p.id IN
    CASE p.op \in {"begin", "inc", "post"} -> IF ~Ran(i) THEN <<"more", 0>> ELSE IF Throws(i) THEN <<"threw", 0>> ELSE <<"end", 0>>
      [] p.op = "end" -> IF Ran(i) THEN <<"end", 0>> ELSE <<"more", 0>>
      [] p.op = "get" -> <<"ok", t[i].seg - 1>>
      [] p.op = "all" -> IF Ran(i) /\ Throws(i) THEN <<"threw", 0>> ELSE <<"ok", Least(p.b + 1, Values(i))>>
      [] OTHER -> <<p.res, p.val>>
Finished(c) == /\ pend[c].pc = "called" /\ need = 0 /\ rel = {} /\ (\A i \in DOMAIN t : Ran(i) => t[i].ld)
               /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = Answer(c)[1], ![c].val = Answer(c)[2]]
               /\ run' = 0 /\ UNCHANGED <<slot, t, need, rel, last>>
Silent == \E c \in C : Finished(c)
Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ res = pend[c].res /\ val = pend[c].val /\ vis = 1
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<slot, t, run, need, rel, last>>
Part(i, k) == /\ run = i /\ need > 0 /\ t[i].seg = k /\ k <= Values(i) /\ need' = need - 1 /\ t' = [t EXCEPT ![i].seg = k + 1] /\ UNCHANGED <<pend, slot, run, rel, last>>
Locals(i) == i \in DOMAIN t /\ ~t[i].ld /\ t[i].seg > 0 /\ (Ran(i) \/ i \in rel) /\ t' = [t EXCEPT ![i].ld = TRUE] /\ UNCHANGED <<pend, slot, run, need, rel, last>>
Frame(i) == i \in rel /\ (t[i].seg > 0 => t[i].ld) /\ rel' = rel \ {i} /\ t' = [t EXCEPT ![i].pd = TRUE] /\ UNCHANGED <<pend, slot, run, need, last>>
\* the end: all slots are let go
EndLocals(i) == ~Busy /\ (\E s \in Slots : slot[s] = i /\ slot' = [slot EXCEPT ![s] = 0]) /\ rel' = {i} /\ t[i].seg > 0 /\ ~t[i].ld /\ t' = [t EXCEPT ![i].ld = TRUE] /\ UNCHANGED <<pend, run, need, last>>
EndFrame(i) == ~Busy /\ i # 0 /\ (\E s \in Slots : slot[s] = i /\ slot' = [slot EXCEPT ![s] = 0]) /\ (t[i].seg > 0 => t[i].ld) /\ t' = [t EXCEPT ![i].pd = TRUE] /\ UNCHANGED <<pend, run, need, rel, last>>
Other(e) == \/ e[1] = "gb" /\ Part(e[2], e[3])
            \/ e[1] = "ld" /\ (Locals(e[2]) \/ (e[2] \in DOMAIN t /\ ~Ran(e[2]) /\ e[2] \notin rel /\ EndLocals(e[2])))
            \/ e[1] = "pd" /\ (Frame(e[2]) \/ (e[2] \notin rel /\ EndFrame(e[2])))
            \/ e[1] = "gone" /\ e[2] = 0 /\ rel = {} /\ (\A i \in DOMAIN t : t[i].pd /\ (t[i].seg > 0 => t[i].ld)) /\ UNCHANGED vars
Q(S) == S = {} /\ ~Busy /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCOther == \E i \in DOMAIN t : Part(i, t[i].seg) \/ Locals(i) \/ Frame(i)
MCPars == {<<0>>}
MCOps == {<<"make", 1, 2>>, <<"make", 2, 8 + 1 + 16>>, <<"make", 1, 0>>, <<"make", 2, 3 + 64 + 128>>, <<"begin", 1, 0>>, <<"begin", 2, 0>>, <<"inc", 1, 0>>, <<"inc", 2, 0>>, <<"post", 1, 0>>, <<"get", 1, 0>>, <<"get", 2, 0>>,
          <<"end", 1, 0>>, <<"end", 2, 0>>, <<"all", 2, 1>>, <<"all", 1, 7>>, <<"move", 1, 2>>, <<"move", 2, 1>>, <<"drop", 1, 0>>, <<"self", 2, 0>>}
May(c, o) == LET i == slot[o[2]] IN
    CASE o[1] \in {"begin", "all"} -> i # 0 /\ t[i].seg = 0
      [] o[1] \in {"inc", "post", "get"} -> i # 0 /\ t[i].seg > 0 /\ ~Ran(i)
      [] o[1] = "end" -> i # 0 /\ t[i].seg > 0
      [] OTHER -> TRUE
Inv == /\ \A i \in DOMAIN t : (t[i].pd => \A s \in Slots : slot[s] # i) /\ t[i].seg <= Values(i) + 1
       /\ \A s \in Slots : \A u \in Slots : slot[s] # 0 /\ slot[s] = slot[u] => s = u
=============================================================================
