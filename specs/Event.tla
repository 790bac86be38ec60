------------------------------- MODULE Event -------------------------------
(* coro::event.  queue: suspended awaiters in the order they enqueued; cur: id of the set() that     *)
(* made the event set; batches: per set(), the awaiters it released and still to be resumed, in the  *)
(* order asked for (only kept when one thread resumes them, ordered = 1).                             *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, isset, cur, queue, batches, ordered
vars == <<pend, isset, cur, queue, batches, ordered>>
NONE == 30
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
\* par = <<initially set, workers of the executor>>
Init(par) == /\ pend = [c \in C |-> Idle] /\ isset = (par[1] = 1) /\ cur = NONE
             /\ queue = <<>> /\ batches = {} /\ ordered = par[2]
Call(c, op, a, b) ==
    /\ pend[c].pc = "idle"
    /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> "called", res |-> "-", val |-> 0]]
    /\ UNCHANGED <<isset, cur, queue, batches, ordered>>
Done(p, c, r, v) == [p EXCEPT ![c].pc = "done", ![c].res = r, ![c].val = v]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Elems(s) == {s[i] : i \in 1..Len(s)}

\* val of a finished wait: the id of the set() whose effects must be visible
Wait(c) == /\ pend[c].op = "wait"
           /\ IF isset THEN pend' = Done(pend, c, "ok", cur) /\ UNCHANGED queue
              ELSE pend' = [pend EXCEPT ![c].pc = "queued"] /\ queue' = Append(queue, c)
           /\ UNCHANGED <<isset, cur, batches, ordered>>
Set(c) == LET id == pend[c].b \div 2
              ex == pend[c].b % 2
              l == IF pend[c].a = 1 THEN queue ELSE Rev(queue)
          IN /\ pend[c].op = "set"
             /\ IF isset THEN pend' = Done(pend, c, "ok", 0) /\ UNCHANGED <<isset, cur, queue, batches>>
                ELSE /\ isset' = TRUE /\ cur' = id /\ queue' = <<>>
                     /\ pend' = [d \in C |-> IF d = c THEN Done(pend, c, "ok", 0)[c]
                                             ELSE IF d \in Elems(queue) THEN Done(pend, d, "ok", id)[d] ELSE pend[d]]
                     /\ batches' = IF Len(l) > 1 /\ (ex = 0 \/ ordered = 1) THEN batches \cup {l} ELSE batches
             /\ UNCHANGED ordered
Reset(c) == /\ pend[c].op = "reset" /\ isset' = FALSE /\ cur' = (IF isset THEN NONE ELSE cur)
            /\ pend' = Done(pend, c, "ok", 0) /\ UNCHANGED <<queue, batches, ordered>>
IsSet(c) == /\ pend[c].op = "isset" /\ pend' = Done(pend, c, IF isset THEN "true" ELSE "false", 0)
            /\ UNCHANGED <<isset, cur, queue, batches, ordered>>
\* the executor refuses everything from now on: those it was to resume are resumed by set() itself
Close(c) == /\ pend[c].op = "close" /\ batches' = {} /\ pend' = Done(pend, c, "ok", 0) /\ UNCHANGED <<isset, cur, queue, ordered>>
Step(c) == pend[c].pc = "called" /\ (Close(c) \/ Wait(c) \/ Set(c) \/ Reset(c) \/ IsSet(c))
Silent == \E c \in C : Step(c)

Has(mask, id) == id = NONE \/ (mask \div (2 ^ id)) % 2 = 1
Ret(c, op, res, val, vis) ==
    /\ pend[c].pc = "done" /\ pend[c].op = op /\ pend[c].res = res /\ vis = 1
    /\ op = "wait" => Has(val, pend[c].val)
    \* awaiters of one set() resume in the order asked for
    /\ \A s \in batches : c \in Elems(s) => Head(s) = c
    /\ batches' = {IF c \in Elems(s) THEN Tail(s) ELSE s : s \in batches} \ {<<>>}
    /\ pend' = [pend EXCEPT ![c] = Idle]
    /\ UNCHANGED <<isset, cur, queue, ordered>>
Q(S) == /\ S = {c \in C : pend[c].pc # "idle"} /\ S = Elems(queue) /\ (S # {} => ~isset)
        /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars
Other(e) == FALSE /\ UNCHANGED vars

\* ---- exhaustive checking and program generation ----------------------------------------------------
MCPars == {<<0, 1>>, <<1, 1>>}
MCOps == {<<"wait", 0, 0>>, <<"reset", 0, 0>>, <<"isset", 0, 0>>, <<"set", 0, 0>>, <<"set", 1, 1>>, <<"close", 0, 0>>}
May(c, o) == TRUE
NoWaiterWhileSet == isset => queue = <<>>
OnceQueued == \A i, j \in 1..Len(queue) : queue[i] = queue[j] => i = j
QueuedPending == \A c \in C : (pend[c].pc = "queued") <=> (c \in Elems(queue))
ResumedOnlySet == \A c \in C : (pend[c].pc = "done" /\ pend[c].op = "wait") => pend[c].res = "ok"
Inv == NoWaiterWhileSet /\ OnceQueued /\ QueuedPending /\ ResumedOnlySet
=============================================================================
