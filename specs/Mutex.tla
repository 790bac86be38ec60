------------------------------- MODULE Mutex -------------------------------
(* coro::mutex, as its callers see it.  A coroutine's operation is called, takes effect in one or   *)
(* more silent steps, and returns.  owner is the coroutine that holds the mutex (0: free); parked    *)
(* are the lockers known to be suspended (the system was quiescent while they were pending).         *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANT C                      \* coroutine ids
VARIABLES pend, owner, parked
vars == <<pend, owner, parked>>

Idle == [op |-> "-", a |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Lockers == {"lock", "slock"}
Unlockers == {"unlock", "sunlock", "sdrop", "smove", "stwice", "sassign"}
Waiting == {c \in C : pend[c].pc = "called" /\ pend[c].op \in Lockers}

Init(par) == pend = [c \in C |-> Idle] /\ owner = 0 /\ parked = {}

Call(c, op, a, b) ==
    /\ pend[c].pc = "idle"
    /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, pc |-> "called", res |-> "-", val |-> 0]]
    /\ UNCHANGED <<owner, parked>>

Done(p, c, r) == [p EXCEPT ![c].pc = "done", ![c].res = r]

Lock(c) == /\ pend[c].op \in Lockers /\ owner = 0
           /\ owner' = c /\ pend' = Done(pend, c, "ok") /\ parked' = parked \ {c}
TryLock(c) == /\ pend[c].op = "trylock"
              /\ IF owner = 0 THEN owner' = c /\ pend' = Done(pend, c, "true")
                 ELSE owner' = owner /\ pend' = Done(pend, c, "false")
              /\ UNCHANGED parked
\* the ownership passes to a waiter; it may only become free when nobody is known to be suspended
Unlock(c) == /\ pend[c].op \in Unlockers /\ owner = c
             /\ \/ /\ parked = {} /\ owner' = 0 /\ pend' = Done(pend, c, "ok") /\ UNCHANGED parked
                \/ \E w \in Waiting : /\ owner' = w
                                      /\ pend' = Done(Done(pend, c, "ok"), w, "ok")
                                      /\ parked' = parked \ {w}
SelfMove(c) == /\ pend[c].op = "sself" /\ owner = c
               /\ pend' = Done(pend, c, "ok") /\ UNCHANGED <<owner, parked>>
BadUnlock(c) == /\ pend[c].op = "badunlock" /\ owner = 0
                /\ pend' = Done(pend, c, "exc") /\ UNCHANGED <<owner, parked>>

Step(c) == pend[c].pc = "called" /\ (Lock(c) \/ TryLock(c) \/ Unlock(c) \/ SelfMove(c) \/ BadUnlock(c))
Silent == \E c \in C : Step(c)

Ret(c, op, res, val, vis) ==
    /\ pend[c].pc = "done" /\ pend[c].op = op /\ pend[c].res = res /\ vis = 1
    /\ pend' = [pend EXCEPT ![c] = Idle]
    /\ UNCHANGED <<owner, parked>>

\* nothing can run any more: exactly the lockers of an owned mutex may still be pending
Q(S) == /\ S = Waiting /\ \A c \in C : pend[c].pc # "idle" => c \in S
        /\ S # {} => owner # 0
        /\ parked' = S /\ UNCHANGED <<pend, owner>>
End(why) == why = "ok" /\ UNCHANGED vars
Other(e) == FALSE /\ UNCHANGED vars

\* ---- for exhaustive checking and program generation ------------------------------------------------
MCOps == {<<"lock", 0, 0>>, <<"slock", 0, 0>>, <<"trylock", 0, 0>>, <<"unlock", 0, 0>>, <<"sdrop", 0, 0>>}
Holder == {c \in C : owner = c /\ pend[c].pc = "idle"}
MCPars == {<<>>}
May(c, o) == IF o[1] \in Unlockers THEN c \in Holder ELSE c \notin Holder
MutualExclusion == \A c, d \in C :
    (pend[c].pc = "done" /\ pend[c].res \in {"ok", "true"} /\ pend[c].op \notin (Unlockers \cup {"sself"}) /\ pend[d].pc = "done"
        /\ pend[d].res \in {"ok", "true"} /\ pend[d].op \notin (Unlockers \cup {"sself"})) => c = d
OwnerDone == owner # 0 => pend[owner].pc \in {"idle", "done"} \/ pend[owner].op \in Unlockers
ParkedOwned == parked # {} => owner # 0
Inv == MutualExclusion /\ OwnerDone /\ ParkedOwned
=============================================================================
