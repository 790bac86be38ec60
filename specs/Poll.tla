------------------------------ MODULE Poll ------------------------------
(* coro::scheduler::poll.  Per descriptor i in 1..3: kind (0 pipe read end, 1 pipe write end, 2 socket), *)
(* 3 a file that cannot be polled, 4 no descriptor at all. *)
(* data: something to read, full: nothing more can be written, gone/half: the other side has closed / shut down its writing, stopped: *)
(* its stop source was signalled.  A poll is an operation of coroutine i on descriptor i; it ends at a   *)
(* moment at which its outcome is true.  The other operations are the environment's.                     *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, kind, data, full, gone, stopped, half
vars == <<pend, kind, data, full, gone, stopped, half>>
D == 1..3
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Init(par) == /\ pend = [c \in C |-> Idle] /\ kind = [i \in D |-> par[2 + i]]
             /\ data = {} /\ full = {} /\ gone = {} /\ stopped = {} /\ half = {}
Call(c, op, a, b) == /\ pend[c].pc = "idle" /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> "called", res |-> "-", val |-> 0]]
                     /\ UNCHANGED <<kind, data, full, gone, stopped, half>>
Done(c, r) == pend' = [pend EXCEPT ![c].pc = "done", ![c].res = r]
Polls == {"poll", "polls"}
Limit(b) == <<0, 1, 2, 5>>[((b \div 3) % 4) + 1]
AskR(b) == b % 3 # 1
AskW(b) == b % 3 # 0
CanRead(i) == (kind[i] \in {0, 2} /\ i \in data) \/ (kind[i] = 2 /\ i \in gone \cup half)
Unread(i) == kind[i] \in {0, 2} /\ i \in data   \* what the other side wrote before it closed comes first
CanWrite(i) == kind[i] \in {1, 2} /\ (i \notin full \/ (kind[i] = 2 /\ i \in gone))
True(i, op, b, r) == \/ r = "read" /\ AskR(b) /\ CanRead(i)
                     \/ r = "write" /\ AskW(b) /\ CanWrite(i)
                     \/ r \in {"closed", "error"} /\ i \in gone /\ ~(AskR(b) /\ Unread(i))
                     \/ r = "error" /\ kind[i] >= 3
                     \/ r = "cancelled" /\ op = "polls" /\ i \in stopped
                     \/ r = "timeout" /\ Limit(b) > 0
Outcomes == {"read", "write", "closed", "error", "cancelled", "timeout"}
EndPoll(c, r) == /\ pend[c].pc = "called" /\ pend[c].op \in Polls /\ True(pend[c].a, pend[c].op, pend[c].b, r) /\ Done(c, r)
                 /\ UNCHANGED <<kind, data, full, gone, stopped, half>>
Env(c) == /\ pend[c].pc = "called" /\ pend[c].op \notin Polls /\ Done(c, "ok")
          /\ LET i == pend[c].a o == pend[c].op IN
             /\ data' = IF o = "wr" /\ kind[i] \in {0, 2} /\ i \notin gone \cup half THEN data \cup {i} ELSE IF o \in {"rd", "reopen"} THEN data \ {i} ELSE data
             /\ full' = IF o = "fill" /\ kind[i] \in {1, 2} /\ i \notin gone THEN full \cup {i}
                        ELSE IF o = "reopen" \/ (o = "unfill" /\ i \notin gone) THEN full \ {i} ELSE full
             /\ gone' = IF o = "cl" THEN gone \cup {i} ELSE IF o = "reopen" THEN gone \ {i} ELSE gone
             /\ stopped' = IF o = "stop" THEN stopped \cup {i} ELSE IF o = "reopen" THEN stopped \ {i} ELSE stopped
             /\ half' = IF o = "hc" /\ kind[i] = 2 /\ i \notin gone THEN half \cup {i} ELSE IF o = "reopen" THEN half \ {i} ELSE half
          /\ UNCHANGED kind
Silent == \E c \in C : Env(c) \/ \E r \in Outcomes : EndPoll(c, r)
Ret(c, op, res, val, vis) == /\ pend[c].pc = "done" /\ pend[c].op = op /\ res = pend[c].res /\ vis = 1
                             /\ IF op \in Polls THEN (res = "timeout" => val >= Limit(pend[c].b)) ELSE val = 0
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<kind, data, full, gone, stopped, half>>
Other(e) == e[1] = "size" /\ e[2] = Cardinality({c \in C : pend[c].op \in Polls /\ pend[c].pc = "called"}) /\ UNCHANGED vars
\* only polls stay behind, and only without any reason to end
Stuck(c) == /\ pend[c].op \in Polls /\ pend[c].pc = "called"
            /\ LET i == pend[c].a b == pend[c].b IN
               /\ kind[i] < 3 /\ Limit(b) = 0 /\ ~(AskR(b) /\ CanRead(i)) /\ ~(AskW(b) /\ CanWrite(i)) /\ i \notin gone
               /\ ~(pend[c].op = "polls" /\ i \in stopped)
Q(S) == S = {c \in C : pend[c].pc # "idle"} /\ (\A c \in S : Stuck(c)) /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCPars == {<<0, 0, 0, 1, 2>>, <<0, 0, 2, 0, 1>>, <<0, 0, 4, 0, 1>>}
MCOps == {<<"poll", 1, 0>>, <<"poll", 1, 1>>, <<"polls", 1, 5>>, <<"wr", 1, 0>>, <<"rd", 1, 0>>, <<"fill", 1, 0>>, <<"hc", 1, 0>>, <<"cl", 1, 0>>, <<"stop", 1, 0>>, <<"reopen", 1, 0>>}
May(c, o) == /\ o[1] \in Polls => \A d \in C \ {c} : pend[d].pc # "idle" => pend[d].op \notin Polls \cup {"reopen"}
             /\ o[1] = "reopen" => \A d \in C \ {c} : pend[d].pc = "idle"
             /\ \A d \in C : pend[d].op # "reopen"
Inv == /\ data \subseteq {i \in D : kind[i] # 1} /\ full \subseteq {i \in D : kind[i] # 0}
       /\ \A c \in C : pend[c].pc = "called" /\ pend[c].op \in Polls /\ ~Stuck(c) => \E r \in Outcomes : True(pend[c].a, pend[c].op, pend[c].b, r)
\* a poll with a reason to end that stays ends
Ends == \A c \in C : ((pend[c].pc = "called" /\ pend[c].op = "polls" /\ pend[c].a \in stopped) ~> (pend[c].pc # "called" \/ pend[c].a \notin stopped))
=============================================================================
