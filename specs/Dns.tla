-------------------------------- MODULE Dns --------------------------------
(* coro::net::dns::resolver over a library that resolves names (c-ares).  A lookup asks through a socket of its resolver,     *)
(* perhaps again through another one, until it has an answer.  Sockets: want (what c-ares waits for: <<read, write>>), in     *)
(* (messages that nobody has read), bad (it has an error), nw (to watch it has failed), of (whose it is).  Deeds of c-ares: "gai" a question was put, "join" through this     *)
(* socket, "want" waits for this, "flush" the question was written, "rd" a message was read, "late" patience is over, "ans"    *)
(* the answer.  Deeds of the network: "in", "brk".  ms: how long the socket had been ready, or the patience was over.         *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, want, in, bad, here, exact, limit, nw, of
vars == <<pend, want, in, bad, here, exact, limit, nw, of>>
Socks == 1..120
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0, at |-> 0]
Init(par) == /\ pend = [c \in C |-> Idle] /\ want = [s \in Socks |-> <<0, 0>>] /\ in = [s \in Socks |-> <<>>] /\ bad = {} /\ nw = {} /\ of = [s \in Socks |-> 0]
             /\ here = {1, 2} /\ exact = (par[3] = 1) /\ limit = <<0, 1, 2, 5>>[par[4] + 1]
Call(c, op, a, b) == /\ pend[c].pc = "idle"
                     /\ pend' = [pend EXCEPT ![c] = [Idle EXCEPT !.op = op, !.a = a, !.b = b, !.pc = "called"]]
                     /\ here' = (IF op = "gone" THEN here \ {a} ELSE here)
                     /\ UNCHANGED <<want, in, bad, exact, limit, nw, of>>
\* the library is initialised by the first resolver only
Outcomes(c, op) == IF op = "look" THEN {} ELSE IF op # "bad" \/ pend[c].b = 0 THEN {"ok"} ELSE IF pend[c].b = 1 THEN {"ok", "throws"} ELSE {"throws"}
Finish(c) == /\ pend[c].pc = "called" /\ pend[c].op \in {"gone", "ans", "brk", "nw", "nap", "bad"} /\ "ok" \in Outcomes(c, pend[c].op) /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = "ok"]
             /\ UNCHANGED <<want, in, bad, here, exact, limit, nw, of>>
\* a resolver that cannot have a channel is not made
Refuse(c) == /\ pend[c].pc = "called" /\ pend[c].op = "bad" /\ pend[c].b # 0 /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = "throws"]
             /\ UNCHANGED <<want, in, bad, here, exact, limit, nw, of>>
Silent == \E c \in C : Finish(c) \/ Refuse(c)
\* a lookup ends with the answer c-ares gave for it
Ret(c, op, res, val, vis) == /\ pend[c].op = op /\ vis = 1
                             /\ \/ pend[c].pc = "done" /\ res = pend[c].res /\ val = pend[c].val
                                \/ pend[c].pc = "called" /\ res \in Outcomes(c, op) /\ val = 0
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<want, in, bad, here, exact, limit, nw, of>>
Asking(c) == pend[c].pc = "asked"
Mode(c) == pend[c].b % 8
Gai(c, m) == /\ pend[c].pc = "called" /\ pend[c].op = "look" /\ Mode(c) = m /\ pend' = [pend EXCEPT ![c].pc = "asked"]
             /\ UNCHANGED <<want, in, bad, here, exact, limit, nw, of>>
Join(c, s) == /\ Asking(c) /\ pend' = [pend EXCEPT ![c].at = s] /\ of' = [of EXCEPT ![s] = pend[c].a] /\ UNCHANGED <<want, in, bad, here, exact, limit, nw>>
Want(s, r, w) == /\ want' = [want EXCEPT ![s] = <<r, w>>] /\ in' = (IF r = 0 /\ w = 0 THEN [in EXCEPT ![s] = <<>>] ELSE in)
                 /\ nw' = (IF r = 0 /\ w = 0 THEN nw \ {s} ELSE nw)
                 /\ UNCHANGED <<pend, bad, here, exact, limit, of>>
Unwatched(s) == nw' = nw \cup {s} /\ UNCHANGED <<pend, want, in, bad, here, exact, limit, of>>
Soon(ms) == exact => ms = 0
Flush(s, ms) == want[s][2] = 1 /\ Soon(ms) /\ UNCHANGED vars
Arrives(c, k, n) == /\ Asking(c) /\ pend[c].at # 0 /\ in' = [in EXCEPT ![pend[c].at] = Append(@, <<c, k, n>>)]
                    /\ UNCHANGED <<pend, want, bad, here, exact, limit, nw, of>>
Breaks(s) == /\ bad' = bad \cup {s} /\ UNCHANGED <<pend, want, in, here, exact, limit, nw, of>>
Reads(s, ms, c) == /\ Soon(ms)
                   /\ IF c = 0 THEN s \in bad /\ UNCHANGED in ELSE in[s] # <<>> /\ Head(in[s])[1] = c /\ in' = [in EXCEPT ![s] = Tail(@)]
                   /\ UNCHANGED <<pend, want, bad, here, exact, limit, nw, of>>
\* patience is over: noticed at the next poll that ends, by its timeout at the latest
Late(c, ms) == Asking(c) /\ ((exact /\ limit > 0) => ms <= limit) /\ UNCHANGED vars
\* ok: 1 an answer, 0 c-ares has given up; 2 the resolver called it off: there is a socket that it cannot watch; 3 the resolver goes
Answer(c, ok, n) == /\ Asking(c) /\ (ok # 1 => n = 0) /\ (ok = 2 => \E s \in nw : of[s] = pend[c].a) /\ (ok = 3 => pend[c].a \notin here)
                    /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = IF ok = 1 THEN "complete" ELSE "error", ![c].val = n]
                    /\ UNCHANGED <<want, in, bad, here, exact, limit, nw, of>>
Other(e) == \/ e[1] = "gai" /\ Gai(e[2], e[3])
            \/ e[1] = "join" /\ Join(e[2], e[3])
            \/ e[1] = "want" /\ Want(e[2], e[3], e[4])
            \/ e[1] = "flush" /\ Flush(e[2], e[3])
            \/ e[1] = "in" /\ Arrives(e[2], e[3], e[4])
            \/ e[1] = "nw" /\ Unwatched(e[2])
            \/ e[1] = "brk" /\ Breaks(e[2])
            \/ e[1] = "rd" /\ Reads(e[2], e[3], e[4])
            \/ e[1] = "late" /\ Late(e[2], e[3])
            \/ e[1] = "ans" /\ Answer(e[2], e[3], e[4])
            \/ e[1] = "left" /\ e[2] = 0 /\ UNCHANGED vars
\* only lookups stay behind, and only while nothing has come for them, nothing is to be written and nobody counts the time
Stuck(c) == /\ Asking(c) /\ pend[c].a \in here /\ limit = 0
            /\ LET s == pend[c].at IN s # 0 /\ want[s] = <<1, 0>> /\ in[s] = <<>> /\ s \notin bad \cup nw
Q(S) == S = {c \in C : pend[c].pc # "idle"} /\ (\A c \in S : Stuck(c)) /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCPars == {<<0, 0, 1, 0>>, <<0, 0, 1, 1>>}
MCOps == {<<"look", 1, 0>>, <<"look", 1, 1>>, <<"look", 1, 2>>, <<"look", 2, 0>>, <<"gone", 1, 0>>, <<"ans", 1, 0>>, <<"brk", 1, 0>>, <<"nw", 1, 0>>, <<"bad", 0, 1>>}
May(c, o) == o[1] \in {"look", "gone"} => o[2] \in here
\* the library and the network, for the model checker
Sock(c) == 2 * c
MCOther == \E c \in C :
    \/ Gai(c, Mode(c)) /\ pend[c].op = "look"
    \/ Asking(c) /\ pend[c].at = 0 /\ Mode(c) < 2 /\ pend' = [pend EXCEPT ![c].at = Sock(c)] /\ want' = [want EXCEPT ![Sock(c)] = <<1, Mode(c)>>] /\ UNCHANGED <<in, bad, here, exact, limit, nw, of>>
    \/ Asking(c) /\ pend[c].at # 0 /\ want[Sock(c)] = <<1, 1>> /\ Want(Sock(c), 1, 0)
    \/ Asking(c) /\ pend[c].at # 0 /\ want[Sock(c)] = <<1, 0>> /\ in[Sock(c)] = <<>> /\ Arrives(c, 0, 1)
    \/ Asking(c) /\ pend[c].at # 0 /\ Sock(c) \notin bad /\ Breaks(Sock(c))
    \/ \E n \in 0..1 : /\ Asking(c) /\ (pend[c].at # 0 \/ Mode(c) >= 2 \/ pend[c].a \notin here)
                       /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = IF n = 1 THEN "complete" ELSE "error", ![c].val = n]
                       /\ (n = 1 /\ Mode(c) < 2 => in[Sock(c)] # <<>>)
                       /\ (n = 0 /\ Mode(c) < 2 => (Sock(c) \in bad \/ limit > 0 \/ pend[c].a \notin here))
                       /\ in' = [in EXCEPT ![Sock(c)] = <<>>] /\ want' = [want EXCEPT ![Sock(c)] = <<0, 0>>] /\ bad' = bad \ {Sock(c)} /\ UNCHANGED <<here, exact, limit, nw, of>>
Inv == \A c \in C : /\ pend[c].val > 0 => pend[c].pc = "done"
                    /\ (Asking(c) /\ Stuck(c)) => ~(limit > 0)
=============================================================================
