-------------------------------- MODULE Tcp --------------------------------
(* coro::net::tcp.  Connections 1..3 of one server; endpoint 2k is the connecting client of connection k, 2k+1   *)
(* the accepted one.  The kernel's own deeds are events: "trying", "up", "refused", "accepted", "tx" (bytes of e *)
(* taken into the stream), "rx" (bytes given to e, 0 = the end), "err", "shut", "gone", "down" (listener).       *)
(* armed: failures the program asked the kernel for, as (endpoint, 0 recv 1 send 2 connect 3 accept, error).     *)
(* An operation ends with an account of exactly the kernel's deeds in it and a reason that is true.              *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, st, acc, sent, got, fin, gone, torn, told, down, exact, armed
vars == <<pend, st, acc, sent, got, fin, gone, torn, told, down, exact, armed>>
Conns == 1..3
Points == 2..7
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0, n |-> 0, eof |-> FALSE, err |-> 0, hit |-> 0, ms |-> 0, code |-> 0]
Errs == <<104, 111, 110, 32, 90, 12, 101, 4>>
Init(par) == /\ pend = [c \in C |-> Idle] /\ st = [k \in Conns |-> "none"] /\ acc = {} /\ sent = [e \in Points |-> 0] /\ got = [e \in Points |-> 0]
             /\ fin = {} /\ gone = {} /\ torn = {} /\ told = [k \in Conns |-> "-"] /\ down = FALSE /\ exact = (par[3] = 1) /\ armed = {}
kernel == <<st, acc, sent, got, fin, gone, torn, down, exact, armed>>
Call(c, op, a, b) == /\ pend[c].pc = "idle"
                     /\ pend' = [pend EXCEPT ![c] = [Idle EXCEPT !.op = op, !.a = a, !.b = b, !.pc = "called"]]
                     /\ down' = (down \/ op = "down") /\ armed' = (IF op = "flt" THEN armed \cup {<<a, (b \div 8) % 4, Errs[(b % 8) + 1]>>} ELSE armed)
                     /\ UNCHANGED <<st, acc, sent, got, fin, gone, torn, told, exact>>
Far(e) == IF e % 2 = 0 THEN e + 1 ELSE e - 1
Readers == {"rs", "re"}
Writers == {"ws", "wa"}
Limit(b) == <<0, 1, 2, 5>>[(b % 4) + 1]
Size(b) == <<0, 1, 2, 3, 7, 64, 5000, 30000>>[((b \div 4) % 8) + 1]
Run(c) == pend[c].pc = "called"
\* true reasons
Broken(e) == Far(e) \in gone \cup torn \/ e \in torn
Late(c) == Limit(pend[c].b) > 0 /\ pend[c].ms >= Limit(pend[c].b)
\* how a kernel's error is told
StatusOf(e) == CASE e = 104 -> "reset" [] e = 111 -> "refused" [] e = 90 -> "toobig" [] OTHER -> "native"
Failed(c, r) == pend[c].err # 0 /\ r = StatusOf(pend[c].err) /\ (r = "native" => pend[c].code = pend[c].err)
Fine(c) == pend[c].err \in {0, 4}
ReadEnds(c, r) == LET p == pend[c] n == Size(p.b) IN
    \/ r = "ok" /\ (n = 0 \/ (IF p.op = "rs" THEN p.n >= 1 ELSE p.n = n))
    \/ r = "closed" /\ p.n < n /\ Fine(c) /\ (p.eof \/ (Far(p.a) \in fin \cup torn /\ got[Far(p.a)] = sent[Far(p.a)]) \/ Broken(p.a))
    \/ r = "pollerr" /\ p.n < n /\ Broken(p.a)
    \/ Failed(c, r) /\ p.n < n
    \/ r = "timeout" /\ p.n < n /\ Late(c) /\ Fine(c)
WriteEnds(c, r) == LET p == pend[c] n == Size(p.b) IN
    \/ r = "ok" /\ (n = 0 \/ (IF p.op = "ws" THEN p.n >= 1 ELSE p.n = n))
    \/ r \in {"closed", "pollerr"} /\ p.n < n /\ (Broken(p.a) \/ p.a \in fin) /\ Fine(c)
    \/ Failed(c, r) /\ p.n < n
    \/ r = "timeout" /\ p.n < n /\ Late(c) /\ Fine(c)
\* a connect that follows another one repeats what that one told, or is about to tell
ConnectEnds(c, r) == LET p == pend[c] IN
    IF told[p.a] # "-" THEN r = told[p.a]
    ELSE \/ r = "ok" /\ st[p.a] = "up"
         \/ \E d \in C : /\ Run(d) /\ pend[d].op = "connect" /\ pend[d].a = p.a
                         /\ (r = "error" /\ (st[p.a] = "refused" \/ pend[d].err # 0)) \/ (r = "timeout" /\ Late(d))
AcceptEnds(c, r) == LET p == pend[c] IN
    IF p.hit # 0 THEN r = "ok"
    ELSE (r = "timeout" /\ Late(c) /\ Fine(c)) \/ (r \in {"cancelled", "closed", "pollerr"} /\ down /\ Fine(c)) \/ (r = "native" /\ down /\ p.err = 0) \/ Failed(c, r)
Ends(c, r) == LET o == pend[c].op IN
    CASE o \in Readers -> ReadEnds(c, r) [] o \in Writers -> WriteEnds(c, r) [] o = "connect" -> ConnectEnds(c, r) [] o = "accept" -> AcceptEnds(c, r) [] OTHER -> r = "ok"
Results == {"ok", "closed", "reset", "refused", "toobig", "native", "pollerr", "timeout", "error", "cancelled"}
Val(c) == LET p == pend[c] IN CASE p.op \in Readers -> p.n [] p.op \in Writers -> Size(p.b) - p.n [] p.op = "accept" -> p.hit [] OTHER -> 0
Finish(c) == /\ Run(c)
             /\ \E r \in Results : /\ Ends(c, r)
                                   /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = r, ![c].val = Val(c)]
                                   /\ told' = IF pend[c].op = "connect" THEN [told EXCEPT ![pend[c].a] = r] ELSE told
             /\ UNCHANGED kernel
Silent == \E c \in C : Finish(c)
Timed == Readers \cup Writers \cup {"connect", "accept"}
\* a recorded end is judged at once, without the step of Finish
Ret(c, op, res, val, vis) == /\ pend[c].op = op /\ vis = 1
                             /\ \/ pend[c].pc = "done" /\ res = pend[c].res /\ val = pend[c].val /\ UNCHANGED told
                                \/ Run(c) /\ Ends(c, res) /\ val = Val(c) /\ told' = (IF op = "connect" THEN [told EXCEPT ![pend[c].a] = res] ELSE told)
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED kernel
\* the kernel's deeds
Doing(ops, a) == {c \in C : Run(c) /\ pend[c].op \in ops /\ pend[c].a = a}
Tx(e, k) == /\ \E c \in Doing(Writers, e) : pend[c].n + k <= Size(pend[c].b) /\ (pend[c].op = "ws" => pend[c].n = 0) /\ Fine(c) /\ pend' = [pend EXCEPT ![c].n = @ + k]
            /\ sent' = [sent EXCEPT ![e] = @ + k] /\ UNCHANGED <<st, acc, got, fin, gone, torn, told, down, exact, armed>>
Rx(e, k) == /\ \E c \in Doing(Readers, e) : pend[c].n + k <= Size(pend[c].b) /\ (pend[c].op = "rs" => pend[c].n = 0) /\ ~pend[c].eof /\ Fine(c)
                                           /\ pend' = [pend EXCEPT ![c].n = @ + k, ![c].eof = (k = 0)]
            /\ got' = [got EXCEPT ![Far(e)] = @ + k] /\ got'[Far(e)] <= sent[Far(e)]
            /\ UNCHANGED <<st, acc, sent, fin, gone, torn, told, down, exact, armed>>
\* an operation fails once at most, unless it was only interrupted
Err(e, k) == /\ \E c \in Doing(Readers \cup Writers, e) :
                   /\ Fine(c) /\ pend' = [pend EXCEPT ![c].err = k]
                   /\ <<e, IF pend[c].op \in Writers THEN 1 ELSE 0, k>> \in armed \/ Broken(e) \/ (pend[c].op \in Writers /\ e \in fin)
             /\ UNCHANGED <<kernel, told>>
CErr(k, n) == /\ \E c \in Doing({"connect"}, k) : Fine(c) /\ told[k] = "-" /\ pend' = [pend EXCEPT ![c].err = n]
              /\ <<2 * k, 2, n>> \in armed /\ UNCHANGED <<kernel, told>>
AErr(n) == /\ \E c \in Doing({"accept"}, 0) : Fine(c) /\ pend[c].hit = 0 /\ pend' = [pend EXCEPT ![c].err = n]
           /\ <<0, 3, n>> \in armed /\ UNCHANGED <<kernel, told>>
Conn(w, k) == /\ w = "trying" => st[k] = "none"
              /\ st' = [st EXCEPT ![k] = w] /\ UNCHANGED <<pend, acc, sent, got, fin, gone, torn, told, down, exact, armed>>
Accepted(k) == /\ st[k] = "up" /\ k \notin acc
               /\ \E c \in Doing({"accept"}, 0) : pend[c].hit = 0 /\ pend' = [pend EXCEPT ![c].hit = k]
               /\ acc' = acc \cup {k} /\ UNCHANGED <<st, sent, got, fin, gone, torn, told, down, exact, armed>>
\* shut: 0 reading, 1 writing, 2 both
Shut(e, how) == /\ fin' = (IF how >= 1 THEN fin \cup {e} ELSE fin) /\ torn' = (IF how = 1 THEN torn ELSE torn \cup {e})
                /\ UNCHANGED <<pend, st, acc, sent, got, gone, told, down, exact, armed>>
Gone(e) == /\ gone' = gone \cup {e} /\ fin' = fin \cup {e} /\ UNCHANGED <<pend, st, acc, sent, got, torn, told, down, exact, armed>>
Took(c, ms, code) == /\ Run(c) /\ pend' = [pend EXCEPT ![c].ms = ms, ![c].code = code]
                     /\ (exact /\ Limit(pend[c].b) > 0) => ms <= Limit(pend[c].b) + 1
                     /\ UNCHANGED <<kernel, told>>
\* seen when nothing moves any more: what is readable, writable and whether a connection waits
Kern(rd, wr, wait) == /\ \A c \in C : Run(c) => /\ pend[c].op \in Timed /\ Limit(pend[c].b) = 0 /\ Fine(c)
                                                /\ (pend[c].op \in Readers => pend[c].a \notin rd /\ Far(pend[c].a) \notin fin)
                                                /\ (pend[c].op \in Writers => pend[c].a \notin wr /\ ~Broken(pend[c].a))
                                                /\ (pend[c].op = "connect" => st[pend[c].a] = "trying")
                                                /\ (pend[c].op = "accept" => wait = 0 /\ ~down)
                      /\ UNCHANGED vars
SetOf(s) == {s[i] : i \in 1..Len(s)}
Other(e) == \/ e[1] = "tx" /\ e[4] = 1 /\ Tx(e[2], e[3])
            \/ e[1] = "rx" /\ e[4] = 1 /\ Rx(e[2], e[3])
            \/ e[1] = "err" /\ Err(e[2], e[3])
            \/ e[1] = "cerr" /\ CErr(e[2] \div 2, e[3])
            \/ e[1] = "aerr" /\ AErr(e[3])
            \/ e[1] \in {"trying", "up", "refused"} /\ (e[3] = 1 => down) /\ Conn(e[1], e[2] \div 2)
            \/ e[1] = "accepted" /\ Accepted(e[2] \div 2)
            \/ e[1] = "shut" /\ Shut(e[2], e[3])
            \/ e[1] = "gone" /\ Gone(e[2])
            \/ e[1] = "down" /\ down' = TRUE /\ UNCHANGED <<pend, st, acc, sent, got, fin, gone, torn, told, exact, armed>>
            \/ e[1] = "took" /\ Took(e[2], e[3], e[4])
            \/ e[1] = "kern" /\ Kern(SetOf(e[2]), SetOf(e[3]), e[4])
            \/ e[1] = "left" /\ e[2] = 0 /\ UNCHANGED vars
Q(S) == S = {c \in C : pend[c].pc # "idle"} /\ (\A c \in S : Run(c) /\ pend[c].op \in Timed /\ Limit(pend[c].b) = 0) /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCPars == {<<0, 0, 1>>}
MCOps == {<<"accept", 0, 0>>, <<"accept", 0, 1>>, <<"connect", 1, 4>>, <<"connect", 1, 1>>, <<"up", 1, 0>>, <<"refuse", 1, 0>>, <<"ws", 2, 12>>, <<"wa", 2, 13>>, <<"rs", 3, 8>>, <<"re", 3, 9>>, <<"fin", 2, 0>>, <<"close", 2, 0>>, <<"down", 0, 0>>, <<"flt", 3, 0>>, <<"flt", 2, 13>>}
Role(o, a) == CASE o \in Readers -> <<"r", a>> [] o \in Writers -> <<"w", a>> [] OTHER -> <<o, a>>
May(c, o) == /\ \A d \in C : pend[d].pc # "idle" => Role(pend[d].op, pend[d].a) # Role(o[1], o[2])
             /\ (o[2] \in Points /\ o[1] \in Readers \cup Writers \cup {"fin", "close"}) => /\ st[o[2] \div 2] = "up" /\ (o[2] % 2 = 1 => (o[2] \div 2) \in acc) /\ o[2] \notin gone
                                                                                     /\ (o[1] \in Writers => o[2] \notin fin)
             /\ o[1] = "close" => \A d \in C : pend[d].pc # "idle" => pend[d].a # o[2]
MCOther == \/ \E e \in Points : \E k \in 1..2 : Tx(e, k)
           \/ \E e \in Points : \E k \in 1..2 : Rx(e, k)
           \/ \E e \in Points : Far(e) \in fin /\ got[Far(e)] = sent[Far(e)] /\ Rx(e, 0)
           \/ \E k \in Conns : (st[k] = "none" /\ Doing({"connect"}, k) # {} /\ \E w \in {"trying", "up", "refused"} : Conn(w, k))
                           \/ (st[k] = "trying" /\ Doing({"up"}, k) # {} /\ Conn("up", k)) \/ (st[k] = "trying" /\ Doing({"refuse"}, k) # {} /\ Conn("refused", k))
           \/ \E k \in Conns : Accepted(k)
           \/ \E e \in Points : Doing({"fin"}, e) # {} /\ e \notin fin /\ Shut(e, 1)
           \/ \E e \in Points : Doing({"close"}, e) # {} /\ e \notin gone /\ Gone(e)
           \/ ~down /\ Doing({"down"}, 0) # {} /\ down' = TRUE /\ UNCHANGED <<pend, st, acc, sent, got, fin, gone, torn, told, exact, armed>>
           \/ \E c \in C : Run(c) /\ pend[c].op \in Timed /\ (pend[c].ms < Limit(pend[c].b) \/ pend[c].code # pend[c].err) /\ Took(c, Limit(pend[c].b), pend[c].err)
           \/ \E x \in armed : x[2] < 2 /\ Err(x[1], x[3])
           \/ \E x \in armed : (x[2] = 2 /\ st[x[1] \div 2] = "none" /\ CErr(x[1] \div 2, x[3])) \/ (x[2] = 3 /\ AErr(x[3]))
\* bytes are neither lost nor invented, nobody is told more than what happened
Inv == /\ \A e \in Points : got[e] <= sent[e]
       /\ \A k \in Conns : k \in acc => st[k] = "up"
       /\ \A c \in C : pend[c].pc = "done" /\ pend[c].op \in {"re", "wa"} /\ pend[c].res = "ok" => pend[c].n = Size(pend[c].b)
       /\ \A c \in C : pend[c].op \in Readers \cup Writers => pend[c].n <= Size(pend[c].b)
=============================================================================
