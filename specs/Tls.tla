-------------------------------- MODULE Tls --------------------------------
(* coro::net::tls over a library that speaks TLS.  Endpoints as in Tcp: 2k connects, 2k+1 is accepted.           *)
(* Deeds of the kernel: "trying", "up", "refused", "accepted", "shut", "gone", "down".  Deeds of the TLS library *)
(* for an endpoint: "hs" (handshake complete / lost), "wr" (bytes sealed into the stream), "wd" (a write         *)
(* complete), "rd" (bytes opened), "cn" / "gn" (close_notify sent / received), "err" (1 protocol, 5 system).     *)
(* An operation ends with an account of exactly these deeds and a reason that is true; while it waits, it waits  *)
(* for what the TLS library asked for last.                                                                      *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, st, acc, hs, sent, got, fin, gone, torn, cn, gn, dead, told, down, exact, armed
vars == <<pend, st, acc, hs, sent, got, fin, gone, torn, cn, gn, dead, told, down, exact, armed>>
Conns == 1..3
Points == 2..7
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0, n |-> 0, wd |-> 0, err |-> 0, hit |-> 0, ms |-> 0]
Init(par) == /\ pend = [c \in C |-> Idle] /\ st = [k \in Conns |-> "none"] /\ acc = {} /\ hs = [e \in Points |-> "-"]
             /\ sent = [e \in Points |-> 0] /\ got = [e \in Points |-> 0] /\ fin = {} /\ gone = {} /\ torn = {} /\ cn = {} /\ gn = {} /\ dead = {}
             /\ told = [k \in Conns |-> "-"] /\ down = FALSE /\ exact = (par[3] = 1) /\ armed = {}
kernel == <<st, acc, hs, sent, got, fin, gone, torn, cn, gn, dead, down, exact, armed>>
\* armed: <<e, 5>> a failing system call to come, <<e, 1>> that side will not accept the other's handshake
Call(c, op, a, b) == /\ pend[c].pc = "idle"
                     /\ pend' = [pend EXCEPT ![c] = [Idle EXCEPT !.op = op, !.a = a, !.b = b, !.pc = "called"]]
                     /\ down' = (down \/ op = "down")
                     /\ armed' = (CASE op = "flt" -> armed \cup {<<a, 5>>} [] op = "rej" -> armed \cup {<<a, 1>>} [] OTHER -> armed)
                     /\ UNCHANGED <<st, acc, hs, sent, got, fin, gone, torn, cn, gn, dead, told, exact>>
Far(e) == IF e % 2 = 0 THEN e + 1 ELSE e - 1
Limit(b) == <<0, 1, 2, 5>>[(b % 4) + 1]
Size(b) == <<0, 1, 2, 3, 7, 64, 1500, 9000>>[((b \div 4) % 8) + 1]
Run(c) == pend[c].pc = "called"
Broken(e) == Far(e) \in gone \cup torn \/ e \in torn
Late(c) == Limit(pend[c].b) > 0 /\ pend[c].ms >= Limit(pend[c].b)
\* the endpoint an operation is about
At(c) == LET p == pend[c] IN CASE p.op = "connect" -> 2 * p.a [] p.op = "accept" -> IF p.hit = 0 THEN 0 ELSE 2 * p.hit + 1 [] OTHER -> p.a
ReadEnds(c, r) == LET p == pend[c] IN
    IF Size(p.b) = 0 THEN r = "empty"
    ELSE IF p.n > 0 THEN r = "ok"
    ELSE \/ r = "closed" /\ p.err = 0 /\ (p.a \in gn \/ (Far(p.a) \in fin \cup torn /\ got[Far(p.a)] = sent[Far(p.a)]) \/ Broken(p.a))
         \/ r = "error" /\ (p.err = 1 \/ (p.err = 0 /\ Broken(p.a)))
         \/ r = "syscall" /\ p.err = 5
         \/ r = "timeout" /\ Late(c) /\ p.err = 0
WriteEnds(c, r) == LET p == pend[c] IN
    IF Size(p.b) = 0 THEN r = "empty"
    ELSE IF p.wd > 0 THEN r = "ok" /\ p.wd = p.n
    ELSE \/ r = "closed" /\ p.err = 0 /\ (Broken(p.a) \/ Far(p.a) \in fin \/ p.a \in fin \cup gn)
         \/ r = "error" /\ (p.err = 1 \/ (p.err = 0 /\ Broken(p.a)))
         \/ r = "syscall" /\ p.err = 5
         \/ r = "timeout" /\ Late(c) /\ p.err = 0
HandshakeEnds(c, e, r) == \/ r = "ok" /\ hs[e] = "up"
                          \/ r = "hsfail" /\ hs[e] = "lost"
                          \/ r \in {"pollerr", "closed"} /\ hs[e] = "-" /\ (Broken(e) \/ Far(e) \in fin)
                          \/ r = "timeout" /\ hs[e] = "-" /\ Late(c)
ConnectEnds(c, r) == LET p == pend[c] IN
    IF told[p.a] # "-" THEN r = told[p.a]
    ELSE IF st[p.a] = "up" THEN HandshakeEnds(c, 2 * p.a, r)
    ELSE (r = "error" /\ (st[p.a] = "refused" \/ 2 * p.a \in torn \cup fin)) \/ (r = "timeout" /\ Late(c))
AcceptEnds(c, r) == LET p == pend[c] IN
    IF p.hit # 0 THEN HandshakeEnds(c, 2 * p.hit + 1, r)
    ELSE (r = "timeout" /\ Late(c)) \/ (r \in {"cancelled", "closed", "pollerr", "hsfail"} /\ down)
\* a connection in order says goodbye before it goes, once
Goodbye(e) == (hs[e] = "up" /\ e \notin dead) => e \in cn
Ends(c, r) == LET p == pend[c] IN
    CASE p.op = "rd" -> ReadEnds(c, r) [] p.op = "wr" -> WriteEnds(c, r) [] p.op = "connect" -> ConnectEnds(c, r) [] p.op = "accept" -> AcceptEnds(c, r)
      [] p.op = "sd" -> r = "ok" /\ Goodbye(p.a) [] p.op = "cls" -> r = "ok" /\ Goodbye(p.a) /\ ((st[p.a \div 2] # "none" /\ hs[p.a] # "-") => p.a \in gone) [] OTHER -> r = "ok"
Results == {"ok", "empty", "closed", "error", "syscall", "timeout", "hsfail", "pollerr", "cancelled"}
Val(c) == LET p == pend[c] IN CASE p.op = "rd" -> p.n [] p.op = "wr" -> (IF p.wd > 0 THEN Size(p.b) - p.wd ELSE 0) [] p.op = "accept" -> p.hit [] OTHER -> 0
Tell(c, r) == told' = IF pend[c].op = "connect" THEN [told EXCEPT ![pend[c].a] = r] ELSE told
Finish(c) == /\ Run(c)
             /\ \E r \in Results : Ends(c, r) /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = r, ![c].val = Val(c)] /\ Tell(c, r)
             /\ UNCHANGED kernel
Silent == \E c \in C : Finish(c)
Timed == {"rd", "wr", "connect", "accept"}
Ret(c, op, res, val, vis) == /\ pend[c].op = op /\ vis = 1
                             /\ \/ pend[c].pc = "done" /\ res = pend[c].res /\ val = pend[c].val /\ UNCHANGED told
                                \/ Run(c) /\ Ends(c, res) /\ ((op = "wr" /\ res # "ok") \/ val = Val(c)) /\ Tell(c, res)
                             /\ pend' = [pend EXCEPT ![c] = Idle]
                             /\ dead' = (IF op = "wr" /\ res \notin {"ok", "empty"} THEN dead \cup {pend[c].a} ELSE dead)
                             /\ UNCHANGED <<st, acc, hs, sent, got, fin, gone, torn, cn, gn, down, exact, armed>>
Doing(ops, e) == {c \in C : Run(c) /\ pend[c].op \in ops /\ At(c) = e}
Conn(w, k) == /\ (w = "trying" => st[k] = "none")
              /\ st' = [st EXCEPT ![k] = w] /\ UNCHANGED <<pend, acc, hs, sent, got, fin, gone, torn, cn, gn, dead, told, down, exact, armed>>
Accepted(k) == /\ st[k] = "up" /\ k \notin acc
               /\ \E c \in {c \in C : Run(c) /\ pend[c].op = "accept"} : pend[c].hit = 0 /\ pend' = [pend EXCEPT ![c].hit = k]
               /\ acc' = acc \cup {k} /\ UNCHANGED <<st, hs, sent, got, fin, gone, torn, cn, gn, dead, told, down, exact, armed>>
Hs(e, v) == /\ Doing({"connect", "accept"}, e) # {} /\ hs[e] = "-"
            /\ v = 1 => e % 2 = 0 \/ hs[Far(e)] = "up"
            /\ v = 0 => Broken(e) \/ Far(e) \in fin \/ <<e, 5>> \in armed \/ <<e, 1>> \in armed \/ <<Far(e), 1>> \in armed
            /\ hs' = [hs EXCEPT ![e] = IF v = 1 THEN "up" ELSE "lost"] /\ dead' = (IF v = 0 THEN dead \cup {e} ELSE dead)
            /\ UNCHANGED <<pend, st, acc, sent, got, fin, gone, torn, cn, gn, told, down, exact, armed>>
Wr(e, k) == /\ hs[e] = "up" /\ e \notin cn
            /\ \E c \in Doing({"wr"}, e) : pend[c].n + k <= Size(pend[c].b) /\ pend[c].wd = 0 /\ pend[c].err = 0 /\ pend' = [pend EXCEPT ![c].n = @ + k]
            /\ sent' = [sent EXCEPT ![e] = @ + k] /\ UNCHANGED <<st, acc, hs, got, fin, gone, torn, cn, gn, dead, told, down, exact, armed>>
Wd(e, k) == /\ \E c \in Doing({"wr"}, e) : pend[c].wd = 0 /\ pend[c].n = k /\ k > 0 /\ pend' = [pend EXCEPT ![c].wd = k]
            /\ UNCHANGED <<kernel, told>>
Rd(e, k) == /\ hs[e] = "up" /\ k > 0
            /\ \E c \in Doing({"rd"}, e) : k <= Size(pend[c].b) /\ pend[c].n = 0 /\ pend[c].err = 0 /\ pend' = [pend EXCEPT ![c].n = k]
            /\ got' = [got EXCEPT ![Far(e)] = @ + k] /\ got'[Far(e)] <= sent[Far(e)]
            /\ UNCHANGED <<st, acc, hs, sent, fin, gone, torn, cn, gn, dead, told, down, exact, armed>>
Cn(e) == /\ hs[e] = "up" /\ e \notin cn /\ Doing({"sd", "cls"}, e) # {}
         /\ cn' = cn \cup {e} /\ UNCHANGED <<pend, st, acc, hs, sent, got, fin, gone, torn, gn, dead, told, down, exact, armed>>
Gn(e) == /\ Far(e) \in cn /\ got[Far(e)] <= sent[Far(e)] /\ gn' = gn \cup {e}
         /\ UNCHANGED <<pend, st, acc, hs, sent, got, fin, gone, torn, cn, dead, told, down, exact, armed>>
Err(e, k) == /\ \E c \in Doing({"rd", "wr", "connect", "accept"}, e) : pend[c].err = 0 /\ pend[c].n * pend[c].wd = 0 /\ pend' = [pend EXCEPT ![c].err = k]
             /\ \/ Broken(e) \/ e \in dead \/ e \in cn \/ e \in fin \/ Far(e) \in fin
                \/ <<e, 5>> \in armed \/ <<e, 1>> \in armed \/ <<Far(e), 1>> \in armed
             /\ dead' = dead \cup {e} /\ UNCHANGED <<st, acc, hs, sent, got, fin, gone, torn, cn, gn, told, down, exact, armed>>
Shut(e, how) == /\ fin' = (IF how >= 1 THEN fin \cup {e} ELSE fin) /\ torn' = (IF how = 1 THEN torn ELSE torn \cup {e})
                /\ UNCHANGED <<pend, st, acc, hs, sent, got, gone, cn, gn, dead, told, down, exact, armed>>
Gone(e) == /\ gone' = gone \cup {e} /\ fin' = fin \cup {e} /\ UNCHANGED <<pend, st, acc, hs, sent, got, torn, cn, gn, dead, told, down, exact, armed>>
Took(c, ms) == /\ Run(c) /\ pend' = [pend EXCEPT ![c].ms = ms]
               /\ (exact /\ Limit(pend[c].b) > 0 /\ pend[c].op \in {"rd", "wr"}) => ms <= Limit(pend[c].b) + 3
               /\ UNCHANGED <<kernel, told>>
\* seen when nothing moves any more: readable, writable, a connection waits, opened bytes nobody took, what each one's library asked for
Kern(rd, wr, wait, pl, wantr, wantw) ==
    /\ \A c \in C : Run(c) => /\ pend[c].op \in Timed /\ Limit(pend[c].b) = 0 /\ pend[c].err = 0
          /\ (pend[c].op = "rd" => pend[c].a \notin pl /\ (IF pend[c].a \in wantw THEN pend[c].a \notin wr ELSE pend[c].a \notin rd))
          /\ (pend[c].op = "wr" => (IF pend[c].a \in wantr THEN pend[c].a \notin rd ELSE pend[c].a \notin wr))
          /\ (pend[c].op = "accept" /\ pend[c].hit = 0 => wait = 0 /\ ~down)
          /\ (pend[c].op \in {"connect", "accept"} /\ At(c) # 0 => \/ pend[c].op = "connect" /\ st[pend[c].a] = "trying"
                                                                   \/ st[At(c) \div 2] = "up" /\ hs[At(c)] = "-" /\ (IF At(c) \in wantw THEN At(c) \notin wr ELSE At(c) \notin rd))
    /\ UNCHANGED vars
SetOf(s) == {s[i] : i \in 1..Len(s)}
Other(e) == \/ e[1] \in {"trying", "up", "refused"} /\ (e[3] = 1 => down) /\ Conn(e[1], e[2] \div 2)
            \/ e[1] = "accepted" /\ Accepted(e[2] \div 2)
            \/ e[1] = "shut" /\ Shut(e[2], e[3])
            \/ e[1] = "gone" /\ (IF e[2] \in Points THEN Gone(e[2]) ELSE UNCHANGED vars)
            \/ e[1] = "down" /\ down' = TRUE /\ UNCHANGED <<pend, st, acc, hs, sent, got, fin, gone, torn, cn, gn, dead, told, exact, armed>>
            \/ e[1] = "hs" /\ Hs(e[2], e[3])
            \/ e[1] = "wr" /\ e[4] = 1 /\ Wr(e[2], e[3])
            \/ e[1] = "wd" /\ Wd(e[2], e[3])
            \/ e[1] = "rd" /\ e[4] = 1 /\ Rd(e[2], e[3])
            \/ e[1] = "cn" /\ Cn(e[2])
            \/ e[1] = "gn" /\ Gn(e[2])
            \/ e[1] = "err" /\ Err(e[2], e[3])
            \/ e[1] = "took" /\ Took(e[2], e[3])
            \/ e[1] = "kern" /\ Kern(SetOf(e[2]), SetOf(e[3]), e[4], SetOf(e[5]), SetOf(e[6]), SetOf(e[7]))
            \/ e[1] = "left" /\ e[2] = 0 /\ UNCHANGED vars
Q(S) == S = {c \in C : pend[c].pc # "idle"} /\ (\A c \in S : Run(c) /\ pend[c].op \in Timed /\ Limit(pend[c].b) = 0) /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCPars == {<<0, 0, 1>>}
MCOps == {<<"accept", 0, 0>>, <<"accept", 0, 1>>, <<"connect", 1, 4>>, <<"connect", 1, 1>>, <<"up", 1, 0>>, <<"refuse", 1, 0>>, <<"wr", 2, 8>>, <<"wr", 2, 9>>, <<"rd", 3, 4>>, <<"rd", 3, 9>>, <<"sd", 2, 0>>, <<"cls", 2, 0>>, <<"cls", 3, 0>>, <<"down", 0, 0>>, <<"rej", 3, 0>>}
May(c, o) == /\ \A d \in C : pend[d].pc # "idle" /\ o[1] \in {"accept", "connect"} => pend[d].op # o[1]
             /\ o[1] \in {"rd", "wr"} => hs[o[2]] = "up"
             /\ o[1] \in {"rd", "wr", "sd", "cls"} => /\ o[2] \notin gone /\ \A d \in C : pend[d].pc # "idle" => At(d) # o[2] /\ ~(pend[d].op = "accept" /\ o[2] % 2 = 1)
                                                     /\ (o[2] % 2 = 1 => (o[2] \div 2) \in acc)
             /\ o[1] = "connect" => 2 * o[2] \notin gone /\ \A d \in C : pend[d].pc # "idle" => pend[d].a # 2 * o[2] /\ pend[d].op # "cls"
MCOther == \/ \E k \in Conns : (st[k] = "none" /\ Doing({"connect"}, 2 * k) # {} /\ \E w \in {"trying", "up", "refused"} : Conn(w, k))
                           \/ (st[k] = "trying" /\ {c \in C : Run(c) /\ pend[c].op = "up" /\ pend[c].a = k} # {} /\ Conn("up", k))
                           \/ (st[k] = "trying" /\ {c \in C : Run(c) /\ pend[c].op = "refuse" /\ pend[c].a = k} # {} /\ Conn("refused", k))
           \/ \E k \in Conns : Accepted(k)
           \/ \E e \in Points : st[e \div 2] = "up" /\ (\E v \in 0..1 : Hs(e, v))
           \/ \E e \in Points : \E k \in 1..2 : Wr(e, k) \/ Rd(e, k)
           \/ \E c \in C : pend[c].op = "wr" /\ Run(c) /\ pend[c].n > 0 /\ Wd(pend[c].a, pend[c].n)
           \/ \E e \in Points : (Cn(e) \/ (e \notin gn /\ e \notin gone /\ hs[e] = "up" /\ Gn(e)) \/ Err(e, 1))
           \/ \E e \in Points : Doing({"cls"}, e) # {} /\ e \notin gone /\ st[e \div 2] # "none" /\ Gone(e)
           \/ ~down /\ {c \in C : Run(c) /\ pend[c].op = "down"} # {} /\ down' = TRUE /\ UNCHANGED <<pend, st, acc, hs, sent, got, fin, gone, torn, cn, gn, dead, told, exact, armed>>
           \/ \E c \in C : Run(c) /\ pend[c].op \in Timed /\ pend[c].ms < Limit(pend[c].b) /\ Took(c, Limit(pend[c].b))
\* bytes are neither lost nor invented; nobody is told of a handshake that did not happen; close_notify comes from a side that sent it
Inv == /\ \A e \in Points : got[e] <= sent[e] /\ (e \in cn => hs[e] = "up") /\ (sent[e] > 0 => hs[e] = "up") /\ (e \in gn => Far(e) \in cn)
       /\ \A k \in Conns : (k \in acc => st[k] = "up") /\ (told[k] = "ok" => hs[2 * k] = "up")
       /\ \A c \in C : pend[c].pc = "done" /\ pend[c].op = "wr" /\ pend[c].res = "ok" => pend[c].n = pend[c].wd
=============================================================================
