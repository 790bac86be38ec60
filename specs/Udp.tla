-------------------------------- MODULE Udp --------------------------------
(* coro::net::udp.  Peers 1, 2 are bound, 3 is not.  The kernel's deeds are events: "tx" (a datagram of p accepted  *)
(* for q), "drop" (accepted and lost), "err", "rx" (the oldest datagram at p handed to it); their last field tells  *)
(* whether the content (and the addresses) were those of the operation, respectively of the datagram.               *)
(* "raw": a datagram (also an empty one) sent past the library.                                                    *)
(* armed: failures the program asked the kernel for, as (peer, 0 receiving 1 sending, error number).                *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, box, exact, armed
vars == <<pend, box, exact, armed>>
Peers == 1..3
Bound == {1, 2}
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0, n |-> -1, err |-> 0, ms |-> 0, code |-> 0]
Init(par) == pend = [c \in C |-> Idle] /\ box = [p \in Bound |-> <<>>] /\ exact = (par[3] = 1) /\ armed = {}
Errs == <<104, 111, 110, 32, 90, 12, 101, 4>>
Call(c, op, a, b) == /\ pend[c].pc = "idle"
                     /\ pend' = [pend EXCEPT ![c] = [Idle EXCEPT !.op = op, !.a = a, !.b = b, !.pc = "called"]]
                     /\ armed' = (IF op = "flt" THEN armed \cup {<<a, (b \div 8) % 2, Errs[(b % 8) + 1]>>} ELSE armed)
                     /\ UNCHANGED <<box, exact>>
Limit(b) == <<0, 1, 2, 5>>[(b % 4) + 1]
Size(b) == <<0, 1, 2, 3, 7, 64, 2000, 20000>>[((b \div 4) % 8) + 1]
Sends == {"wr", "raw"}
From(c) == IF pend[c].op \in Sends THEN pend[c].a \div 4 ELSE pend[c].a
To(c) == pend[c].a % 4
Run(c) == pend[c].pc = "called"
Late(c) == Limit(pend[c].b) > 0 /\ pend[c].ms >= Limit(pend[c].b)
Min(x, y) == IF x < y THEN x ELSE y
\* how a kernel's error is told
StatusOf(e) == CASE e = 104 -> "reset" [] e = 111 -> "refused" [] e = 90 -> "toobig" [] OTHER -> "native"
Failed(c, r) == pend[c].err # 0 /\ pend[c].n = -1 /\ r = StatusOf(pend[c].err) /\ (r = "native" => pend[c].code = pend[c].err)
\* n: size of the datagram taken or sent by the operation, -1 none
ReadEnds(c, r) == LET p == pend[c] IN
    IF p.a \notin Bound THEN r = "notbound" ELSE
    \/ r = "ok" /\ (IF Size(p.b) = 0 THEN p.n = -1 ELSE p.n >= 0)
    \/ Failed(c, r)
    \/ r = "timeout" /\ p.n = -1 /\ Late(c) /\ Size(p.b) > 0 /\ p.err \in {0, 4}
WriteEnds(c, r) == LET p == pend[c] IN
    \/ r = "ok" /\ (IF Size(p.b) = 0 THEN p.n = -1 ELSE p.n = Size(p.b))
    \/ Failed(c, r)
    \/ r = "timeout" /\ p.n = -1 /\ Late(c) /\ Size(p.b) > 0 /\ p.err \in {0, 4}
Ends(c, r) == CASE pend[c].op = "rd" -> ReadEnds(c, r) [] pend[c].op = "wr" -> WriteEnds(c, r) [] OTHER -> r = "ok"
Val(c) == IF pend[c].op = "rd" /\ pend[c].n > 0 THEN Min(pend[c].n, Size(pend[c].b)) ELSE 0
Finish(c) == /\ Run(c) /\ \E r \in {"ok", "timeout", "notbound", "toobig", "native", "reset", "refused"} : Ends(c, r) /\ pend' = [pend EXCEPT ![c].pc = "done", ![c].res = r, ![c].val = Val(c)]
             /\ UNCHANGED <<box, exact, armed>>
Silent == \E c \in C : Finish(c)
Timed == {"rd", "wr"}
Ret(c, op, res, val, vis) == /\ pend[c].op = op /\ vis = 1
                             /\ (pend[c].pc = "done" /\ res = pend[c].res /\ val = pend[c].val) \/ (Run(c) /\ Ends(c, res) /\ val = (IF res = "ok" THEN Val(c) ELSE 0))
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<box, exact, armed>>
Sending(p) == {c \in C : Run(c) /\ pend[c].op \in Sends /\ From(c) = p /\ pend[c].n = -1 /\ pend[c].err \in {0, 4}}
Tx(p, q, k, lost) == /\ \E c \in Sending(p) : To(c) = (IF q = 0 THEN 3 ELSE q) /\ k = Size(pend[c].b) /\ pend' = [pend EXCEPT ![c].n = k]
                     /\ box' = (IF lost \/ q \notin Bound THEN box ELSE [box EXCEPT ![q] = Append(@, <<p, k>>)]) /\ UNCHANGED <<exact, armed>>
Rx(p, q, k) == /\ box[p] # <<>> /\ Head(box[p])[1] = q
               /\ \/ \E c \in C : Run(c) /\ pend[c].op = "rd" /\ pend[c].a = p /\ pend[c].n = -1 /\ pend[c].err \in {0, 4} /\ k = Min(Head(box[p])[2], Size(pend[c].b)) /\ pend' = [pend EXCEPT ![c].n = Head(box[p])[2]]
                  \/ (\E c \in C : Run(c) /\ pend[c].op = "drain") /\ pend' = pend
               /\ box' = [box EXCEPT ![p] = Tail(@)] /\ UNCHANGED <<exact, armed>>
CanFail(c, p, e) == \/ <<p, IF pend[c].op = "wr" THEN 1 ELSE 0, e>> \in armed
                    \/ pend[c].op = "wr" /\ e \in {90, 105} /\ Size(pend[c].b) >= 2000
Err(p, e) == /\ \E c \in C : /\ Run(c) /\ pend[c].op \in Timed /\ From(c) = p /\ pend[c].n = -1 /\ pend[c].err \in {0, 4}
                             /\ CanFail(c, p, e) /\ pend' = [pend EXCEPT ![c].err = e]
             /\ UNCHANGED <<box, exact, armed>>
RawErr(p) == (\E c \in C : Run(c) /\ pend[c].op = "raw" /\ From(c) = p) /\ UNCHANGED vars
Took(c, ms, code) == /\ Run(c) /\ pend' = [pend EXCEPT ![c].ms = ms, ![c].code = code] /\ ((exact /\ Limit(pend[c].b) > 0) => ms <= Limit(pend[c].b) + 1)
                     /\ UNCHANGED <<box, exact, armed>>
\* nothing moves any more: what the kernel says is readable and writable
Kern(rd, wr) == /\ \A c \in C : Run(c) => /\ pend[c].op \in Timed /\ Limit(pend[c].b) = 0 /\ pend[c].n = -1 /\ pend[c].err \in {0, 4}
                                          /\ (pend[c].op = "rd" => From(c) \notin rd /\ From(c) \in Bound /\ box[From(c)] = <<>>)
                                          /\ (pend[c].op = "wr" => From(c) \notin wr)
                /\ UNCHANGED vars
SetOf(s) == {s[i] : i \in 1..Len(s)}
Other(e) == \/ e[1] \in {"tx", "drop"} /\ e[5] = 1 /\ Tx(e[2], e[3], e[4], e[1] = "drop")
            \/ e[1] = "rx" /\ e[5] = 1 /\ Rx(e[2], e[3], e[4])
            \/ e[1] = "err" /\ (Err(e[2], e[4]) \/ RawErr(e[2]))
            \/ e[1] = "took" /\ Took(e[2], e[3], e[4])
            \/ e[1] = "kern" /\ Kern(SetOf(e[2]), SetOf(e[3]))
            \/ e[1] = "left" /\ e[2] = 0 /\ UNCHANGED vars
Q(S) == S = {c \in C : pend[c].pc # "idle"} /\ (\A c \in S : Run(c) /\ pend[c].op \in Timed /\ Limit(pend[c].b) = 0) /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCPars == {<<0, 0, 1>>}
MCOps == {<<"wr", 6, 16>>, <<"wr", 5, 4>>, <<"wr", 13, 9>>, <<"wr", 9, 28>>, <<"rd", 1, 8>>, <<"rd", 2, 5>>, <<"rd", 3, 4>>, <<"rd", 1, 0>>, <<"wr", 7, 4>>, <<"raw", 14, 0>>, <<"flt", 2, 6>>, <<"flt", 1, 8>>}
May(c, o) == \A d \in C : pend[d].pc # "idle" => (pend[d].op \notin (IF o[1] \in Sends THEN Sends ELSE {o[1]}) \/ From(d) # (IF o[1] \in Sends THEN o[2] \div 4 ELSE o[2]))
MCOther == \/ \E c \in C : Run(c) /\ pend[c].op \in Sends /\ pend[c].n = -1 /\ (Size(pend[c].b) > 0 \/ pend[c].op = "raw") /\ pend[c].err = 0
                           /\ (\E l \in BOOLEAN : Tx(From(c), To(c), Size(pend[c].b), l)) 
           \/ \E c \in C : Run(c) /\ pend[c].op = "wr" /\ pend[c].err = 0 /\ Size(pend[c].b) > 64 /\ Err(From(c), 90)
           \/ \E x \in armed : Err(x[1], x[3])
           \/ \E c \in C : Run(c) /\ pend[c].op = "rd" /\ pend[c].a \in Bound /\ Size(pend[c].b) > 0 /\ box[pend[c].a] # <<>> /\ Rx(pend[c].a, Head(box[pend[c].a])[1], Min(Head(box[pend[c].a])[2], Size(pend[c].b)))
           \/ \E c \in C : Run(c) /\ pend[c].op \in Timed /\ (pend[c].ms < Limit(pend[c].b) \/ pend[c].code # pend[c].err) /\ Took(c, Limit(pend[c].b), pend[c].err)
Inv == /\ \A c \in C : pend[c].pc = "done" /\ pend[c].op = "rd" /\ pend[c].res = "ok" => pend[c].val <= Size(pend[c].b)
       /\ \A c \in C : pend[c].pc = "done" /\ pend[c].op = "wr" /\ pend[c].res = "ok" /\ Size(pend[c].b) > 0 => pend[c].n = Size(pend[c].b)
=============================================================================
