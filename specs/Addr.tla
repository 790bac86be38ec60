-------------------------------- MODULE Addr --------------------------------
(* coro::net::ip_address, socket_address, io_status and the names of the enumerations.  Texts are sequences of    *)
(* character codes.  Each event carries what the library was given and what it answered.                          *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANT C
VARIABLES pend, told
vars == <<pend, told>>
Idle == [op |-> "-", a |-> 0, b |-> 0, pc |-> "idle", res |-> "-", val |-> 0]
Init(par) == pend = [c \in C |-> Idle] /\ told = 0
\* ---- texts
RECURSIVE Split(_, _)
\* the parts of s between the characters x
Split(s, x) == IF \A i \in 1..Len(s) : s[i] # x THEN <<s>>
               ELSE LET i == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
                    IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), x)
RECURSIVE Join(_, _)
Join(ps, x) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<x>> \o Join(Tail(ps), x)
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE ps[1] \o Flat(Tail(ps))
Digit(ch) == CASE ch \in 48..57 -> ch - 48 [] ch \in 97..102 -> ch - 87 [] ch \in 65..70 -> ch - 55 [] OTHER -> 99
RECURSIVE Value(_, _)
Value(s, base) == IF s = <<>> THEN 0 ELSE Value(SubSeq(s, 1, Len(s) - 1), base) * base + Digit(s[Len(s)])
Number(s, base, n) == Len(s) \in 1..n /\ \A i \in 1..Len(s) : Digit(s[i]) < base
RECURSIVE Show(_, _)
Char(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Show(v, base) == (IF v >= base THEN Show(v \div base, base) ELSE <<>>) \o <<Char(v % base)>>
None == <<FALSE, <<>>>>
Octets(ps) == /\ Len(ps) = 4 /\ \A i \in 1..4 : Number(ps[i], 10, 3) /\ (Len(ps[i]) > 1 => ps[i][1] # 48) /\ Value(ps[i], 10) <= 255
Parse4(s) == LET ps == Split(s, 46) IN IF Octets(ps) THEN <<TRUE, [i \in 1..4 |-> Value(ps[i], 10)]>> ELSE None
Text4(b) == Join([i \in 1..4 |-> Show(b[i], 10)], 46)
\* words of a run of groups; the very last one may be written as an IPv4 address
Word(g) == IF Number(g, 16, 4) THEN <<Value(g, 16)>> ELSE <<>>
Words(s, last) ==
    IF s = <<>> THEN <<TRUE, <<>>>>
    ELSE LET gs == Split(s, 58) n == Len(gs) four == Parse4(gs[n])
             w == [i \in 1..n |-> IF i = n /\ last /\ four[1] THEN <<four[2][1] * 256 + four[2][2], four[2][3] * 256 + four[2][4]>> ELSE Word(gs[i])]
         IN IF \E i \in 1..n : w[i] = <<>> THEN None ELSE <<TRUE, Flat(w)>>
Bytes(ws) == [i \in 1..16 |-> IF i % 2 = 1 THEN ws[(i + 1) \div 2] \div 256 ELSE ws[i \div 2] % 256]
Parse6(s) ==
    LET gaps == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58} IN
    IF Cardinality(gaps) > 1 THEN None
    ELSE IF gaps = {} THEN LET w == Words(s, TRUE) IN IF w[1] /\ Len(w[2]) = 8 THEN <<TRUE, Bytes(w[2])>> ELSE None
    ELSE LET i == CHOOSE i \in gaps : TRUE l == Words(SubSeq(s, 1, i - 1), FALSE) r == Words(SubSeq(s, i + 2, Len(s)), TRUE) n == Len(l[2]) + Len(r[2])
         IN IF l[1] /\ r[1] /\ n <= 7 THEN <<TRUE, Bytes(l[2] \o [k \in 1..(8 - n) |-> 0] \o r[2])>> ELSE None
\* the first longest run of at least two zero words is written as "::", an IPv4 address inside as such
Text6(b) ==
    LET w == [i \in 1..8 |-> b[2 * i - 1] * 256 + b[2 * i]]
        Runs == {r \in (1..8) \X (2..8) : r[1] + r[2] <= 9 /\ \A i \in r[1]..(r[1] + r[2] - 1) : w[i] = 0}
        best == CHOOSE r \in Runs : \A q \in Runs : q[2] < r[2] \/ (q[2] = r[2] /\ q[1] >= r[1])
        Hex(i, j) == Join([k \in 1..(j - i + 1) |-> Show(w[i + k - 1], 16)], 58)
        four == Text4(SubSeq(b, 13, 16))
    IN IF Runs = {} THEN Hex(1, 8)
       ELSE LET i == best[1] n == best[2] IN
            IF i = 1 /\ n = 6 THEN <<58, 58>> \o four
            ELSE IF i = 1 /\ n = 5 /\ w[6] = 65535 THEN <<58, 58, 102, 102, 102, 102, 58>> \o four
            ELSE Hex(1, i - 1) \o <<58, 58>> \o Hex(i + n, 8)
Parse(d, s) == IF d = 4 THEN Parse4(s) ELSE Parse6(s)
Text(d, b) == IF d = 4 THEN Text4(b) ELSE Text6(b)
Size(d) == IF d = 4 THEN 4 ELSE 16
Less(d, b, e, f) == d < e \/ (d = e /\ \E i \in 1..Len(b) : b[i] < f[i] /\ \A j \in 1..(i - 1) : b[j] = f[j])
Bool(x) == IF x THEN 1 ELSE 0
Port(p) == <<p \div 256, p % 256>>
\* ---- status
Kind(n) == CASE n = 0 -> "ok" [] n = -1 -> "closed" [] n = 111 -> "refused" [] n = 104 -> "reset" [] n = 11 -> "again" [] n = 90 -> "toobig" [] OTHER -> "native"
Flags(k) == <<Bool(k = "ok"), Bool(k = "timeout"), Bool(k = "closed"), Bool(k = "again"), Bool(k = "native")>>
OfPoll(p) == CASE p \in {"read", "write"} -> "ok" [] p = "timeout" -> "timeout" [] p = "error" -> "pollerr" [] p = "closed" -> "closed" [] OTHER -> "cancelled"
\* ---- judging
Good(e) ==
    CASE e[1] = "parse" -> LET r == Parse(e[2], e[3]) IN e[4] = Bool(r[1]) /\ e[5] = r[2]
      [] e[1] = "make" -> e[4] = Bool(Len(e[3]) <= Size(e[2])) /\ e[5] = (IF e[4] = 0 THEN <<>> ELSE e[3] \o [i \in 1..(Size(e[2]) - Len(e[3])) |-> 0])
      [] e[1] = "text" -> e[4] = Text(e[2], e[3])
      [] e[1] = "cmp" -> e[6] = Bool(Less(e[2], e[3], e[4], e[5])) /\ e[7] = Bool(<<e[2], e[3]>> = <<e[4], e[5]>>) /\ e[8] = Bool(Less(e[4], e[5], e[2], e[3]))
      [] e[1] = "sock" -> e[5] = <<e[2], e[4]>> /\ e[6] = e[3] /\ e[7] = Text(e[2], e[3]) \o <<58>> \o Show(e[4], 10)
      [] e[1] = "native" -> e[5] = (IF e[2] = 4 THEN <<2, 16>> ELSE <<10, 28>>) /\ e[6] = Port(e[4]) /\ e[7] = e[3]
      [] e[1] = "eq" -> e[8] = Bool(<<e[2], e[3], e[4]>> = <<e[5], e[6], e[7]>>) /\ e[9] = 1 - e[8]
      [] e[1] = "status" -> e[3] = Kind(e[2]) /\ e[4] = e[2] /\ e[5] = Flags(e[3]) /\ e[6] = 1
      [] e[1] = "pstatus" -> e[3] = OfPoll(e[2]) /\ e[4] = Flags(e[3]) /\ e[5] = 1
      \* no two values of an enumeration share a name, and only the value called so is "unknown"
      [] e[1] = "names" -> e[3] = e[4] /\ e[5] = Bool(e[2] = "kind") /\ e[6] = 1
      [] OTHER -> FALSE
Event(op) == CASE op = "print" -> {"make", "text"} [] op = "sock" -> {"sock", "native"} [] OTHER -> {op}
Need(op) == CASE op = "sock" -> 2 [] OTHER -> 1
Call(c, op, a, b) == /\ \A d \in C : pend[d].pc = "idle" /\ op \in {"parse", "print", "cmp", "sock", "eq", "status", "pstatus", "names"}
                     /\ pend' = [pend EXCEPT ![c] = [op |-> op, a |-> a, b |-> b, pc |-> "called", res |-> "ok", val |-> 0]] /\ told' = 0
Tell(c) == told' = told + 1 /\ UNCHANGED pend
Finish(c) == pend[c].pc = "called" /\ told >= Need(pend[c].op) /\ pend' = [pend EXCEPT ![c].pc = "done"] /\ UNCHANGED told
Silent == \E c \in C : Finish(c)
Ret(c, op, res, val, vis) == /\ pend[c].op = op /\ pend[c].pc \in {"called", "done"} /\ told >= Need(op) /\ res = "ok" /\ val = 0 /\ vis = 1
                             /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED told
Other(e) == \E c \in C : pend[c].pc = "called" /\ e[1] \in Event(pend[c].op) /\ Good(e) /\ Tell(c)
Q(S) == S = {} /\ (\A c \in C : pend[c].pc = "idle") /\ UNCHANGED vars
End(why) == why = "ok" /\ UNCHANGED vars

MCPars == {<<0>>}
MCOps == {<<"parse", 4, 0>>, <<"print", 6, 0>>, <<"sock", 4, 1>>}
May(c, o) == \A d \in C : pend[d].pc = "idle"
MCOther == \E c \in C : pend[c].pc = "called" /\ told < Need(pend[c].op) /\ Tell(c)
\* what is written is read back as the same address, and no two addresses are written alike
Some6 == {Bytes([i \in 1..8 |-> IF i \in S THEN x ELSE IF i = 6 /\ y = 1 THEN 65535 ELSE 0]) : S \in SUBSET (1..8), x \in {1, 2748}, y \in {0, 1}}
Some4 == {<<a, b, a, d>> : a \in {0, 9, 10, 255}, b \in {0, 99, 100}, d \in {1, 200}}
RoundTrip == /\ \A b \in Some6 : Parse6(Text6(b)) = <<TRUE, b>>
             /\ \A b \in Some4 : Parse4(Text4(b)) = <<TRUE, b>>
             /\ \A b \in Some4 : Parse6(<<58, 58>> \o Text4(b)) = <<TRUE, [i \in 1..16 |-> IF i < 13 THEN 0 ELSE b[i - 12]]>>
             /\ \A b \in Some4, e \in Some4 : b = e \/ Less(4, b, 4, e) \/ Less(4, e, 4, b)
Inv == (told = 0 /\ \A c \in C : pend[c].pc = "idle") => RoundTrip
=============================================================================
