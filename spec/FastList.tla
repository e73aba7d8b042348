------------------------------ MODULE FastList ------------------------------
(* utils::FastList: a doubly linked list in a fixed pool of nodes.            *)
(* case <1, capacity>. Elements carry a value; negative values make the        *)
(* constructor throw.  moved counts elements not found where they were built. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps
VARIABLES p, q, a0, op, ret
vars == <<p, q, a0, op, ret>>
View == <<a0, q>>
Obs == [q |-> q, size |-> Len(q), live |-> Len(q), moved |-> 0, max |-> p[2],
        ends |-> IF q = <<>> THEN <<>> ELSE <<q[1], q[Len(q)]>>]
Ok(v) == ret' = [k |-> "ok", v |-> v]
Exc == ret' = [k |-> "exc", v |-> <<>>]
Put(i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
\* insertion before position i (0: first); the result is the new element and its successor
Add(i, x) == IF Len(q) = p[2] \/ x < 0 THEN Exc /\ UNCHANGED q
             ELSE q' = Put(i, x) /\ Ok(<<x>> \o (IF i = Len(q) THEN <<>> ELSE <<q[i + 1]>>))
Cut(i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
Do(o, a) ==
    /\ op' = [o |-> o, a |-> a]
    /\ UNCHANGED <<p, a0>>
    /\ \/ o = "back" /\ Add(Len(q), a[1])
       \/ o = "front" /\ Add(0, a[1])
       \/ o \in {"ins", "emp"} /\ a[1] <= Len(q) /\ Add(a[1], a[2])
       \/ o = "del" /\ a[1] < Len(q) /\ q' = Cut(a[1]) /\ Ok(IF a[1] + 1 = Len(q) THEN <<>> ELSE <<q[a[1] + 2]>>)
       \/ o = "popb" /\ (IF q = <<>> THEN Exc /\ UNCHANGED q ELSE q' = Cut(Len(q) - 1) /\ Ok(<<>>))
       \/ o = "popf" /\ (IF q = <<>> THEN Exc /\ UNCHANGED q ELSE q' = Cut(0) /\ Ok(<<>>))
       \/ o = "set" /\ a[1] < Len(q) /\ q' = [q EXCEPT ![a[1] + 1] = a[2]] /\ Ok(<<>>)
       \/ o = "clear" /\ q' = <<>> /\ Ok(<<>>)
InitWith(a) == p = a /\ q = <<>> /\ a0 = a /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

Bounded == Len(q) <= p[2]
\* every operation adds, removes or changes at most one element and keeps the order of the others (clear removes all)
OneAtATime == [][\/ q' = q \/ q' = <<>>
                 \/ \E i \in 1..Len(q') : q = SubSeq(q', 1, i - 1) \o SubSeq(q', i + 1, Len(q'))
                 \/ \E i \in 1..Len(q) : q' = SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)) \/ (\E x \in {q'[j] : j \in 1..Len(q')} : q' = [q EXCEPT ![i] = x])]_vars
NoRoom == [][ret'.k = "exc" => q' = q]_vars
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
