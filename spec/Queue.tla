------------------------------- MODULE Queue -------------------------------
(* sparta::Queue: a bounded FIFO that can also drop its youngest element, with *)
(* handles (iterators) that stay attached to the element they were created for *)
(* and become invalid exactly when that element leaves the queue.              *)
(*                                                                             *)
(* An element is [id, val]; ids are unique among live elements and elements    *)
(* still referenced by a handle, so a handle to a removed element can be told  *)
(* from a handle to a later element that reuses its storage.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Caps, Vals, Handles     \* only used by the model-checking Init/Next

VARIABLES cap,   \* capacity
          q,     \* oldest first
          h,     \* handle -> element id, 0 = end(), -1 = detached
          op,    \* last operation, [o |-> name, a |-> arguments]
          ret    \* its result, [k |-> "ok" or "exc", v |-> sequence of ints]

vars == <<cap, q, h, op, ret>>
View == <<cap, q, h>>

Ids(s) == {s[i].id : i \in 1..Len(s)}
Used == Ids(q) \cup {h[i] : i \in DOMAIN h}
Fresh == CHOOSE i \in 1..(Cardinality(Used) + 1) : i \notin Used /\ \A j \in 1..(i-1) : j \in Used
Pos(id) == IF \E i \in 1..Len(q) : q[i].id = id THEN CHOOSE i \in 1..Len(q) : q[i].id = id ELSE 0

Ok(v) == ret' = [k |-> "ok", v |-> v]
Exc   == ret' = [k |-> "exc", v |-> <<>>] /\ UNCHANGED <<q, h>>

\* push keeps a handle to the new element in slot a[2]
Push(v, s) ==
    IF Len(q) = cap THEN Exc
    ELSE LET n == [id |-> Fresh, val |-> v] IN
         /\ q' = Append(q, n)
         /\ h' = [h EXCEPT ![s] = n.id]
         /\ Ok(<<>>)
Pop ==
    IF q = <<>> THEN Exc
    ELSE q' = Tail(q) /\ UNCHANGED h /\ Ok(<<>>)
PopBack ==
    IF q = <<>> THEN Exc
    ELSE q' = SubSeq(q, 1, Len(q) - 1) /\ UNCHANGED h /\ Ok(<<>>)
Clear == q' = <<>> /\ UNCHANGED h /\ Ok(<<>>)
Front == IF q = <<>> THEN Exc ELSE UNCHANGED <<q, h>> /\ Ok(<<q[1].val>>)
Back  == IF q = <<>> THEN Exc ELSE UNCHANGED <<q, h>> /\ Ok(<<q[Len(q)].val>>)
Read(i) == IF i >= Len(q) THEN Exc ELSE UNCHANGED <<q, h>> /\ Ok(<<q[i+1].val>>)
Write(i, v) == IF i >= Len(q) THEN Exc
               ELSE q' = [q EXCEPT ![i+1].val = v] /\ UNCHANGED h /\ Ok(<<>>)
HBegin(s) == h' = [h EXCEPT ![s] = IF q = <<>> THEN 0 ELSE q[1].id] /\ UNCHANGED q /\ Ok(<<>>)
HEnd(s) == h' = [h EXCEPT ![s] = 0] /\ UNCHANGED q /\ Ok(<<>>)
HCopy(s, t) == h' = [h EXCEPT ![s] = h[t]] /\ UNCHANGED q /\ Ok(<<>>)
\* moving a handle is only meaningful while its element is live (or it is end())
HInc(s) ==
    /\ h[s] >= 0 /\ (h[s] # 0 => Pos(h[s]) # 0)
    /\ IF h[s] = 0 THEN Exc
       ELSE LET p == Pos(h[s]) IN
            /\ h' = [h EXCEPT ![s] = IF p = Len(q) THEN 0 ELSE q[p+1].id]
            /\ UNCHANGED q /\ Ok(<<>>)
HDec(s) ==
    /\ h[s] >= 0 /\ (h[s] # 0 => Pos(h[s]) # 0) /\ (h[s] = 0 => q # <<>>)
    /\ IF h[s] # 0 /\ Pos(h[s]) = 1 THEN Exc
       ELSE /\ h' = [h EXCEPT ![s] = IF h[s] = 0 THEN q[Len(q)].id ELSE q[Pos(h[s])-1].id]
            /\ UNCHANGED q /\ Ok(<<>>)
\* dereferencing is refused for a handle whose element is gone
HGet(s) ==
    IF h[s] <= 0 \/ Pos(h[s]) = 0 THEN Exc
    ELSE UNCHANGED <<q, h>> /\ Ok(<<q[Pos(h[s])].val>>)

Do(o, a) ==
    /\ UNCHANGED cap
    /\ op' = [o |-> o, a |-> a]
    /\ CASE o = "push"    -> Push(a[1], a[2])
         [] o = "pop"     -> Pop
         [] o = "popback" -> PopBack
         [] o = "clear"   -> Clear
         [] o = "front"   -> Front
         [] o = "back"    -> Back
         [] o = "read"    -> Read(a[1])
         [] o = "write"   -> Write(a[1], a[2])
         [] o = "hbegin"  -> HBegin(a[1])
         [] o = "hend"    -> HEnd(a[1])
         [] o = "hcopy"   -> HCopy(a[1], a[2])
         [] o = "hinc"    -> HInc(a[1])
         [] o = "hdec"    -> HDec(a[1])
         [] o = "hget"    -> HGet(a[1])
         [] OTHER -> FALSE

InitWith(c, hs) == cap = c /\ q = <<>> /\ h = [i \in hs |-> -1]
                   /\ op = [o |-> "case", a |-> <<c>>] /\ ret = [k |-> "ok", v |-> <<>>]

Init == \E c \in Caps : InitWith(c, Handles)
Next == \/ \E v \in Vals, s \in Handles : Do("push", <<v, s>>)
        \/ Do("pop", <<>>) \/ Do("popback", <<>>) \/ Do("clear", <<>>)
        \/ Do("front", <<>>) \/ Do("back", <<>>)
        \/ \E i \in 0..cap : Do("read", <<i>>)
        \/ \E i \in 0..cap, v \in Vals : Do("write", <<i, v>>)
        \/ \E s \in Handles : Do("hbegin", <<s>>) \/ Do("hend", <<s>>) \/ Do("hinc", <<s>>)
                              \/ Do("hdec", <<s>>) \/ Do("hget", <<s>>)
        \/ \E s, t \in Handles : s # t /\ Do("hcopy", <<s, t>>)
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
TypeOK == Len(q) <= cap /\ \A i, j \in 1..Len(q) : i # j => q[i].id # q[j].id
\* an element never moves relative to the others, and leaves only at an end
OrderKept == [][ \A i, j \in 1..Len(q) :
                   (i < j /\ q[i].id \in Ids(q') /\ q[j].id \in Ids(q')) =>
                      (CHOOSE n \in 1..Len(q') : q'[n].id = q[i].id) <
                      (CHOOSE n \in 1..Len(q') : q'[n].id = q[j].id) ]_vars
FifoOut == [][ op'.o = "pop" /\ ret'.k = "ok" => q' = Tail(q) ]_vars
\* a rejected operation changes nothing
ExcPure == [][ ret'.k = "exc" => q' = q /\ h' = h ]_vars

(* ---- binding ---- *)
Obs == [size |-> Len(q), free |-> cap - Len(q), empty |-> IF q = <<>> THEN 1 ELSE 0,
        vals |-> [i \in 1..Len(q) |-> q[i].val],
        iter |-> [i \in 1..Len(q) |-> q[i].val],
        live |-> Len(q),
        hv |-> [i \in 1..Cardinality(DOMAIN h) |->
                 IF h[i-1] > 0 /\ Pos(h[i-1]) # 0 THEN <<1, q[Pos(h[i-1])].val, Pos(h[i-1]) - 1>> ELSE <<0>>]]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a[1], 0..(t.a[2]-1))
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
