------------------------------- MODULE Buffer -------------------------------
(* sparta::Buffer: a bounded sequence with insertion and erasure anywhere,     *)
(* which may be told to grow. A handle belongs to one element: it is valid      *)
(* exactly while that element is in the buffer.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps, MaxL

VARIABLES cap, grow, \* capacity; 0 or by how much it grows when full
          q, h,      \* elements [id, val]; handle -> id, 0 = end(), -1 = detached
          a0, op, ret
vars == <<cap, grow, q, h, a0, op, ret>>
View == <<a0, cap, grow, q, h>>

Ids(s) == {s[i].id : i \in 1..Len(s)}
Used == Ids(q) \cup {h[i] : i \in DOMAIN h}
Fresh == CHOOSE i \in 1..(Cardinality(Used) + 1) : i \notin Used /\ \A j \in 1..(i-1) : j \in Used
PosIn(s, id) == IF \E i \in 1..Len(s) : s[i].id = id THEN CHOOSE i \in 1..Len(s) : s[i].id = id ELSE 0
Pos(id) == PosIn(q, id)
Live(s) == h[s] > 0 /\ Pos(h[s]) # 0
\* position (1-based) in front of which handle s stands; 0 if it stands nowhere
At(s) == IF h[s] = 0 THEN Len(q) + 1 ELSE IF Live(s) THEN Pos(h[s]) ELSE 0

Ok(v) == ret' = [k |-> "ok", v |-> v]
Same == UNCHANGED <<cap, grow, q, h>>
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ Same
Q(v) == Ok(v) /\ Same
Keep == UNCHANGED <<cap, grow>>

\* insert before position p; the handle in slot s is that of the new element
\* (whether a refused insertion lets a full buffer grow is left open: that is not exercised)
Ins(p, v, s) ==
    /\ (p = 0 \/ p > Len(q) + 1) => (grow = 0 \/ Len(q) < cap)
    /\ IF (Len(q) = cap /\ grow = 0) \/ p = 0 \/ p > Len(q) + 1 THEN Exc
       ELSE LET n == [id |-> Fresh, val |-> v] IN
            /\ q' = SubSeq(q, 1, p - 1) \o <<n>> \o SubSeq(q, p, Len(q))
            /\ h' = [h EXCEPT ![s] = n.id]
            /\ cap' = IF Len(q) = cap THEN cap + grow ELSE cap
            /\ UNCHANGED grow /\ Ok(<<>>)
Without(p) == SubSeq(q, 1, p - 1) \o SubSeq(q, p + 1, Len(q))
EraseI(i) == IF i >= Len(q) THEN Exc ELSE q' = Without(i + 1) /\ UNCHANGED <<cap, grow, h>> /\ Ok(<<>>)
\* erase by handle yields a handle to the element that follows
EraseH(s, t) ==
    IF ~Live(s) THEN Exc
    ELSE LET p == Pos(h[s]) IN
         /\ q' = Without(p) /\ h' = [h EXCEPT ![t] = IF p = Len(q) THEN 0 ELSE q[p+1].id] /\ Keep /\ Ok(<<>>)
\* erase by reverse iterator: the element in front of where the handle stands
EraseR(s, t) ==
    IF At(s) <= 1 THEN Exc
    ELSE LET p == At(s) - 1 IN
         /\ q' = Without(p) /\ h' = [h EXCEPT ![t] = IF p = Len(q) THEN 0 ELSE q[p+1].id] /\ Keep /\ Ok(<<>>)
Clear == q' = <<>> /\ UNCHANGED <<cap, grow, h>> /\ Ok(<<>>)
Read(i) == IF i >= Len(q) THEN Exc ELSE Q(<<q[i+1].val>>)
Write(i, v) == IF i >= Len(q) THEN Exc ELSE q' = [q EXCEPT ![i+1].val = v] /\ UNCHANGED <<cap, grow, h>> /\ Ok(<<>>)
Back(v) == IF q = <<>> THEN Exc ELSE q' = [q EXCEPT ![Len(q)].val = v] /\ UNCHANGED <<cap, grow, h>> /\ Ok(<<>>)
HBegin(s) == h' = [h EXCEPT ![s] = IF q = <<>> THEN 0 ELSE q[1].id] /\ UNCHANGED <<cap, grow, q>> /\ Ok(<<>>)
HEnd(s) == h' = [h EXCEPT ![s] = 0] /\ UNCHANGED <<cap, grow, q>> /\ Ok(<<>>)
HCopy(s, t) == h' = [h EXCEPT ![s] = h[t]] /\ UNCHANGED <<cap, grow, q>> /\ Ok(<<>>)
HInc(s) == IF ~Live(s) THEN Exc
           ELSE h' = [h EXCEPT ![s] = IF Pos(h[s]) = Len(q) THEN 0 ELSE q[Pos(h[s])+1].id] /\ UNCHANGED <<cap, grow, q>> /\ Ok(<<>>)
HDec(s) == /\ Live(s) \/ (h[s] = 0 /\ q # <<>>)
           /\ IF At(s) = 1 THEN Exc
              ELSE h' = [h EXCEPT ![s] = q[At(s)-1].id] /\ UNCHANGED <<cap, grow, q>> /\ Ok(<<>>)
HGet(s) == IF ~Live(s) THEN Exc ELSE Q(<<q[Pos(h[s])].val>>)
HSet(s, v) == IF ~Live(s) THEN Exc ELSE q' = [q EXCEPT ![Pos(h[s])].val = v] /\ UNCHANGED <<cap, grow, h>> /\ Ok(<<>>)
B(b) == IF b THEN 1 ELSE 0
\* only handles that stand somewhere are compared
HCmp(s, t) == At(s) # 0 /\ At(t) # 0 /\ Q(<<B(At(s) = At(t)), B(At(s) # At(t)), B(At(s) < At(t)), B(At(s) > At(t))>>)
Grow(d) == grow' = d /\ UNCHANGED <<cap, q, h>> /\ Ok(<<>>)
\* moving the buffer into a new one: the contents go along, the handles are given up
Move == h' = [s \in DOMAIN h |-> -1] /\ UNCHANGED <<cap, grow, q>> /\ Ok(<<>>)

Do(o, a) ==
    /\ UNCHANGED a0
    /\ op' = [o |-> o, a |-> a]
    /\ CASE o = "push"   -> Ins(Len(q) + 1, a[1], a[2])
         [] o = "insi"   -> Ins(IF a[1] > Len(q) THEN 0 ELSE a[1] + 1, a[2], a[3])
         [] o = "insh"   -> h[a[1]] # -1 /\ Ins(At(a[1]), a[2], a[3])
         [] o = "erasei" -> EraseI(a[1])
         [] o = "eraseh" -> h[a[1]] # -1 /\ EraseH(a[1], a[2])
         [] o = "eraser" -> (h[a[1]] = 0 \/ Live(a[1])) /\ EraseR(a[1], a[2])
         [] o = "clear"  -> Clear
         [] o = "read"   -> Read(a[1])
         [] o = "write"  -> Write(a[1], a[2])
         [] o = "back"   -> Back(a[1])
         [] o = "hbegin" -> HBegin(a[1])
         [] o = "hend"   -> HEnd(a[1])
         [] o = "hcopy"  -> HCopy(a[1], a[2])
         [] o = "hinc"   -> HInc(a[1])
         [] o = "hdec"   -> HDec(a[1])
         [] o = "hget"   -> HGet(a[1])
         [] o = "hread"  -> h[a[1]] # -1 /\ HGet(a[1])
         [] o = "hset"   -> h[a[1]] # -1 /\ HSet(a[1], a[2])
         [] o = "hcmp"   -> HCmp(a[1], a[2])
         [] o = "grow"   -> Grow(a[1])
         [] o = "move"   -> Move
         [] OTHER -> FALSE
InitWith(a) == /\ a0 = a /\ cap = a[1] /\ grow = a[3] /\ q = <<>> /\ h = [i \in 0..(a[2]-1) |-> -1]
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars
Bound == Len(q) <= MaxL

(* ---- properties ---- *)
TypeOK == Len(q) <= cap /\ \A i, j \in 1..Len(q) : i # j => q[i].id # q[j].id
OrderKept == [][ \A i, j \in 1..Len(q) :
                   (i < j /\ q[i].id \in Ids(q') /\ q[j].id \in Ids(q')) => PosIn(q', q[i].id) < PosIn(q', q[j].id) ]_vars
OneAtATime == [][ op'.o \notin {"clear"} => Cardinality(Ids(q) \ Ids(q')) <= 1 /\ Cardinality(Ids(q') \ Ids(q)) <= 1 ]_vars
ExcPure == [][ ret'.k = "exc" => q' = q /\ h' = h /\ cap' = cap ]_vars
BoundKept == [][ grow = 0 => cap' = cap ]_vars

Vals == [i \in 1..Len(q) |-> q[i].val]
Obs == [size |-> Len(q), free |-> cap - Len(q), cap |-> cap, empty |-> B(q = <<>>), vals |-> Vals, fwd |-> Vals,
        rev |-> [i \in 1..Len(q) |-> q[Len(q) + 1 - i].val], live |-> Len(q),
        hv |-> [i \in 1..Cardinality(DOMAIN h) |-> IF Live(i - 1) THEN <<1, q[Pos(h[i-1])].val>> ELSE <<0>>]]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
