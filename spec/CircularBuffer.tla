--------------------------- MODULE CircularBuffer ---------------------------
(* sparta::CircularBuffer: keeps the newest elements in order. Appending to a   *)
(* full buffer drops the oldest; inserting in front of an element and erasing   *)
(* invalidate every handle.                                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps

VARIABLES cap,
          q, h,      \* elements [id, val], oldest first; handle -> id, 0 = end(), -1 = invalid
          a0, op, ret
vars == <<cap, q, h, a0, op, ret>>
View == <<a0, cap, q, h>>

Ids(s) == {s[i].id : i \in 1..Len(s)}
Used == Ids(q) \cup {h[i] : i \in DOMAIN h}
Fresh == CHOOSE i \in 1..(Cardinality(Used) + 1) : i \notin Used /\ \A j \in 1..(i-1) : j \in Used
PosIn(s, id) == IF \E i \in 1..Len(s) : s[i].id = id THEN CHOOSE i \in 1..Len(s) : s[i].id = id ELSE 0
Pos(id) == PosIn(q, id)
Live(s) == h[s] > 0 /\ Pos(h[s]) # 0
At(s) == IF h[s] = 0 THEN Len(q) + 1 ELSE IF Live(s) THEN Pos(h[s]) ELSE 0
Ok(v) == ret' = [k |-> "ok", v |-> v]
Same == UNCHANGED <<cap, q, h>>
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ Same
Q(v) == Ok(v) /\ Same
Trim(s) == IF Len(s) > cap THEN Tail(s) ELSE s
None == [i \in DOMAIN h |-> -1]
NoEnd == [i \in DOMAIN h |-> IF h[i] = 0 THEN -1 ELSE h[i]]      \* what end() was is no longer the end

Push(v) == /\ q' = Trim(Append(q, [id |-> Fresh, val |-> v])) /\ h' = NoEnd /\ UNCHANGED cap /\ Ok(<<>>)
\* a full buffer makes room by dropping its oldest element, never the new one
Ins(s, v, t) ==
    IF q = <<>> THEN LET n == [id |-> Fresh, val |-> v] IN q' = <<n>> /\ h' = [NoEnd EXCEPT ![t] = n.id] /\ UNCHANGED cap /\ Ok(<<>>)
    ELSE IF ~Live(s) THEN Exc
    ELSE LET n == [id |-> Fresh, val |-> v]
             p == Pos(h[s])
             L == SubSeq(q, 1, p - 1)
             R == SubSeq(q, p, Len(q))
         IN /\ q' = IF Len(q) < cap THEN L \o <<n>> \o R ELSE IF L # <<>> THEN Tail(L) \o <<n>> \o R ELSE <<n>> \o Tail(R)
            /\ h' = [None EXCEPT ![t] = n.id] /\ UNCHANGED cap /\ Ok(<<>>)
Del(p) == q' = SubSeq(q, 1, p - 1) \o SubSeq(q, p + 1, Len(q)) /\ h' = None /\ UNCHANGED cap /\ Ok(<<>>)
EraseH(s) == IF Live(s) THEN Del(Pos(h[s])) ELSE Exc
EraseR(s) == IF At(s) > 1 THEN Del(At(s) - 1) ELSE Exc
Clear == q' = <<>> /\ h' = None /\ UNCHANGED cap /\ Ok(<<>>)
Read(i) == IF i >= Len(q) THEN Exc ELSE Q(<<q[i+1].val>>)
Set(s, x) == h' = [h EXCEPT ![s] = x] /\ UNCHANGED <<cap, q>> /\ Ok(<<>>)
HInc(s) == IF ~Live(s) THEN Exc ELSE Set(s, IF Pos(h[s]) = Len(q) THEN 0 ELSE q[Pos(h[s])+1].id)
HDec(s) == IF At(s) <= 1 THEN Exc ELSE Set(s, q[At(s)-1].id)
HGet(s) == IF ~Live(s) THEN Exc ELSE Q(<<q[Pos(h[s])].val>>)
HSet(s, v) == IF ~Live(s) THEN Exc ELSE q' = [q EXCEPT ![Pos(h[s])].val = v] /\ UNCHANGED <<cap, h>> /\ Ok(<<>>)
B(b) == IF b THEN 1 ELSE 0
\* ordered by age: the older one is the greater
HCmp(s, t) == At(s) # 0 /\ At(t) # 0 /\ Q(<<B(At(s) = At(t)), B(At(s) # At(t)), B(At(s) > At(t)), B(At(s) < At(t))>>)
RGet(s) == At(s) # 0 /\ IF At(s) > 1 THEN Q(<<1, q[At(s)-1].val>>) ELSE Q(<<0>>)

Do(o, a) ==
    /\ UNCHANGED a0
    /\ op' = [o |-> o, a |-> a]
    /\ CASE o = "push"   -> Push(a[1])
         [] o = "insh"   -> Ins(a[1], a[2], a[3])
         [] o = "eraseh" -> EraseH(a[1])
         [] o = "eraser" -> h[a[1]] # -1 /\ EraseR(a[1])
         [] o = "clear"  -> Clear
         [] o = "read"   -> Read(a[1])
         [] o = "hbegin" -> Set(a[1], IF q = <<>> THEN 0 ELSE q[1].id)
         [] o = "hend"   -> Set(a[1], 0)
         [] o = "hcopy"  -> Set(a[1], h[a[2]])
         [] o = "hinc"   -> HInc(a[1])
         [] o = "hdec"   -> h[a[1]] # -1 /\ HDec(a[1])
         [] o = "hget"   -> HGet(a[1])
         [] o = "hset"   -> HSet(a[1], a[2])
         [] o = "hcmp"   -> HCmp(a[1], a[2])
         [] o = "rget"   -> RGet(a[1])
         [] OTHER -> FALSE
InitWith(a) == /\ a0 = a /\ cap = a[1] /\ q = <<>> /\ h = [i \in 0..(a[2]-1) |-> -1]
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
TypeOK == Len(q) <= cap /\ \A i, j \in 1..Len(q) : i # j => q[i].id # q[j].id
OrderKept == [][ \A i, j \in 1..Len(q) :
                   (i < j /\ q[i].id \in Ids(q') /\ q[j].id \in Ids(q')) => PosIn(q', q[i].id) < PosIn(q', q[j].id) ]_vars
\* an append or insertion loses at most the oldest element, and only when the buffer is full
LosesOldest == [][ (op'.o \in {"push", "insh"} /\ Ids(q) \ Ids(q') # {}) => Len(q) = cap /\ Ids(q) \ Ids(q') = {q[1].id} ]_vars
ExcPure == [][ ret'.k = "exc" => q' = q /\ h' = h ]_vars

Vals == [i \in 1..Len(q) |-> q[i].val]
Obs == [size |-> Len(q), free |-> cap - Len(q), cap |-> cap, vals |-> Vals, fwd |-> Vals,
        rev |-> [i \in 1..Len(q) |-> q[Len(q) + 1 - i].val], live |-> Len(q),
        hv |-> [i \in 1..Cardinality(DOMAIN h) |-> IF Live(i - 1) THEN <<1, q[Pos(h[i-1])].val>> ELSE <<0>>]]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
