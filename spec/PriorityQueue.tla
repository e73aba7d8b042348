---------------------------- MODULE PriorityQueue ----------------------------
(* sparta::PriorityQueue: an element is inserted in front of the first element *)
(* it has to precede, so elements are ordered by key and, within a key, by      *)
(* insertion, except for the ones forced to the front. A value v has key v\10.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps, MaxL

VARIABLES cap, dir,    \* 0 = unbounded; 1 = smallest key first, -1 = largest first
          q, h,        \* elements [id, val]; handle -> id of an element (0 = none)
          forced,      \* something was forced to the front since the queue was empty
          a0, op, ret
vars == <<cap, dir, q, h, forced, a0, op, ret>>
View == <<a0, cap, dir, q, h, forced>>

Ids(s) == {s[i].id : i \in 1..Len(s)}
Used == Ids(q) \cup {h[i] : i \in DOMAIN h}
Fresh == CHOOSE i \in 1..(Cardinality(Used) + 1) : i \notin Used /\ \A j \in 1..(i-1) : j \in Used
PosIn(s, id) == IF \E i \in 1..Len(s) : s[i].id = id THEN CHOOSE i \in 1..Len(s) : s[i].id = id ELSE 0
Key(v) == v \div 10
Before(v, w) == dir * (Key(w) - Key(v)) > 0
Ok(v) == ret' = [k |-> "ok", v |-> v]
Same == UNCHANGED <<cap, dir, q, h, forced>>
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ Same
Q(v) == Ok(v) /\ Same
To(s, f) == /\ q' = s /\ forced' = (s # <<>> /\ (forced \/ f)) /\ h' = [i \in DOMAIN h |-> IF h[i] \in Ids(s) THEN h[i] ELSE 0] /\ UNCHANGED <<cap, dir>> /\ Ok(<<>>)
Full == cap > 0 /\ Len(q) = cap
At(p, v, f) == To(SubSeq(q, 1, p - 1) \o <<[id |-> Fresh, val |-> v]>> \o SubSeq(q, p, Len(q)), f)
First(v) == IF \E i \in 1..Len(q) : Before(v, q[i].val)
            THEN CHOOSE i \in 1..Len(q) : Before(v, q[i].val) /\ \A j \in 1..(i-1) : ~Before(v, q[j].val)
            ELSE Len(q) + 1
Insert(v) == IF Full THEN Exc ELSE At(First(v), v, FALSE)
Force(v) == IF Full THEN Exc ELSE At(1, v, TRUE)
Del(p) == To(SubSeq(q, 1, p - 1) \o SubSeq(q, p + 1, Len(q)), FALSE)
Remove(v) == To(SelectSeq(q, LAMBDA e : e.val # v), FALSE)
RemAt(i) == i < Len(q) /\ Remove(q[i+1].val)      \* named by a reference into the queue

Do(o, a) ==
    /\ UNCHANGED a0
    /\ op' = [o |-> o, a |-> a]
    /\ CASE o = "insert" -> Insert(a[1])
         [] o = "force"  -> Force(a[1])
         [] o = "pop"    -> IF q = <<>> THEN Exc ELSE Del(1)
         [] o = "top"    -> IF q = <<>> THEN Exc ELSE Q(<<q[1].val>>)
         [] o = "back"   -> IF q = <<>> THEN Exc ELSE Q(<<q[Len(q)].val>>)
         [] o = "clear"  -> To(<<>>, FALSE)
         [] o = "remove" -> Remove(a[1])
         [] o = "remat"  -> RemAt(a[1])
         [] o = "erase"  -> a[1] < Len(q) /\ Del(a[1] + 1)
         [] o = "hset"   -> a[2] < Len(q) /\ h' = [h EXCEPT ![a[1]] = q[a[2]+1].id] /\ UNCHANGED <<cap, dir, q, forced>> /\ Ok(<<>>)
         [] o = "hget"   -> h[a[1]] # 0 /\ Q(<<q[PosIn(q, h[a[1]])].val>>)
         [] o = "herase" -> h[a[1]] # 0 /\ Del(PosIn(q, h[a[1]]))
         [] o = "hinc"   -> /\ h[a[1]] # 0 /\ UNCHANGED <<cap, dir, q, forced>> /\ Ok(<<>>)
                            /\ LET p == PosIn(q, h[a[1]]) IN h' = [h EXCEPT ![a[1]] = IF p = Len(q) THEN 0 ELSE q[p+1].id]
         [] OTHER -> FALSE
InitWith(a) == /\ a0 = a /\ cap = a[1] /\ dir = a[2] /\ q = <<>> /\ forced = FALSE /\ h = [i \in 0..(a[3]-1) |-> 0]
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars
\* a bound for unbounded queues in the model
Small == Len(q) <= MaxL

(* ---- properties ---- *)
TypeOK == /\ cap > 0 => Len(q) <= cap
          /\ \A i, j \in 1..Len(q) : i # j => q[i].id # q[j].id
Ordered == ~forced => \A i, j \in 1..Len(q) : i < j => ~Before(q[j].val, q[i].val)
Stable == [][ \A i, j \in 1..Len(q) :
                (i < j /\ q[i].id \in Ids(q') /\ q[j].id \in Ids(q')) => PosIn(q', q[i].id) < PosIn(q', q[j].id) ]_vars
\* a new element goes in front of the first element it has to precede
Ties == [][ (op'.o = "insert" /\ ret'.k = "ok") =>
              \A n \in 1..Len(q') : q'[n].id \notin Ids(q) =>
                 /\ \A i \in 1..(n-1) : ~Before(q'[n].val, q'[i].val)
                 /\ n < Len(q') => Before(q'[n].val, q'[n+1].val) ]_vars
OnlyNamed == [][ /\ op'.o \in {"pop", "erase", "herase"} => Cardinality(Ids(q) \ Ids(q')) <= 1
                 /\ op'.o \in {"insert", "force", "top", "back", "hset", "hget", "hinc"} => Ids(q) \subseteq Ids(q') ]_vars
ExcPure == [][ ret'.k = "exc" => q' = q /\ h' = h ]_vars

Obs == [size |-> Len(q), empty |-> IF q = <<>> THEN 1 ELSE 0, vals |-> [i \in 1..Len(q) |-> q[i].val], live |-> Len(q),
        hv |-> [i \in 1..Cardinality(DOMAIN h) |-> IF h[i-1] # 0 THEN q[PosIn(q, h[i-1])].val ELSE -1]]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
