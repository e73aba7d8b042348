------------------------------ MODULE SharedPtr ------------------------------
(* sparta::SpartaSharedPointer, SpartaWeakPointer and the pooled allocator.      *)
(* Strong slots, one slot of a base class pointer, weak slots; an object may     *)
(* itself hold a strong reference to another (its link). An object dies when     *)
(* nothing refers to it any more, and then drops its link.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Cfgs, MOps, MaxO

VARIABLES cap,         \* blocks of the pool
          obj,         \* living objects: id -> [v, pool, next]
          st, base, wk,\* slot -> id (0 = null); a weak slot may name a dead object
          zomb,        \* dead pooled objects some weak slot still names: their block is not reused
          made,        \* blocks ever taken from fresh memory
          a0, op, ret
vars == <<cap, obj, st, base, wk, zomb, made, a0, op, ret>>
View == <<a0, cap, {<<i, obj[i]>> : i \in DOMAIN obj}, st, base, wk, zomb, made>>

S == DOMAIN st
W == DOMAIN wk
Count(o, s, b, i) == Cardinality({k \in DOMAIN s : s[k] = i}) + Cardinality({k \in DOMAIN b : b[k] = i}) + Cardinality({j \in DOMAIN o : o[j].next = i})
RECURSIVE Settle(_, _, _)
Settle(o, s, b) == LET gone == DOMAIN o \ (Range(s) \cup Range(b) \cup {o[i].next : i \in DOMAIN o})
                   IN IF gone = {} THEN o ELSE Settle([i \in DOMAIN o \ gone |-> o[i]], s, b)
Used == DOMAIN obj \cup Range(wk)
Fresh(k) == CHOOSE i \in 1..(Cardinality(Used) + k) : i \notin Used /\ Cardinality({j \in 1..i : j \notin Used}) = k
Busy == Cardinality({i \in DOMAIN obj : obj[i].pool} \cup zomb)
Free == made - Busy
Ok(v) == ret' = [k |-> "ok", v |-> v]
Same == UNCHANGED <<cap, obj, st, base, wk, zomb, made>>
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ Same
Q(v) == Ok(v) /\ Same
\* all effects of leaving objects o with references s, b, w
To(o, s, b, w, m) ==
    LET o2 == Settle(o, s, b)
        deadp == {i \in DOMAIN o \ DOMAIN o2 : o[i].pool} \cup zomb
    IN /\ obj' = o2 /\ st' = s /\ base' = b /\ wk' = w /\ made' = m
       /\ zomb' = deadp \cap Range(w) /\ UNCHANGED cap /\ Ok(<<>>)
Set(s, i) == To(obj, [st EXCEPT ![s] = i], base, wk, made)
Add(o, i, x) == [j \in DOMAIN o \cup {i} |-> IF j = i THEN x ELSE o[j]]
Take(n) == IF Free >= n THEN made ELSE made + (n - Free)      \* n blocks from the pool
Room(n) == Cardinality(DOMAIN obj) + n <= MaxO
New(s, v) == Room(1) /\ LET i == Fresh(1) IN To(Add(obj, i, [v |-> v, pool |-> FALSE, next |-> 0]), [st EXCEPT ![s] = i], base, wk, made)
Pool(s, v) == Room(1) /\ IF Busy >= cap THEN Exc ELSE LET i == Fresh(1) IN To(Add(obj, i, [v |-> v, pool |-> TRUE, next |-> 0]), [st EXCEPT ![s] = i], base, wk, Take(1))
\* the constructor of one pooled object makes another one
Nest(s, v) == Room(2) /\ IF Busy + 2 > cap THEN Exc
              ELSE LET i == Fresh(1)
                       j == Fresh(2)
                   IN To(Add(Add(obj, i, [v |-> v, pool |-> TRUE, next |-> j]), j, [v |-> v + 10, pool |-> TRUE, next |-> 0]), [st EXCEPT ![s] = i], base, wk, Take(2))
Alive(s) == st[s] # 0
Next1(s) == obj[st[s]].next
SetNext(s, i) == To([obj EXCEPT ![st[s]].next = i], st, base, wk, made)

Do(o, a) ==
    /\ UNCHANGED a0
    /\ op' = [o |-> o, a |-> a]
    /\ CASE o \in {"new", "newr"} -> New(a[1], a[2])
         [] o = "pool"   -> Pool(a[1], a[2])
         [] o = "poolx"  -> Exc                  \* the constructor throws
         [] o = "nest"   -> Nest(a[1], a[2])
         [] o \in {"copy", "copyc"} -> a[1] # a[2] /\ Set(a[1], st[a[2]])
         [] o = "selfc"  -> Exc
         [] o = "selfm"  -> Exc
         [] o \in {"move", "movec"} -> a[1] # a[2] /\ To(obj, [st EXCEPT ![a[1]] = st[a[2]], ![a[2]] = 0], base, wk, made)
         [] o \in {"null", "assn"} -> Set(a[1], 0)
         [] o = "next"   -> Alive(a[1]) /\ Set(a[2], Next1(a[1]))
         [] o = "nextm"  -> /\ Alive(a[1])
                            /\ To([obj EXCEPT ![st[a[1]]].next = 0], [st EXCEPT ![a[2]] = Next1(a[1])], base, wk, made)
         [] o = "link"   -> Alive(a[1]) /\ SetNext(a[1], st[a[2]])
         [] o = "linkm"  -> Alive(a[1]) /\ a[1] # a[2] /\ To([obj EXCEPT ![st[a[1]]].next = st[a[2]]], [st EXCEPT ![a[2]] = 0], base, wk, made)
         [] o = "unlink" -> Alive(a[1]) /\ SetNext(a[1], 0)
         [] o = "setv"   -> IF ~Alive(a[1]) THEN Exc ELSE To([obj EXCEPT ![st[a[1]]].v = a[2]], st, base, wk, made)
         [] o = "eq"     -> Q(<<IF st[a[1]] = st[a[2]] THEN 1 ELSE 0, IF st[a[1]] # st[a[2]] THEN 1 ELSE 0>>)
         [] o = "base"   -> a[1] \in DOMAIN base /\ To(obj, st, [base EXCEPT ![a[1]] = st[a[2]]], wk, made)
         [] o = "bnull"  -> a[1] \in DOMAIN base /\ To(obj, st, [base EXCEPT ![a[1]] = 0], wk, made)
         [] o \in {"weak", "weakc"} -> a[1] \in W /\ To(obj, st, base, [wk EXCEPT ![a[1]] = st[a[2]]], made)
         [] o = "wcopy"  -> \/ To(obj, st, base, [wk EXCEPT ![a[1]] = wk[a[2]]], made)
                            \* assigned to itself, a pointer to a dead object may let go of it
                            \/ /\ a[1] = a[2] /\ wk[a[1]] \in zomb /\ \A x \in W : x # a[1] => wk[x] # wk[a[1]]
                               /\ To(obj, st, base, [wk EXCEPT ![a[1]] = 0], made)
         [] o = "wmove"  -> a[1] # a[2] /\ To(obj, st, base, [wk EXCEPT ![a[1]] = wk[a[2]], ![a[2]] = 0], made)
         [] o = "wnull"  -> To(obj, st, base, [wk EXCEPT ![a[1]] = 0], made)
         [] o = "lock"   -> Set(a[1], IF wk[a[2]] \in DOMAIN obj THEN wk[a[2]] ELSE 0)
         [] OTHER -> FALSE
InitWith(a) == /\ a0 = a /\ cap = a[1] /\ obj = <<>> /\ zomb = {} /\ made = 0
               /\ st = [i \in 0..(a[2]-1) |-> 0] /\ base = [i \in 0..(a[3]-1) |-> 0] /\ wk = [i \in 0..(a[4]-1) |-> 0]
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
\* nothing that is referred to is dead, nothing alive is without reference
Sound == /\ Range(st) \cup Range(base) \cup {obj[i].next : i \in DOMAIN obj} \subseteq DOMAIN obj \cup {0}
         /\ \A i \in DOMAIN obj : Count(obj, st, base, i) > 0
         /\ zomb \cap DOMAIN obj = {} /\ zomb \subseteq Range(wk)
PoolBound == Busy <= made /\ made <= cap
ExcPure == [][ ret'.k = "exc" => obj' = obj /\ st' = st /\ wk' = wk /\ made' = made ]_vars
\* an object is changed by no one but who writes to it
Unchanged == [][ op'.o # "setv" => \A i \in DOMAIN obj \cap DOMAIN obj' : obj'[i].v = obj[i].v /\ obj'[i].pool = obj[i].pool ]_vars
\* fresh blocks are taken only when no recycled one is left
Recycle == [][ made' # made => Free < (IF op'.o = "nest" THEN 2 ELSE 1) ]_vars

See(i, n) == IF i = 0 THEN <<0>> ELSE <<1, obj[i].v, n, IF obj[i].next = 0 THEN 0 ELSE obj[obj[i].next].v>>
Values(ids) == LET q == SetToSeq(ids) IN SortSeq([k \in 1..Len(q) |-> obj[q[k]].v], LAMBDA x, y : x < y)
Obs == [st |-> [k \in 1..Cardinality(S) |-> See(st[k-1], Count(obj, st, base, st[k-1]))],
        ba |-> [k \in 1..Cardinality(DOMAIN base) |-> See(base[k-1], Count(obj, st, base, base[k-1]))],
        wk |-> [k \in 1..Cardinality(W) |-> IF wk[k-1] \in DOMAIN obj THEN <<0, Count(obj, st, base, wk[k-1])>> ELSE <<1, 0>>],
        live |-> Values(DOMAIN obj), err |-> 0, free |-> Free, made |-> made, out |-> IF Busy > 0 THEN 1 ELSE 0,
        outs |-> Values({i \in DOMAIN obj : obj[i].pool})]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
