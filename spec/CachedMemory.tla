----------------------------- MODULE CachedMemory ----------------------------
(* sparta::memory::CachedMemory: what one core sees is the memory downstream with *)
(* its own writes that are not committed on top. Which blocks are cached (al)     *)
(* makes no difference to anybody.                                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps

VARIABLES bs, total, mark,
          mem,         \* downstream
          pend,        \* writes not yet committed: [id, a, n, x], oldest first
          nid, al,
          a0, op, ret
vars == <<bs, total, mark, mem, pend, nid, al, a0, op, ret>>
View == <<a0, mem, [k \in DOMAIN pend |-> <<pend[k].a, pend[k].n, pend[k].x>>], al>>

Byte(x, a, i) == (x + i - a) % 256
Ok(v) == ret' = [k |-> "ok", v |-> v]
Same == UNCHANGED <<mem, pend, nid, al>>
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ Same
Covers(w, i) == i >= w.a /\ i < w.a + w.n
Owned(i) == {k \in DOMAIN pend : Covers(pend[k], i)}
Seen(i) == IF Owned(i) = {} THEN mem[i] ELSE LET k == CHOOSE k \in Owned(i) : \A j \in Owned(i) : j <= k IN Byte(pend[k].x, pend[k].a, i)
In(a, n) == a >= 0 /\ a + n <= total
OneBlock(a, n) == a \div bs = (a + n - 1) \div bs
Blk(a, n) == {i \div bs : i \in a..(a + n - 1)}
Bytes(a, n) == [i \in 1..n |-> Seen(a + i - 1)]
Put(a, n, x) == [i \in DOMAIN mem |-> IF i >= a /\ i < a + n THEN Byte(x, a, i) ELSE mem[i]]
Free(a, n) == \A i \in a..(a + n - 1) : Owned(i) = {}

Do(o, a) ==
    /\ UNCHANGED <<a0, bs, total, mark>> /\ op' = [o |-> o, a |-> a]
    /\ CASE o = "read"   -> IF In(a[1], a[2]) /\ OneBlock(a[1], a[2]) THEN Ok(Bytes(a[1], a[2])) /\ Same ELSE Exc
         [] o = "peek"   -> IF In(a[1], a[2]) THEN Ok(Bytes(a[1], a[2])) /\ Same ELSE Exc
         [] o = "write"  -> IF ~In(a[1], a[2]) \/ ~OneBlock(a[1], a[2]) \/ Len(pend) = mark THEN Exc
                            ELSE /\ pend' = Append(pend, [id |-> nid, a |-> a[1], n |-> a[2], x |-> a[3]]) /\ nid' = nid + 1
                                 /\ al' = al \cup Blk(a[1], a[2]) /\ UNCHANGED mem /\ Ok(<<>>)
         \* what becomes of a poke of bytes that are written but not committed is left open
         [] o = "poke"   -> IF ~In(a[1], a[2]) THEN Exc
                            ELSE Free(a[1], a[2]) /\ mem' = Put(a[1], a[2], a[3]) /\ al' = al \cup Blk(a[1], a[2]) /\ UNCHANGED <<pend, nid>> /\ Ok(<<>>)
         \* the k-th of the writes not committed (or one that was, or never was)
         [] o = "commit" -> IF pend # <<>> /\ a[1] = 1 THEN /\ mem' = Put(pend[1].a, pend[1].n, pend[1].x) /\ pend' = Tail(pend) /\ UNCHANGED <<nid, al>> /\ Ok(<<>>)
                            ELSE Exc
         [] o = "drop"   -> IF a[1] \in DOMAIN pend THEN pend' = SubSeq(pend, 1, a[1] - 1) /\ UNCHANGED <<mem, nid, al>> /\ Ok(<<>>) ELSE Exc
         \* another core's write reaches the system's memory and is merged into this one
         [] o = "other"  -> mem' = Put(a[1], a[2], a[3]) /\ UNCHANGED <<pend, nid, al>> /\ Ok(<<>>)
         [] o = "find"   -> Ok([k \in 1..Cardinality(Owned(a[1])) |-> pend[CHOOSE j \in Owned(a[1]) : Cardinality({i \in Owned(a[1]) : i <= j}) = k].id]) /\ Same
         [] OTHER -> FALSE
InitWith(a) == /\ a0 = a /\ bs = a[1] /\ total = a[2] /\ mark = a[3] /\ mem = [i \in 0..(a[2] - 1) |-> 100 + i] /\ pend = <<>> /\ nid = 1 /\ al = {}
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
InOrder == \A i, j \in DOMAIN pend : i < j => pend[i].id < pend[j].id
Bounded == Len(pend) <= mark
\* nothing but the core's own writes and drops, others' writes and pokes changes what the core sees; a commit never does
CommitUnseen == [][ op'.o = "commit" => \A i \in DOMAIN mem : Seen(i)' = Seen(i) ]_vars
\* speculation stays private
Private == [][ op'.o \in {"write", "drop", "read", "peek", "find"} => mem' = mem ]_vars
ExcPure == [][ ret'.k = "exc" => Same ]_vars

Obs == [see |-> [i \in 1..total |-> Seen(i - 1)], mem |-> [i \in 1..total |-> mem[i - 1]], n |-> Len(pend), ids |-> [k \in DOMAIN pend |-> pend[k].id],
        last |-> IF pend = <<>> THEN 0 ELSE pend[Len(pend)].id]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
