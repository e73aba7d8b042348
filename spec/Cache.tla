------------------------------- MODULE Cache -------------------------------
(* Set associative caches over a memory: SimpleCache (type 1), which fetches,  *)
(* writes back and writes through by itself, and SimpleCache2 (type 2), whose   *)
(* user fills, touches and invalidates lines.                                   *)
(* case <type, policy (1 LRU, 2 tree PLRU), sets, ways, line size, stride>.      *)
(* Addresses are block numbers; three bytes of every line are watched.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps

VARIABLES p,        \* parameters
          line,     \* line[set][way] = [v, b, m, nt, d]: valid, block, modified, non-temporal, bytes
          pol,      \* per set: ways from least to most recently used (1), or the bits of the tree (2)
          mem,      \* blocks written, <<block, bytes>>: the rest of the memory reads as Blank
          mode,     \* <<write through, write allocate>>
          pnt,      \* per set: way of the last non-temporal fill
          st,       \* statistics of type 1
          a0, op, ret
vars == <<p, line, pol, mem, mode, pnt, st, a0, op, ret>>
View == <<a0, line, pol, mem, mode, pnt>>

Type == p[1]  Policy == p[2]  Sets == p[3]  Ways == p[4]
Cells == 3
Set(b) == (b % Sets) + 1
Blank(b) == [c \in 1..Cells |-> (7 * b + c) % 251]
Mem(b) == IF b \in DOMAIN mem THEN mem[b] ELSE Blank(b)
MemWith(f, b, d) == [x \in DOMAIN f \cup {b} |-> IF x = b THEN d ELSE f[x]]
Empty == [v |-> 0, b |-> 0, m |-> 0, nt |-> 0, d |-> <<>>]
Hits(b) == {w \in 1..Ways : line[Set(b)][w].v = 1 /\ line[Set(b)][w].b = b}
Hit(b) == Hits(b) # {}
Way(b) == CHOOSE w \in Hits(b) : TRUE
Invalid(k) == {w \in 1..Ways : line[k][w].v = 0}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

(* ---- replacement ---- *)
Without(q, w) == SelectSeq(q, LAMBDA x : x # w)
RECURSIVE Log(_), Down(_, _, _, _), Up(_, _, _)
Log(n) == IF n <= 1 THEN 0 ELSE 1 + Log(n \div 2)
\* bit of a node: the half to replace from; dir = 0 follows the bits, 1 goes against them
Down(t, i, l, dir) == IF l = 0 THEN i - Ways + 1 ELSE Down(t, 2 * i + (IF dir = 0 THEN t[i] ELSE 1 - t[i]), l - 1, dir)
\* make the bits on the path to a leaf point to it (to = 1) or away
Up(t, i, to) == IF i = 1 THEN t ELSE Up([t EXCEPT ![i \div 2] = IF to = 1 THEN i % 2 ELSE 1 - (i % 2)], i \div 2, to)
LRU(k) == IF Policy = 1 THEN pol[k][1] ELSE Down(pol[k], 1, Log(Ways), 0)
MRU(k) == IF Policy = 1 THEN pol[k][Ways] ELSE Down(pol[k], 1, Log(Ways), 1)
New(pl, k, w, recent) == [pl EXCEPT ![k] = IF Policy = 1 THEN (IF recent THEN Append(Without(@, w), w) ELSE <<w>> \o Without(@, w))
                                           ELSE Up(@, w + Ways - 1, IF recent THEN 0 ELSE 1)]
Fresh == IF Policy = 1 THEN [i \in 1..Ways |-> i] ELSE [i \in 1..Ways |-> 0]
Touch(k, w) == pol' = New(pol, k, w, TRUE)

Ok(v) == ret' = [k |-> "ok", v |-> v]
Exc == ret' = [k |-> "exc", v |-> <<>>]
Same == UNCHANGED <<line, pol, mem, mode, pnt, st>>
Stat(c) == st' = [i \in 1..8 |-> st[i] + (IF i \in c THEN 1 ELSE 0)]
Put(l, k, w, x) == [l EXCEPT ![k][w] = x]

(* ---- type 1: statistics are castouts, reloads, reads, writes, read misses, write misses, next level, getLine misses ---- *)
Victim(b) == line[Set(b)][LRU(Set(b))]
Dirty(b) == Victim(b).v = 1 /\ Victim(b).m = 1
After(b) == IF Dirty(b) THEN MemWith(mem, Victim(b).b, Victim(b).d) ELSE mem           \* memory once the victim is written back
Filled(b) == [v |-> 1, b |-> b, m |-> 0, nt |-> 0, d |-> IF b \in DOMAIN After(b) THEN After(b)[b] ELSE Blank(b)]
At(b) == IF Hit(b) THEN Way(b) ELSE LRU(Set(b))
Access(b, cs) ==        \* bring the block in; what the line is then
    /\ Touch(Set(b), At(b))
    /\ mem' = IF Hit(b) THEN mem ELSE After(b)
    /\ Stat(cs \cup (IF Hit(b) THEN {} ELSE {2} \cup (IF Dirty(b) THEN {1} ELSE {})))
    /\ UNCHANGED <<mode, pnt>>
Here(b) == IF Hit(b) THEN line[Set(b)][Way(b)] ELSE Filled(b)
With(d, c, n, x) == [i \in 1..Cells |-> IF i >= c /\ i < c + n THEN x + i ELSE d[i]]
Read1(b, c, n) == /\ Access(b, {3} \cup (IF Hit(b) THEN {} ELSE {5})) /\ line' = Put(line, Set(b), At(b), Here(b)) /\ Ok(SubSeq(Here(b).d, c, c + n - 1))
Line1(b) == /\ Access(b, IF Hit(b) THEN {} ELSE {8}) /\ line' = Put(line, Set(b), At(b), Here(b)) /\ Ok(<<At(b)>>)
Write1(b, c, n, x) ==
    LET in == Hit(b) \/ mode[2] = 1  through == mode[1] = 1 \/ ~in
        m1 == IF Hit(b) \/ ~in THEN mem ELSE After(b)
    IN /\ IF in THEN Touch(Set(b), At(b)) /\ line' = Put(line, Set(b), At(b), [Here(b) EXCEPT !.m = 1, !.d = With(@, c, n, x)]) ELSE UNCHANGED <<pol, line>>
       /\ mem' = IF through THEN MemWith(m1, b, With(IF b \in DOMAIN m1 THEN m1[b] ELSE Blank(b), c, n, x)) ELSE m1
       /\ Stat({4} \cup (IF Hit(b) THEN {} ELSE {6} \cup (IF in THEN {2} \cup (IF Dirty(b) THEN {1} ELSE {}) ELSE {})) \cup (IF through THEN {7} ELSE {}))
       /\ UNCHANGED <<mode, pnt>> /\ Ok(<<>>)

(* ---- type 2 ---- *)
Fill(b, w, nt) == /\ line' = Put(line, Set(b), w, [v |-> 1, b |-> b, m |-> 0, nt |-> nt, d |-> Blank(b)]) /\ Touch(Set(b), w)
                  /\ pnt' = (IF nt = 1 THEN [pnt EXCEPT ![Set(b)] = w] ELSE pnt) /\ UNCHANGED <<mem, mode, st>> /\ Ok(<<w>>)
ReplaceNT(k) == IF line[k][1].nt = 0 THEN 1 ELSE IF line[k][2].nt = 0 THEN 2 ELSE IF pnt[k] = 1 THEN 1 ELSE 2

Do(o, a) ==
    /\ UNCHANGED <<p, a0>> /\ op' = [o |-> o, a |-> a]
    /\ CASE o = "hit"   -> Same /\ Ok(<<IF Hit(a[1]) THEN Way(a[1]) ELSE 0>>)
         [] o = "open"  -> Same /\ Ok(<<IF Invalid(Set(a[1])) = {} THEN 0 ELSE Min(Invalid(Set(a[1])))>>)
         [] o = "invall" -> /\ line' = [k \in 1..Sets |-> [w \in 1..Ways |-> [Empty EXCEPT !.nt = line[k][w].nt]]] /\ UNCHANGED <<mem, mode, pnt, st>> /\ Ok(<<>>)
                            /\ pol' = (IF Policy = 1 THEN pol ELSE [k \in 1..Sets |-> Fresh])
         \* type 1
         [] o = "read"  -> Type = 1 /\ Read1(a[1], a[2], a[3])
         [] o = "line"  -> Type = 1 /\ Line1(a[1])
         [] o = "write" -> Type = 1 /\ Write1(a[1], a[2], a[3], a[4])
         [] o = "hitc"  -> Type = 1 /\ Same /\ Ok(IF Hit(a[1]) THEN <<1, 0>> ELSE IF Victim(a[1]).v = 0 THEN <<0, 0>> ELSE <<0, 1, Victim(a[1]).b, Victim(a[1]).m>>)
         [] o = "inv"   -> Type = 1 /\ UNCHANGED <<mem, mode, pnt, st>> /\
                           IF ~Hit(a[1]) THEN Exc /\ UNCHANGED <<line, pol>>
                           ELSE Ok(<<>>) /\ line' = Put(line, Set(a[1]), Way(a[1]), Empty) /\ pol' = New(pol, Set(a[1]), Way(a[1]), FALSE)
         [] o = "mode"  -> Type = 1 /\ mode' = <<a[1], a[2]>> /\ UNCHANGED <<line, pol, mem, pnt, st>> /\ Ok(<<>>)
         [] o = "clear" -> Type = 1 /\ st' = [i \in 1..8 |-> 0] /\ UNCHANGED <<line, pol, mem, pnt, mode>> /\ Ok(<<>>)
         \* type 2
         [] o = "fill"  -> Type = 2 /\ ~Hit(a[1]) /\ Fill(a[1], LRU(Set(a[1])), 0)
         [] o = "filli" -> Type = 2 /\ ~Hit(a[1]) /\ Fill(a[1], IF Invalid(Set(a[1])) = {} THEN LRU(Set(a[1])) ELSE Min(Invalid(Set(a[1]))), 0)
         [] o = "fillnt" -> Type = 2 /\ Ways >= 2 /\ ~Hit(a[1]) /\ Fill(a[1], IF a[2] = 1 THEN ReplaceNT(Set(a[1])) ELSE LRU(Set(a[1])), a[2])
         [] o = "rd"    -> Type = 2 /\ Hit(a[1]) /\ Touch(Set(a[1]), Way(a[1])) /\ Ok(SubSeq(line[Set(a[1])][Way(a[1])].d, a[2], a[2] + a[3] - 1)) /\ UNCHANGED <<line, mem, mode, pnt, st>>
         [] o = "wr"    -> Type = 2 /\ Hit(a[1]) /\ Touch(Set(a[1]), Way(a[1])) /\ line' = [line EXCEPT ![Set(a[1])][Way(a[1])].m = 1, ![Set(a[1])][Way(a[1])].d = With(@, a[2], a[3], a[4])]
                           /\ Ok(<<>>) /\ UNCHANGED <<mem, mode, pnt, st>>
         [] o = "drop"  -> Type = 2 /\ Hit(a[1]) /\ line' = Put(line, Set(a[1]), Way(a[1]), Empty) /\ pol' = New(pol, Set(a[1]), Way(a[1]), FALSE) /\ Ok(<<>>) /\ UNCHANGED <<mem, mode, pnt, st>>
         [] o = "mru"   -> Type = 2 /\ Hit(a[1]) /\ Touch(Set(a[1]), Way(a[1])) /\ Ok(<<>>) /\ UNCHANGED <<line, mem, mode, pnt, st>>
         [] o = "lru"   -> Type = 2 /\ Hit(a[1]) /\ pol' = New(pol, Set(a[1]), Way(a[1]), FALSE) /\ Ok(<<>>) /\ UNCHANGED <<line, mem, mode, pnt, st>>
         [] OTHER -> FALSE
InitWith(a) == /\ a0 = a /\ p = a /\ mem = <<>> /\ mode = <<0, 0>> /\ st = [i \in 1..8 |-> 0]
               /\ line = [k \in 1..a[3] |-> [w \in 1..a[4] |-> Empty]]
               /\ pol = [k \in 1..a[3] |-> IF a[2] = 1 THEN [i \in 1..a[4] |-> i] ELSE [i \in 1..a[4] |-> 0]]
               /\ pnt = [k \in 1..a[3] |-> 1]
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Blocks == {line[k][w].b : k \in 1..Sets, w \in 1..Ways} \cup DOMAIN mem
\* no block is in the cache twice, and every block only in its set
Once == \A k \in 1..Sets : \A w \in 1..Ways : line[k][w].v = 1 => Set(line[k][w].b) = k /\ Hits(line[k][w].b) = {w}
\* the way to replace is not the one touched last
Policies == \A k \in 1..Sets : Ways > 1 => LRU(k) # MRU(k)
\* a clean line holds what the memory holds
Clean == Type = 1 => \A k \in 1..Sets : \A w \in 1..Ways : line[k][w].v = 1 /\ line[k][w].m = 0 => line[k][w].d = Mem(line[k][w].b)
\* one access changes lines of one set, and at most one of them
OneWay == [][op'.o # "invall" => Cardinality({<<k, w>> \in (1..Sets) \X (1..Ways) : line'[k][w] # line[k][w]}) <= 1]_vars
\* what a program sees of the memory only changes by its own writes (or by dropping modified lines)
Seen(b) == IF Hit(b) THEN line[Set(b)][Way(b)].d ELSE Mem(b)
Coherent == [][Type = 1 /\ op'.o \notin {"inv", "invall"} => \A b \in Blocks : (op'.o = "write" /\ op'.a[1] = b) \/ Seen(b)' = Seen(b)]_vars
LastTouched(b) == \A k \in {Set(b)} : Hits(b) = {MRU(k)}
Touched == [][pol' # pol /\ op'.o \in {"read", "line", "write", "fill", "filli", "fillnt", "rd", "wr", "mru"} => LastTouched(op.a[1])']_vars

(* ---- binding ---- *)
Obs == [l |-> [k \in 1..Sets |-> LET F(w) == IF line[k][w].v = 0 THEN <<0>> ELSE <<1, line[k][w].b, line[k][w].m, line[k][w].nt>> \o line[k][w].d
                                     G[w \in 0..Ways] == IF w = 0 THEN <<>> ELSE G[w - 1] \o F(w) IN G[Ways]],
        r |-> [k \in 1..Sets |-> <<LRU(k), MRU(k)>>], st |-> st]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
