------------------------------- MODULE MemMap -------------------------------
(* sparta::memory::SimpleMemoryMap(Node): address ranges mapped to devices.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps

VARIABLES bs, win,   \* block size, size of the map's access window
          dsz,       \* size of each device
          maps,      \* mappings in the order they were added: [s, e, d, off]
          mem,       \* contents of the devices
          a0, op, ret
vars == <<bs, win, dsz, maps, mem, a0, op, ret>>
View == <<a0, maps, mem>>

Data(x, n) == [i \in 1..n |-> (x + i - 1) % 256]
Ok(v) == ret' = [k |-> "ok", v |-> v]
Same == UNCHANGED <<maps, mem>>
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ Same
Q(v) == Ok(v) /\ Same
Hit(a) == {i \in DOMAIN maps : maps[i].s <= a /\ a < maps[i].e}
Dev(a) == LET m == maps[CHOOSE i \in Hit(a) : TRUE] IN <<m.d, a - m.s + m.off>>
Look(a) == IF Hit(a) = {} THEN <<0, 0>> ELSE Dev(a)
In(a, n) == a >= 0 /\ a + n <= win
OneBlock(a, n) == a \div bs = (a + n - 1) \div bs
Mapped(a, n) == \A i \in a..(a + n - 1) : Hit(i) # {}
Bytes(a, n) == [i \in 1..n |-> LET x == Dev(a + i - 1) IN mem[x[1]][x[2]]]
Put(a, n, x) == [d \in DOMAIN mem |-> [i \in DOMAIN mem[d] |->
                    IF \E k \in a..(a + n - 1) : Dev(k) = <<d, i>>
                    THEN (x + (CHOOSE k \in a..(a + n - 1) : Dev(k) = <<d, i>> /\ \A k2 \in a..(a + n - 1) : Dev(k2) = <<d, i>> => k2 <= k) - a) % 256
                    ELSE mem[d][i]]]
Add(s, e, d, off) ==
    IF s >= e \/ s % bs # 0 \/ e % bs # 0 \/ off % bs # 0 \/ (e - s) + off > dsz \/ \E a \in s..(e - 1) : Hit(a) # {} THEN Exc
    ELSE maps' = Append(maps, [s |-> s, e |-> e, d |-> d, off |-> off]) /\ UNCHANGED mem /\ Ok(<<>>)
Get(a, n) == Q(<<1>> \o Bytes(a, n))
Set(a, n, x) == mem' = Put(a, n, x) /\ UNCHANGED maps /\ Ok(<<1>>)
Fits(a, n) == In(a, n) /\ OneBlock(a, n) /\ Mapped(a, n)
All(a, n) == In(a, n) /\ Mapped(a, n)

Do(o, a) ==
    /\ UNCHANGED <<a0, bs, win, dsz>> /\ op' = [o |-> o, a |-> a]
    /\ CASE o = "add"    -> Add(a[1], a[2], a[3], a[4])
         [] o = "read"   -> IF Fits(a[1], a[2]) THEN Get(a[1], a[2]) ELSE Exc
         [] o = "tread"  -> IF Fits(a[1], a[2]) THEN Get(a[1], a[2]) ELSE Q(<<0>>)
         [] o = "write"  -> IF Fits(a[1], a[2]) THEN Set(a[1], a[2], a[3]) ELSE Exc
         [] o = "twrite" -> IF Fits(a[1], a[2]) THEN Set(a[1], a[2], a[3]) ELSE Q(<<0>>)
         [] o = "peek"   -> IF All(a[1], a[2]) THEN Get(a[1], a[2]) ELSE Exc
         [] o = "tpeek"  -> IF All(a[1], a[2]) THEN Get(a[1], a[2]) ELSE Q(<<0>>)
         [] o = "poke"   -> IF All(a[1], a[2]) THEN Set(a[1], a[2], a[3]) ELSE Exc
         [] o = "tpoke"  -> IF All(a[1], a[2]) THEN Set(a[1], a[2], a[3]) ELSE Q(<<0>>)
         [] o = "has"    -> IF Hit(a[1]) # {} /\ \A i \in (a[1] + 1)..(a[1] + a[2] - 1) : Hit(i) = Hit(a[1]) THEN Q(<<>>) ELSE Exc
         [] o = "dmi"    -> IF Hit(a[1]) # {} /\ OneBlock(a[1], a[2]) THEN Q(<<1, Dev(a[1])[2] - (Dev(a[1])[2] % bs), bs>>) ELSE Q(<<0>>)
         [] o = "dev"    -> mem' = [mem EXCEPT ![a[1]][a[2]] = a[3]] /\ UNCHANGED maps /\ Ok(<<>>)      \* a device changes by itself
         [] OTHER -> FALSE
InitWith(a) == /\ a0 = a /\ bs = a[1] /\ win = a[2] /\ dsz = a[4] /\ maps = <<>> /\ mem = [d \in 1..a[3] |-> [i \in 0..(a[4] - 1) |-> 16 + d]]
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Disjoint == \A i, j \in DOMAIN maps : i # j => maps[i].e <= maps[j].s \/ maps[j].e <= maps[i].s
OneDevice == \A a \in 0..(win - 1) : Cardinality(Hit(a)) <= 1
Kept == [][ /\ Len(maps') >= Len(maps) /\ SubSeq(maps', 1, Len(maps)) = maps
            /\ ret'.k = "exc" => Same
            /\ op'.o \in {"write", "twrite", "poke", "tpoke"} /\ mem' # mem =>
                  \A d \in DOMAIN mem : \A i \in DOMAIN mem[d] : mem'[d][i] # mem[d][i] =>
                     \E k \in op'.a[1]..(op'.a[1] + op'.a[2] - 1) : Dev(k) = <<d, i>> ]_vars

\* what every address leads to: the first and last byte of every block
Obs == [t |-> [i \in 1..(win \div bs) |-> Look((i - 1) * bs) \o Look(i * bs - 1)], n |-> Len(maps), m |-> [d \in DOMAIN mem |-> [i \in 1..dsz |-> mem[d][i - 1]]],
        l |-> [i \in DOMAIN maps |-> <<maps[i].s, maps[i].e, maps[i].d, maps[i].off>>]]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
