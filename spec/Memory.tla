------------------------------- MODULE Memory -------------------------------
(* sparta::memory::MemoryObject behind a BlockingMemoryObjectIFNode: an array of *)
(* bytes. Blocks are allocated when first written, which nobody can see; al      *)
(* keeps the ones that were, so that both ways of reading are explored.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps

VARIABLES bs, total, fs,   \* block size, total size, size of the fill pattern
          mem, al,
          obsv,            \* accesses are observed by somebody
          cnt,             \* read and write calls
          a0, op, ret
vars == <<bs, total, fs, mem, al, obsv, cnt, a0, op, ret>>
View == <<a0, mem, al, obsv>>

Data(x, n) == [i \in 1..n |-> (x + i - 1) % 256]
Fill == [i \in 0..(total - 1) |-> 17 * (((i % bs) % fs) + 1)]
In(a, n) == a >= 0 /\ n <= total /\ a + n <= total
OneBlock(a, n) == a \div bs = (a + n - 1) \div bs
Bytes(a, n) == [i \in 1..n |-> mem[a + i - 1]]
Put(a, x, n) == [i \in 0..(total - 1) |-> IF i >= a /\ i < a + n THEN (x + i - a) % 256 ELSE mem[i]]
Blocks(a, n) == {b \in 0..(total \div bs - 1) : \E i \in a..(a + n - 1) : i \div bs = b}
Cfg == UNCHANGED <<bs, total, fs, obsv>>
Cnt(k) == cnt' = [cnt EXCEPT ![k] = @ + 1]
Ok(v) == ret' = [k |-> "ok", v |-> v]
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ UNCHANGED <<mem, al>>
Refused == Ok(<<0>>) /\ UNCHANGED <<mem, al>>        \* a try that failed
Got(a, n, seen) == Ok(<<1>> \o Bytes(a, n) \o (IF seen /\ obsv = 1 THEN <<a, n>> \o Bytes(a, n) ELSE <<>>)) /\ UNCHANGED <<mem, al>>
Set(a, n, x, seen) ==
    /\ mem' = Put(a, x, n) /\ al' = al \cup Blocks(a, n)
    /\ Ok(<<1>> \o (IF seen /\ obsv = 1 THEN <<a, n>> \o Bytes(a, n) \o Data(x, n) ELSE <<>>))
Fits(a, n) == In(a, n) /\ OneBlock(a, n)

Do(o, a) ==
    /\ UNCHANGED a0 /\ op' = [o |-> o, a |-> a]
    /\ (o \in {"read", "tread"} => Cnt(1)) /\ (o \in {"write", "twrite"} => Cnt(2)) /\ (o \notin {"read", "tread", "write", "twrite"} => UNCHANGED cnt)
    /\ CASE o = "read"   -> Cfg /\ IF Fits(a[1], a[2]) THEN Got(a[1], a[2], TRUE) ELSE Exc
         [] o = "tread"  -> Cfg /\ IF Fits(a[1], a[2]) THEN Got(a[1], a[2], TRUE) ELSE Refused
         [] o = "write"  -> Cfg /\ IF Fits(a[1], a[2]) THEN Set(a[1], a[2], a[3], TRUE) ELSE Exc
         [] o = "twrite" -> Cfg /\ IF Fits(a[1], a[2]) THEN Set(a[1], a[2], a[3], TRUE) ELSE Refused
         [] o = "peek"   -> Cfg /\ IF In(a[1], a[2]) THEN Got(a[1], a[2], FALSE) ELSE Exc
         [] o = "tpeek"  -> Cfg /\ IF In(a[1], a[2]) THEN Got(a[1], a[2], FALSE) ELSE Refused
         [] o = "poke"   -> Cfg /\ IF In(a[1], a[2]) THEN Set(a[1], a[2], a[3], FALSE) ELSE Exc
         [] o = "tpoke"  -> Cfg /\ IF In(a[1], a[2]) THEN Set(a[1], a[2], a[3], FALSE) ELSE Refused
         \* the memory object itself
         [] o = "oread"  -> Cfg /\ IF Fits(a[1], a[2]) THEN Got(a[1], a[2], FALSE) ELSE Exc
         [] o = "owrite" -> Cfg /\ IF Fits(a[1], a[2]) THEN Set(a[1], a[2], a[3], FALSE) ELSE Exc
         \* through the DMI of the block of address a[1] (which may be none)
         [] o = "dread"  -> Cfg /\ IF ~In(a[1], 1) THEN Refused
                            ELSE IF Fits(a[2], a[3]) /\ a[2] \div bs = a[1] \div bs THEN Got(a[2], a[3], FALSE) ELSE Refused
         [] o = "dwrite" -> Cfg /\ IF ~In(a[1], 1) THEN Refused
                            ELSE IF Fits(a[2], a[3]) /\ a[2] \div bs = a[1] \div bs THEN Set(a[2], a[3], a[4], FALSE) ELSE Refused
         [] o = "dmi"    -> Cfg /\ IF In(a[1], a[2]) /\ OneBlock(a[1], a[2]) THEN Ok(<<a[1] - (a[1] % bs), bs>>) /\ UNCHANGED <<mem, al>> ELSE Refused
         [] o = "nodmi"  -> Cfg /\ Ok(<<>>) /\ UNCHANGED <<mem, al>>
         [] o = "clean"  -> Cfg /\ mem' = Fill /\ al' = {} /\ Ok(<<>>)
         [] o = "observe" -> UNCHANGED <<bs, total, fs, mem, al>> /\ obsv' = a[1] /\ Ok(<<>>)
         [] OTHER -> FALSE
InitWith(a) == /\ a0 = a /\ bs = a[1] /\ total = a[2] /\ fs = a[3] /\ mem = [i \in 0..(a[2] - 1) |-> 17 * (((i % a[1]) % a[3]) + 1)] /\ al = {} /\ obsv = 0 /\ cnt = <<0, 0>>
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Lazy == \A i \in DOMAIN mem : i \div bs \notin al => mem[i] = Fill[i]
Writes == {"write", "twrite", "poke", "tpoke", "owrite"}
OnlyNamed == [][ \A i \in DOMAIN mem : mem'[i] # mem[i] =>
                   \/ op'.o = "clean"
                   \/ op'.o \in Writes /\ i >= op'.a[1] /\ i < op'.a[1] + op'.a[2]
                   \/ op'.o = "dwrite" /\ i >= op'.a[2] /\ i < op'.a[2] + op'.a[3] /\ i \div bs = op'.a[1] \div bs ]_vars
RefusedPure == [][ ret'.k = "exc" \/ (ret'.v # <<>> /\ ret'.v[1] = 0 /\ op'.o # "dmi") => UNCHANGED <<mem, al>> ]_vars

Obs == [m |-> [i \in 1..total |-> mem[i - 1]], nr |-> cnt[1], nw |-> cnt[2]]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
