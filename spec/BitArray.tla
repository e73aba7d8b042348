------------------------------ MODULE BitArray ------------------------------
(* utils::BitArray: two arrays of bits of their own sizes (in bytes).          *)
(* case <2>.  Values are given as integers of up to 16 bits.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps
VARIABLES p, b, a0, op, ret           \* b[1], b[2]: bits, the lowest first
vars == <<p, b, a0, op, ret>>
View == <<a0, b>>
RECURSIVE Pow(_), Num(_, _, _)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
Num(s, from, n) == IF n = 0 \/ from > Len(s) THEN 0 ELSE s[from] + 2 * Num(s, from + 1, n - 1)
Bit(x, k) == (x \div Pow(k)) % 2
Bytes(s) == [i \in 1..(Len(s) \div 8) |-> Num(s, 8 * (i - 1) + 1, 8)]
Obs == [a |-> Bytes(b[1]), b |-> Bytes(b[2]), eq |-> IF b[1] = b[2] THEN 1 ELSE 0,
        n |-> <<Len(b[1]) \div 8, Len(b[2]) \div 8>>, low |-> <<Num(b[1], 1, 16), Num(b[2], 1, 8)>>]
Ok(v) == ret' = [k |-> "ok", v |-> v]
Made(x, n) == [k \in 1..(8 * n) |-> IF k <= 16 THEN Bit(x, k - 1) ELSE 0]
Left(s, n) == [k \in 1..Len(s) |-> IF k > n THEN s[k - n] ELSE 0]
Right(s, n) == [k \in 1..Len(s) |-> IF k + n <= Len(s) THEN s[k + n] ELSE 0]
Shift(s, n) == IF n >= 0 THEN Left(s, n) ELSE Right(s, -n)
And(s, t) == [k \in 1..Len(s) |-> IF k <= Len(t) THEN s[k] * t[k] ELSE s[k]]
Or(s, t) == [k \in 1..Len(s) |-> IF k <= Len(t) THEN s[k] + t[k] - s[k] * t[k] ELSE s[k]]
Not(s) == [k \in 1..Len(s) |-> 1 - s[k]]
Fill(s, x, w) == [k \in 1..Len(s) |-> Bit(x, (k - 1) % (8 * w))]
One == <<0, 0, 0, 0, 0, 0, 0, 0>>
Do(o, a) ==
    /\ op' = [o |-> o, a |-> a]
    /\ UNCHANGED <<p, a0>>
    /\ Ok(<<>>)
    /\ LET i == a[1] j == 3 - a[1] IN
       \/ o = "make" /\ b' = [b EXCEPT ![i] = Made(a[2], a[3])]
       \/ o = "raw" /\ b' = [b EXCEPT ![i] = [k \in 1..(8 * a[3]) |-> IF (k - 1) \div 8 < a[2] THEN Bit(((k - 1) \div 8) * 3 + 129, (k - 1) % 8) ELSE 0]]
       \/ o = "fill" /\ b' = [b EXCEPT ![i] = Fill(b[i], a[2], a[3])]
       \/ o = "sh" /\ b' = [b EXCEPT ![i] = Shift(b[i], a[2])]                       \* in place
       \/ o = "shto" /\ b' = [b EXCEPT ![i] = Shift(b[j], a[2])]                     \* i = j << n
       \/ o = "and" /\ b' = [b EXCEPT ![i] = And(b[i], b[j])]
       \/ o = "or" /\ b' = [b EXCEPT ![i] = Or(b[i], b[j])]
       \/ o = "andto" /\ b' = [b EXCEPT ![i] = And(b[j], b[i])]                      \* i = j & i
       \/ o = "orto" /\ b' = [b EXCEPT ![i] = Or(b[j], b[i])]
       \/ o = "not" /\ b' = [b EXCEPT ![i] = Not(b[i])]
       \/ o = "notto" /\ b' = [b EXCEPT ![i] = Not(b[j])]
       \/ o \in {"copy", "ctor"} /\ b' = [b EXCEPT ![i] = b[j]]                      \* assigned; by a copy of a copy
       \/ o \in {"move", "mctor"} /\ b' = [b EXCEPT ![i] = b[j], ![j] = One]          \* the moved one is then replaced
       \/ o = "self" /\ UNCHANGED b
       \/ o = "swap" /\ b' = [k \in 1..2 |-> b[3 - k]]
InitWith(a) == p = a /\ b = <<One, One>> /\ a0 = a /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

Whole == \A i \in {1, 2} : Len(b[i]) % 8 = 0 /\ \A k \in 1..Len(b[i]) : b[i][k] \in {0, 1}
\* an operation on one array leaves the other alone
Apart == [][op'.o \in {"move", "mctor", "swap"} \/ b'[3 - op'.a[1]] = b[3 - op'.a[1]]]_vars
\* sizes only change by assignment and construction
Sized == [][op'.o \in {"fill", "sh", "and", "or", "not"} => Len(b'[op'.a[1]]) = Len(b[op'.a[1]])]_vars
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
