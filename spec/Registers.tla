----------------------------- MODULE Registers -----------------------------
(* A RegisterSet: registers of 2^k bytes, some of them naming bytes of another  *)
(* register, with fields, of which some cannot be written.                      *)
(* case <n>, then for each register: bytes, register it is a part of (0: none), *)
(* offset there, whether it has an initial value, number of fields and for each  *)
(* field lowest bit, highest bit, read-only.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, Bitwise
CONSTANTS Cfgs, MOps

VARIABLES regs,     \* <<[n, at, own, fs]>>: size, position in mem, whether it has bytes of its own, fields <<lo, hi, ro>>
          mem,      \* the bytes of all registers
          obsv,     \* registers whose reads and writes somebody observes
          cb,       \* registers with a read and a write callback
          a0, op, ret
vars == <<regs, mem, obsv, cb, a0, op, ret>>
View == <<a0, mem, obsv, cb>>

RECURSIVE Fields(_, _, _), Parse(_, _, _, _)
Fields(a, i, k) == IF k = 0 THEN <<>> ELSE <<<<a[i], a[i + 1], a[i + 2]>>>> \o Fields(a, i + 3, k - 1)
Parse(a, i, rs, free) ==
    IF i > Len(a) THEN rs
    ELSE LET own == a[i + 1] = 0
             r == [n |-> a[i], own |-> own, at |-> IF own THEN free ELSE rs[a[i + 1]].at + a[i + 2], ini |-> a[i + 3], fs |-> Fields(a, i + 5, a[i + 4])]
         IN Parse(a, i + 5 + 3 * a[i + 4], Append(rs, r), IF own THEN free + a[i] ELSE free)
Regs(a) == Parse(a, 2, <<>>, 1)
RECURSIVE Sum(_, _)
Sum(rs, i) == IF i > Len(rs) THEN 0 ELSE (IF rs[i].own THEN rs[i].n ELSE 0) + Sum(rs, i + 1)
Initial(q) == (53 * q + 7) % 256
Start(rs) == [q \in 1..Sum(rs, 1) |-> IF \E i \in 1..Len(rs) : rs[i].ini = 1 /\ q >= rs[i].at /\ q < rs[i].at + rs[i].n THEN Initial(q) ELSE 204]

(* ---- bits ---- *)
Bits8(F(_)) == F(0) + 2 * F(1) + 4 * F(2) + 8 * F(3) + 16 * F(4) + 32 * F(5) + 64 * F(6) + 128 * F(7)
\* patterns from 256 on repeat one byte
DataByte(x, j) == IF x >= 256 THEN x - 256 ELSE (x + 37 * j) % 256
Data(x, n) == [i \in 1..n |-> DataByte(x, i - 1)]
DataBit(x, k) == (DataByte(x, k \div 8) \div 2^(k % 8)) % 2
ReadOnly(r) == [p \in 1..regs[r].n |-> LET F(i) == IF \E f \in 1..Len(regs[r].fs) : regs[r].fs[f][3] = 1 /\ 8 * (p - 1) + i >= regs[r].fs[f][1] /\ 8 * (p - 1) + i <= regs[r].fs[f][2] THEN 1 ELSE 0
                                       IN Bits8(F)]
Of(m, r) == [p \in 1..regs[r].n |-> m[regs[r].at + p - 1]]
Value(r) == Of(mem, r)
FieldBit(r, f, k) == LET b == regs[r].fs[f][1] + k IN (mem[regs[r].at + b \div 8] \div 2^(b % 8)) % 2
Width(r, f) == regs[r].fs[f][2] - regs[r].fs[f][1] + 1
FieldValue(r, f) == [p \in 1..8 |-> LET F(i) == IF 8 * (p - 1) + i < Width(r, f) THEN FieldBit(r, f, 8 * (p - 1) + i) ELSE 0 IN Bits8(F)]
\* the whole register with the field's bits replaced by the lowest n bits of the pattern
WithField(r, f, n, x) ==
    [p \in 1..regs[r].n |->
       LET F(i) == LET b == 8 * (p - 1) + i k == b - regs[r].fs[f][1]
                   IN IF b >= regs[r].fs[f][1] /\ b <= regs[r].fs[f][2] THEN (IF k < n THEN DataBit(x, k) ELSE 0) ELSE (Value(r)[p] \div 2^i) % 2
       IN Bits8(F)]
TooLarge(r, f, n, x) == \E k \in Width(r, f)..(n - 1) : DataBit(x, k) = 1
\* mem with the bytes v put at offset of of register r, where the mask allows it
Put(r, off, v, masked) ==
    [q \in DOMAIN mem |->
       LET p == q - regs[r].at - off + 1
       IN IF p < 1 \/ p > Len(v) THEN mem[q]
          ELSE IF masked THEN (mem[q] & ReadOnly(r)[off + p]) + (v[p] & (255 - ReadOnly(r)[off + p])) ELSE v[p]]
In(r, n, off) == off + n <= regs[r].n

Ok(v) == ret' = [k |-> "ok", v |-> v]
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ UNCHANGED mem
SeenR(r) == IF r \in obsv THEN <<-2>> \o Value(r) ELSE <<>>
SeenW(r) == IF r \in obsv THEN <<-1>> \o Value(r) \o Of(mem', r) ELSE <<>>
Read(r, n, off, seen) == IF ~In(r, n, off) THEN Exc ELSE Ok(SubSeq(Value(r), off + 1, off + n) \o (IF seen THEN SeenR(r) ELSE <<>>)) /\ UNCHANGED mem
Write(r, n, off, v, masked, seen) == IF ~In(r, n, off) THEN Exc ELSE mem' = Put(r, off, v, masked) /\ Ok(IF seen THEN SeenW(r) ELSE <<>>)
\* a value too large for its field is refused or loses its upper bits
Field(r, f, n, x, masked, seen) == \/ TooLarge(r, f, n, x) /\ Exc
                                   \/ mem' = Put(r, 0, WithField(r, f, n, x), masked) /\ Ok(IF seen THEN SeenW(r) ELSE <<>>)
Cfg == UNCHANGED <<regs, obsv, cb>>
Is(r) == r \in 1..Len(regs)
IsF(r, f) == Is(r) /\ f \in 1..Len(regs[r].fs)
Reset(m, r, masked) == IF regs[r].ini = 0 THEN m ELSE
    [q \in DOMAIN m |-> LET p == q - regs[r].at + 1 IN IF p < 1 \/ p > regs[r].n THEN m[q] ELSE IF masked THEN (m[q] & ReadOnly(r)[p]) + (Initial(q) & (255 - ReadOnly(r)[p])) ELSE Initial(q)]

Do(o, a) ==
    /\ UNCHANGED a0 /\ op' = [o |-> o, a |-> a]
    /\ CASE \* typed: register, size of the type, index in units of the type (, pattern)
            o = "read"   -> Is(a[1]) /\ Cfg /\ Read(a[1], a[2], a[2] * a[3], TRUE)
         [] o = "peek"   -> Is(a[1]) /\ Cfg /\ Read(a[1], a[2], a[2] * a[3], FALSE)
         [] o = "dread"  -> Is(a[1]) /\ Cfg /\ In(a[1], a[2], a[2] * a[3]) /\ Read(a[1], a[2], a[2] * a[3], FALSE)
         [] o = "write"  -> Is(a[1]) /\ Cfg /\ Write(a[1], a[2], a[2] * a[3], Data(a[4], a[2]), TRUE, TRUE)
         [] o = "writeu" -> Is(a[1]) /\ Cfg /\ Write(a[1], a[2], a[2] * a[3], Data(a[4], a[2]), FALSE, TRUE)
         [] o = "poke"   -> Is(a[1]) /\ Cfg /\ Write(a[1], a[2], a[2] * a[3], Data(a[4], a[2]), TRUE, FALSE)
         [] o = "pokeu"  -> Is(a[1]) /\ Cfg /\ Write(a[1], a[2], a[2] * a[3], Data(a[4], a[2]), FALSE, FALSE)
         \* these do not check bounds
         [] o = "dwrite" -> Is(a[1]) /\ Cfg /\ In(a[1], a[2], a[2] * a[3]) /\ Write(a[1], a[2], a[2] * a[3], Data(a[4], a[2]), FALSE, FALSE)
         [] o = "rwriteu" -> Is(a[1]) /\ Cfg /\ In(a[1], a[2], a[2] * a[3]) /\ Write(a[1], a[2], a[2] * a[3], Data(a[4], a[2]), FALSE, FALSE)
         \* bytes: register, number, offset (, pattern)
         [] o = "bread"   -> Is(a[1]) /\ Cfg /\ Read(a[1], a[2], a[3], TRUE)
         [] o = "bpeek"   -> Is(a[1]) /\ Cfg /\ Read(a[1], a[2], a[3], FALSE)
         [] o = "bwrite"  -> Is(a[1]) /\ Cfg /\ Write(a[1], a[2], a[3], Data(a[4], a[2]), TRUE, TRUE)
         [] o = "bwriteu" -> Is(a[1]) /\ Cfg /\ Write(a[1], a[2], a[3], Data(a[4], a[2]), FALSE, TRUE)
         [] o = "bpoke"   -> Is(a[1]) /\ Cfg /\ Write(a[1], a[2], a[3], Data(a[4], a[2]), TRUE, FALSE)
         [] o = "bpokeu"  -> Is(a[1]) /\ Cfg /\ Write(a[1], a[2], a[3], Data(a[4], a[2]), FALSE, FALSE)
         \* fields: register, field (, bits, pattern)
         [] o = "fread"  -> IsF(a[1], a[2]) /\ Cfg /\ Ok(FieldValue(a[1], a[2]) \o SeenR(a[1])) /\ UNCHANGED mem
         [] o = "fpeek"  -> IsF(a[1], a[2]) /\ Cfg /\ Ok(FieldValue(a[1], a[2])) /\ UNCHANGED mem
         [] o = "fwrite" -> IsF(a[1], a[2]) /\ Cfg /\ Field(a[1], a[2], a[3], a[4], TRUE, TRUE)
         [] o = "fpoke"  -> IsF(a[1], a[2]) /\ Cfg /\ Field(a[1], a[2], a[3], a[4], TRUE, FALSE)
         [] o = "fpokeu" -> IsF(a[1], a[2]) /\ Cfg /\ Field(a[1], a[2], a[3], a[4], FALSE, FALSE)
         \* with a callback the callback decides; without one this is a read or write of the whole register
         [] o = "rcheck" -> Is(a[1]) /\ Cfg /\ UNCHANGED mem
                            /\ IF a[1] \in cb THEN Ok(<<-3>>) ELSE IF regs[a[1]].n \in {4, 8} THEN Ok(Value(a[1]) \o SeenR(a[1])) ELSE Exc
         [] o = "wcheck" -> Is(a[1]) /\ Cfg /\ IF a[1] \in cb THEN Ok(<<-4>> \o Data(a[3], a[2])) /\ UNCHANGED mem ELSE Write(a[1], a[2], 0, Data(a[3], a[2]), TRUE, TRUE)
         [] o = "mask"   -> Is(a[1]) /\ Cfg /\ UNCHANGED mem /\ Ok([p \in 1..regs[a[1]].n |-> 255 - ReadOnly(a[1])[p]])
         [] o = "reset"  -> Is(a[1]) /\ Cfg /\ mem' = Reset(mem, a[1], a[2] = 0) /\ Ok(<<>>)
         [] o = "resetall" -> Cfg /\ mem' = [q \in DOMAIN mem |-> IF \E r \in 1..Len(regs) : regs[r].ini = 1 /\ q >= regs[r].at /\ q < regs[r].at + regs[r].n THEN Initial(q) ELSE mem[q]] /\ Ok(<<>>)
         [] o = "observe" -> Is(a[1]) /\ UNCHANGED <<regs, mem, cb>> /\ obsv' = (IF a[2] = 1 THEN obsv \cup {a[1]} ELSE obsv \ {a[1]}) /\ Ok(<<>>)
         [] o = "cb"     -> Is(a[1]) /\ UNCHANGED <<regs, mem, obsv>> /\ cb' = (IF a[2] = 1 THEN cb \cup {a[1]} ELSE cb \ {a[1]}) /\ Ok(<<>>)
         [] OTHER -> FALSE
InitWith(a) == /\ a0 = a /\ regs = Regs(a) /\ mem = Start(Regs(a)) /\ obsv = {} /\ cb = {}
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
TypeOK == \A q \in DOMAIN mem : mem[q] \in 0..255
Masked == {"write", "poke", "bwrite", "bpoke", "fwrite", "fpoke"}
\* what is protected in the register written stays as it is
Protected == [][ op'.o \in Masked => \A p \in 1..regs[op'.a[1]].n : (mem'[regs[op'.a[1]].at + p - 1] & ReadOnly(op'.a[1])[p]) = (Value(op'.a[1])[p] & ReadOnly(op'.a[1])[p]) ]_vars
OnlyThere == [][ op'.o # "resetall" => \A q \in DOMAIN mem : mem'[q] # mem[q] => q >= regs[op'.a[1]].at /\ q < regs[op'.a[1]].at + regs[op'.a[1]].n ]_vars
\* a field's neighbours do not change with it
FieldOnly == [][ op'.o \in {"fwrite", "fpoke", "fpokeu"} =>
                 \A b \in 0..(8 * regs[op'.a[1]].n - 1) : LET f == regs[op'.a[1]].fs[op'.a[2]] q == regs[op'.a[1]].at + b \div 8
                     IN b < f[1] \/ b > f[2] => (mem'[q] \div 2^(b % 8)) % 2 = (mem[q] \div 2^(b % 8)) % 2 ]_vars
ReadsPure == [][ op'.o \in {"read", "peek", "dread", "bread", "bpeek", "fread", "fpeek", "rcheck", "mask"} \/ ret'.k = "exc" => UNCHANGED mem ]_vars

\* every register and field, looked at in full
RECURSIVE AllFields(_, _)
AllFields(r, f) == IF r > Len(regs) THEN <<>> ELSE IF f > Len(regs[r].fs) THEN AllFields(r + 1, 1) ELSE <<FieldValue(r, f)>> \o AllFields(r, f + 1)
Obs == [r |-> [r \in 1..Len(regs) |-> Value(r)], f |-> AllFields(1, 1)]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
