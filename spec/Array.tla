-------------------------------- MODULE Array --------------------------------
(* sparta::Array and sparta::FrontArray: an entry is valid from its last write  *)
(* to its erasure; entries are ordered by age of their last write.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps

VARIABLES cap, aged,
          val,       \* index -> value, -1 = not valid
          ord,       \* valid indexes, oldest write first
          h,         \* handles [w, i]: w = "p" plain, "a" aged, "c" circular, "n" none; i = index, -1 = past the end
          a0, op, ret
vars == <<cap, aged, val, ord, h, a0, op, ret>>
View == <<a0, cap, aged, val, ord, h>>

Idx == 0..(cap - 1)
Valid(i) == i \in Idx /\ val[i] # -1
NumValid == Len(ord)
PosOf(i) == CHOOSE p \in 1..Len(ord) : ord[p] = i
Without(i) == SelectSeq(ord, LAMBDA x : x # i)
Ok(v) == ret' = [k |-> "ok", v |-> v]
Same == UNCHANGED <<val, ord, h>>
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ Same
Q(v) == Ok(v) /\ Same
B(b) == IF b THEN 1 ELSE 0
Put(i, v, r) == val' = [val EXCEPT ![i] = v] /\ ord' = Append(Without(i), i) /\ UNCHANGED h /\ Ok(r)
Write(i, v) == IF i \notin Idx THEN Exc ELSE Put(i, v, <<>>)
Erase(i) == IF ~Valid(i) THEN Exc ELSE val' = [val EXCEPT ![i] = -1] /\ ord' = Without(i) /\ UNCHANGED h /\ Ok(<<>>)
Clear == val' = [i \in Idx |-> -1] /\ ord' = <<>> /\ UNCHANGED h /\ Ok(<<>>)
Read(i) == IF ~Valid(i) THEN Exc ELSE Q(<<val[i]>>)
Access(i, v) == IF ~Valid(i) THEN Exc ELSE val' = [val EXCEPT ![i] = v] /\ UNCHANGED <<ord, h>> /\ Ok(<<>>)
Nth(n, i) == IF ~aged \/ n >= NumValid THEN Exc ELSE Q(<<i, val[i]>>)
NextOldest(i) == Valid(i) /\ aged /\ LET p == PosOf(i) IN IF p = Len(ord) THEN Q(<<0, i>>) ELSE Q(<<1, ord[p+1]>>)
Age(i) == IF ~aged \/ ~Valid(i) THEN Exc ELSE Q(<<PosOf(i) - 1>>)
\* <younger, older>
Cmp(i, j) == IF i = j \/ i \notin Idx \/ j \notin Idx THEN Exc
             ELSE Valid(i) /\ Valid(j) /\ Q(<<B(PosOf(i) > PosOf(j)), B(PosOf(i) < PosOf(j))>>)
Free(i) == i \in Idx /\ val[i] = -1
Front == CHOOSE i \in Idx : Free(i) /\ \A j \in Idx : Free(j) => i <= j
Back == CHOOSE i \in Idx : Free(i) /\ \A j \in Idx : Free(j) => i >= j
PutAt(f, v) == IF NumValid = cap THEN Exc ELSE LET i == IF f THEN Front ELSE Back IN Put(i, v, <<i>>)
NthValid(n) == CHOOSE i \in Idx : Valid(i) /\ Cardinality({j \in Idx : Valid(j) /\ j < i}) = n
ReadValid(n) == IF n >= NumValid THEN Exc ELSE Q(<<val[NthValid(n)]>>)

Set(s, w, i) == h' = [h EXCEPT ![s] = [w |-> w, i |-> i]] /\ UNCHANGED <<val, ord>> /\ Ok(<<>>)
HInc(s) == LET w == h[s].w
               i == h[s].i
           IN IF i = -1 THEN Exc
              ELSE IF w = "p" THEN Set(s, w, IF i + 1 = cap THEN -1 ELSE i + 1)
              ELSE IF w = "c" THEN Set(s, w, (i + 1) % cap)
              ELSE Valid(i) /\ LET p == PosOf(i) IN Set(s, w, IF p = Len(ord) THEN -1 ELSE ord[p+1])
HRead(s) == IF ~Valid(h[s].i) THEN Exc ELSE Q(<<val[h[s].i]>>)
HEq(s, t) == Q(<<B(h[s].i = h[t].i), B(h[s].i # h[t].i)>>)
HCmp(s, t) == IF h[s].i = -1 \/ h[t].i = -1 THEN Exc ELSE Cmp(h[s].i, h[t].i)

Do(o, a) ==
    /\ UNCHANGED <<cap, aged, a0>>
    /\ op' = [o |-> o, a |-> a]
    /\ CASE o = "write"  -> Write(a[1], a[2])
         [] o = "wself"  -> IF ~Valid(a[2]) THEN Exc ELSE Write(a[1], val[a[2]])
         [] o = "erase"  -> Erase(a[1])
         [] o = "eraold" -> aged /\ ord # <<>> /\ Erase(ord[1])
         [] o = "clear"  -> Clear
         [] o = "read"   -> Read(a[1])
         [] o = "access" -> Access(a[1], a[2])
         [] o = "oldest" -> Nth(a[1], ord[a[1] + 1])
         [] o = "youngest" -> Nth(a[1], ord[Len(ord) - a[1]])
         [] o = "next"   -> NextOldest(a[1])
         [] o = "age"    -> Age(a[1])
         [] o = "cmp"    -> Cmp(a[1], a[2])
         [] o = "wfront" -> PutAt(TRUE, a[1])
         [] o = "wback"  -> PutAt(FALSE, a[1])
         [] o = "rvalid" -> ReadValid(a[1])
         [] o = "hbegin" -> Set(a[1], "p", 0)
         [] o = "habegin" -> aged /\ Set(a[1], "a", IF ord = <<>> THEN -1 ELSE ord[1])
         [] o = "hcirc"  -> a[2] \in Idx /\ Set(a[1], "c", a[2])
         [] o = "hinc"   -> h[a[1]].w # "n" /\ HInc(a[1])
         [] o = "hget"   -> h[a[1]].w # "n" /\ HRead(a[1])
         [] o = "hset"   -> h[a[1]].w # "n" /\ Access(h[a[1]].i, a[2])
         [] o = "hwrite" -> h[a[1]].w # "n" /\ Write(h[a[1]].i, a[2])
         [] o = "herase" -> h[a[1]].w # "n" /\ Erase(h[a[1]].i)
         [] o = "heq"    -> h[a[1]].w # "n" /\ h[a[2]].w # "n" /\ HEq(a[1], a[2])
         [] o = "hcmp"   -> h[a[1]].w # "n" /\ h[a[2]].w # "n" /\ HCmp(a[1], a[2])
         [] OTHER -> FALSE
\* parameters: capacity, aged, handles
InitWith(a) == /\ a0 = a /\ cap = a[1] /\ aged = (a[2] = 1)
               /\ val = [i \in 0..(a[1]-1) |-> -1] /\ ord = <<>>
               /\ h = [s \in 0..(a[3]-1) |-> [w |-> "n", i |-> -1]]
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
SeqSet(s) == {s[i] : i \in 1..Len(s)}
TypeOK == /\ SeqSet(ord) = {i \in Idx : val[i] # -1}
          /\ Cardinality(SeqSet(ord)) = Len(ord)
Writes == {"write", "wself", "wfront", "wback", "hwrite"}
\* the last written entry is the youngest, the order of all others is untouched
LastWriteYoungest == [][ (op'.o \in Writes /\ ret'.k = "ok") =>
                            LET y == ord'[Len(ord')] IN SubSeq(ord', 1, Len(ord') - 1) = Without(y) ]_vars
OrderKept == [][ op'.o \notin Writes => ord' = SelectSeq(ord, LAMBDA x : x \in SeqSet(ord')) ]_vars
OneEntry == [][ op'.o # "clear" => Cardinality({i \in Idx : val'[i] # val[i]}) <= 1 ]_vars
FirstFree == [][ (op'.o = "wfront" /\ ret'.k = "ok") => (Free(ret'.v[1]) /\ \A j \in 0..(ret'.v[1] - 1) : ~Free(j)) ]_vars
ExcPure == [][ ret'.k = "exc" => UNCHANGED <<val, ord, h>> ]_vars

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Obs == [num |-> NumValid, free |-> cap - NumValid, cap |-> cap, live |-> NumValid,
        vals |-> [i \in 1..cap |-> val[i-1]], walk |-> [i \in 1..cap |-> val[i-1]],
        aged |-> IF aged THEN ord ELSE <<>>, list |-> IF aged THEN Rev(ord) ELSE <<>>,
        ages |-> IF aged THEN [p \in 1..Len(ord) |-> p - 1] ELSE <<>>,
        hv |-> [s \in 1..Cardinality(DOMAIN h) |-> IF h[s-1].w = "n" THEN <<>> ELSE <<B(Valid(h[s-1].i)), h[s-1].i>>]]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
