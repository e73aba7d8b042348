------------------------------ MODULE TieredMap ------------------------------
(* TieredMap: a map from unsigned keys, iterated in order of insertion.         *)
(* case <3, node size, bits of the key>.  A key <hi, lo> stands for             *)
(* hi * 2^(bits - 24) + lo.  moved: entries not found where they were created.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps
VARIABLES p, mp, a0, op, ret
vars == <<p, mp, a0, op, ret>>
View == <<a0, mp>>
Obs == [m |-> mp, size |-> Len(mp), moved |-> 0]
Ok(v) == ret' = [k |-> "ok", v |-> v]
At(a) == {i \in 1..Len(mp) : mp[i][1] = a[1] /\ mp[i][2] = a[2]}
Has(a) == At(a) # {}
Pos(a) == CHOOSE i \in At(a) : TRUE
Do(o, a) ==
    /\ op' = [o |-> o, a |-> a]
    /\ UNCHANGED <<p, a0>>
    /\ \/ o = "set" /\ Ok(<<>>) /\ mp' = (IF Has(a) THEN [mp EXCEPT ![Pos(a)][3] = a[3]] ELSE Append(mp, a))
       \/ o = "get" /\ Ok(<<IF Has(a) THEN mp[Pos(a)][3] ELSE 0>>) /\ mp' = (IF Has(a) THEN mp ELSE Append(mp, <<a[1], a[2], 0>>))
       \/ o \in {"find", "cfind", "try", "ctry"} /\ Ok(IF Has(a) THEN mp[Pos(a)] ELSE <<>>) /\ UNCHANGED mp
       \/ o = "clear" /\ Ok(<<>>) /\ mp' = <<>>
InitWith(a) == p = a /\ mp = <<>> /\ a0 = a /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E z \in MOps : Do(z[1], z[2])
Spec == Init /\ [][Next]_vars

Once == \A i, j \in 1..Len(mp) : i # j => <<mp[i][1], mp[i][2]>> # <<mp[j][1], mp[j][2]>>
\* entries stay, in their order, until the map is cleared; only the accessed value changes
Keeps == [][op'.o = "clear" \/ \A i \in 1..Len(mp) : mp'[i][1] = mp[i][1] /\ mp'[i][2] = mp[i][2] /\ (mp'[i][3] = mp[i][3] \/ op'.o = "set")]_vars
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
