----------------------------- MODULE SharedData -----------------------------
(* sparta::SharedData: a value written in a cycle is present from the next     *)
(* cycle's Update phase on and stays until another takes its place. 0 stands   *)
(* for no valid value. Two objects; either may be copied, moved or assigned.   *)
(* "step p i o v": one cycle, in phase p of which o is done to object i; what   *)
(* is seen in every phase after Update is reported.                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps

VARIABLES manual,
          obj,       \* object -> [ps, ns, due]
          a0, op, ret
vars == <<manual, obj, a0, op, ret>>
View == <<a0, manual, obj>>

Ok(v) == ret' = [k |-> "ok", v |-> v]
Same == UNCHANGED <<manual, obj>>
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ Same
Q(v) == Ok(v) /\ Same
Put(i, x) == obj' = [obj EXCEPT ![i] = x] /\ UNCHANGED manual
Fresh == [ps |-> 5, ns |-> 0, due |-> FALSE]
Flip(x) == IF x.due THEN [ps |-> x.ns, ns |-> 0, due |-> FALSE] ELSE x
Eff(x, o, v) == CASE o = "write" -> [x EXCEPT !.ns = v, !.due = ~manual]
                  [] o = "wps"   -> [x EXCEPT !.ps = v]
                  [] o = "clps"  -> [x EXCEPT !.ps = 0]
                  [] o = "clns"  -> [x EXCEPT !.ns = 0]
                  [] o = "clear" -> [x EXCEPT !.ps = 0, !.ns = 0]
                  [] o = "none"  -> x
Ops == <<"write", "wps", "clps", "clns", "clear", "none">>
Step(p, i, o, v) ==
    LET b == [j \in {0, 1} |-> Flip(obj[j])]
        e == [b EXCEPT ![i] = Eff(b[i], o, v)]
        see(f) == <<f[0].ps, f[0].ns, f[1].ps, f[1].ns>>
        RECURSIVE Seen(_)
        Seen(k) == IF k > 4 THEN <<>> ELSE see(IF k <= p THEN b ELSE e) \o Seen(k + 1)
    IN /\ obj' = e /\ UNCHANGED manual
       /\ Ok(Seen(0))

Do(o, a) ==
    /\ UNCHANGED a0
    /\ op' = [o |-> o, a |-> a]
    /\ CASE o \in {"write", "wps"} -> Put(a[1], Eff(obj[a[1]], o, a[2])) /\ Ok(<<>>)
         [] o \in {"clps", "clns", "clear"} -> Put(a[1], Eff(obj[a[1]], o, 0)) /\ Ok(<<>>)
         [] o = "acps" -> IF obj[a[1]].ps = 0 THEN Exc ELSE Put(a[1], [obj[a[1]] EXCEPT !.ps = a[2]]) /\ Ok(<<>>)
         [] o = "acns" -> IF obj[a[1]].ns = 0 THEN Exc ELSE Put(a[1], [obj[a[1]] EXCEPT !.ns = a[2]]) /\ Ok(<<>>)
         [] o = "rdps" -> IF obj[a[1]].ps = 0 THEN Exc ELSE Q(<<obj[a[1]].ps>>)
         [] o = "rdns" -> IF obj[a[1]].ns = 0 THEN Exc ELSE Q(<<obj[a[1]].ns>>)
         [] o = "update" -> manual /\ Put(a[1], [ps |-> obj[a[1]].ns, ns |-> 0, due |-> FALSE]) /\ Ok(<<>>)
         [] o = "step" -> Step(a[1], a[2], Ops[a[3]], a[4])
         \* object a[1] is built from, or assigned, the other; of a moved one only a new one remains
         [] o \in {"copy", "asgc"} -> Put(a[1], obj[1 - a[1]]) /\ Ok(<<>>)
         [] o \in {"move", "asgm"} -> obj' = [obj EXCEPT ![a[1]] = obj[1 - a[1]], ![1 - a[1]] = Fresh] /\ UNCHANGED manual /\ Ok(<<>>)
         [] OTHER -> FALSE
InitWith(a) == /\ a0 = a /\ manual = (a[1] = 1) /\ obj = [i \in {0, 1} |-> Fresh]
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
TypeOK == \A i \in {0, 1} : manual => ~obj[i].due
\* an automatic object with a next value is going to show it
NeverStuck == ~manual => \A i \in {0, 1} : obj[i].ns # 0 => obj[i].due
\* the next value shows one cycle after the write, and it is what was written last
Shows == [][ (op'.o = "step" /\ ~manual) => \A i \in {0, 1} :
                (i # op'.a[2] \/ Ops[op'.a[3]] \in {"write", "none", "clns"}) =>
                    obj'[i].ps = (IF obj[i].due THEN obj[i].ns ELSE obj[i].ps) ]_vars
LastWins == [][ (op'.o = "write" \/ (op'.o = "step" /\ Ops[op'.a[3]] = "write")) =>
                  \E i \in {0, 1} : obj'[i].ns = op'.a[Len(op'.a)] ]_vars
\* writing the next value never shows in this cycle
NotEarly == [][ op'.o \in {"write", "acns", "clns", "rdns", "rdps"} => \A i \in {0, 1} : obj'[i].ps = obj[i].ps ]_vars
ExcPure == [][ ret'.k = "exc" => obj' = obj ]_vars

Obs == [st |-> <<obj[0].ps, obj[0].ns, obj[1].ps, obj[1].ns>>]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
