--------------------------------- MODULE Pipe ---------------------------------
(* sparta::Pipe: elements advance one stage per update. Updates are made by the *)
(* user, or by the pipe itself in the update phase of every cycle that follows  *)
(* one in which it was not empty or was changed.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps

VARIABLES n,         \* stages
          st,        \* -1..n-1 -> value, 0 = nothing; -1 is the append position
          own,       \* the pipe updates itself
          up,        \* updates pending, relative to the next cycle to be executed
          post,      \* operations still to come inside the current cycle, after its update phase
          a0, op, ret
vars == <<n, st, own, up, post, a0, op, ret>>
View == <<a0, n, st, own, up, post>>

Stages == 0..(n - 1)
AnyIn == \E i \in -1..(n-1) : st[i] # 0
Num(s) == Cardinality({i \in Stages : s[i] # 0})
Later == up \cup {IF post > 0 THEN 0 ELSE 1}
Kick == up' = IF own THEN Later ELSE up
Ok(v) == ret' = [k |-> "ok", v |-> v]
Same == UNCHANGED <<n, st, own, up>>
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ Same
Q(v) == Ok(v) /\ Same
B(b) == IF b THEN 1 ELSE 0
Change(s) == st' = s /\ UNCHANGED <<n, own>> /\ Ok(<<>>)
Shifted(s) == [i \in DOMAIN s |-> IF i = -1 THEN 0 ELSE s[i-1]]
Nothing == [i \in DOMAIN st |-> 0]

Append1(v) == IF st[-1] # 0 THEN Exc ELSE Change([st EXCEPT ![-1] = v]) /\ Kick
Write(i, v) == IF i \notin Stages THEN Exc ELSE Change([st EXCEPT ![i] = v]) /\ Kick
Invalidate(i) == IF i \notin Stages THEN Exc ELSE IF st[i] = 0 THEN Exc ELSE Change([st EXCEPT ![i] = 0]) /\ Kick
Flush(i) == IF i \notin Stages THEN Exc ELSE Change([st EXCEPT ![i] = 0]) /\ UNCHANGED up
FlushIf(v) == Change([i \in DOMAIN st |-> IF st[i] = v THEN 0 ELSE st[i]]) /\ UNCHANGED up
ShiftAppend == IF st[-1] = 0 \/ st[0] # 0 THEN Q(<<0>>)
               ELSE st' = [st EXCEPT ![-1] = 0, ![0] = st[-1]] /\ Kick /\ UNCHANGED <<n, own>> /\ Ok(<<1>>)
Read(i) == IF i \notin Stages THEN Exc ELSE IF st[i] = 0 THEN Exc ELSE Q(<<st[i]>>)
Access(i, v) == IF i \notin Stages THEN Exc ELSE IF st[i] = 0 THEN Exc ELSE Change([st EXCEPT ![i] = v]) /\ UNCHANGED up
ReadApp == IF st[-1] = 0 THEN Exc ELSE Q(<<st[-1]>>)
Update == IF own THEN Exc ELSE Change(Shifted(st)) /\ UNCHANGED up
Own == /\ own' = TRUE /\ up' = (IF ~own /\ AnyIn THEN Later ELSE up) /\ UNCHANGED <<n, st>> /\ Ok(<<>>)
\* one cycle: its update, then m operations in a later phase of it
Step(m) == LET fire == 0 \in up
               s == IF fire THEN Shifted(st) ELSE st
           IN /\ st' = s /\ up' = {x - 1 : x \in up \ {0}} \cup (IF fire /\ Num(s) > 0 THEN {0} ELSE {})
              /\ post' = m /\ UNCHANGED <<n, own>> /\ Ok(<<>>)
Resize(k) == IF k = 0 THEN Exc ELSE ~AnyIn /\ n' = k /\ st' = [i \in -1..(k-1) |-> 0] /\ UNCHANGED <<own, up>> /\ Ok(<<>>)

Do(o, a) ==
    /\ UNCHANGED a0
    /\ op' = [o |-> o, a |-> a]
    /\ IF o = "step" THEN post = 0 ELSE post' = IF post > 0 THEN post - 1 ELSE 0
    /\ CASE o = "append" -> Append1(a[1])
         [] o = "write"  -> Write(a[1], a[2])
         [] o = "inval"  -> Invalidate(a[1])
         [] o = "invlast" -> Invalidate(n - 1)
         [] o = "flush"  -> Flush(a[1])
         [] o = "flapp"  -> Change([st EXCEPT ![-1] = 0]) /\ UNCHANGED up
         [] o = "flall"  -> Change(Nothing) /\ UNCHANGED up
         [] o = "clear"  -> Change(Nothing) /\ UNCHANGED up
         [] o = "flif"   -> FlushIf(a[1])
         [] o = "flfn"   -> FlushIf(a[1])
         [] o = "shift"  -> ShiftAppend
         [] o = "read"   -> Read(a[1])
         [] o = "access" -> Access(a[1], a[2])
         [] o = "rlast"  -> Read(n - 1)
         [] o = "rapp"   -> ReadApp
         [] o = "update" -> Update
         [] o = "own"    -> Own
         [] o = "step"   -> Step(a[1])
         [] o = "resize" -> Resize(a[1])
         [] OTHER -> FALSE
\* parameters: stages
InitWith(a) == /\ a0 = a /\ n = a[1] /\ st = [i \in -1..(a[1]-1) |-> 0] /\ own = FALSE /\ up = {} /\ post = 0
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
TypeOK == DOMAIN st = -1..(n-1) /\ up \subseteq {0, 1}
\* nothing gets stuck: a pipe that updates itself and holds something has an update coming
NeverStuck == (own /\ AnyIn) => up # {}
\* between updates, elements only appear or disappear where the operation says
Moves == {"update", "step", "shift", "resize"}
OneChange == [][ op'.o \in {"append", "write", "inval", "invlast", "flush", "flapp", "access"} =>
                    Cardinality({i \in DOMAIN st : st'[i] # st[i]}) <= 1 ]_vars
\* a cycle moves everything one stage on, or nothing at all
Lockstep == [][ op'.o = "step" => (st' = st \/ st' = Shifted(st)) ]_vars
\* once in the stages, an element moves every single cycle
EveryCycle == [][ (op'.o = "step" /\ own /\ post = 0 /\ 0 \in up) => st' = Shifted(st) ]_vars
ExcPure == [][ ret'.k = "exc" => UNCHANGED <<n, st, own, up>> ]_vars

L(s) == [i \in 1..n |-> s[i-1]]
Obs == [num |-> Num(st), empty |-> B(Num(st) = 0), any |-> B(AnyIn), cap |-> n, app |-> st[-1], last |-> B(st[n-1] # 0),
        st |-> L(st), it |-> L(st)]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
