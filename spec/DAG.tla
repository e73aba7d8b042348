-------------------------------- MODULE DAG --------------------------------
(* Precedence declarations between events (and global ordering points), the   *)
(* verdict of finalising them, and the order in which events then fire.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Cfgs, Methods     \* explored exhaustively

VARIABLES cfg,   \* [a |-> case arguments, n |-> events, g |-> ordering points, ev |-> seq of [k, ph]]
          R,     \* declared precedences
          fin,   \* 0 building, 1 finalised
          op, ret
vars == <<cfg, R, fin, op, ret>>
View == <<cfg.a, R, fin>>

\* case arguments: n, g, early cycle detection, n * (kind, phase)
\* kinds: 1 Event, 2 UniqueEvent, 3 SingleCycleUniqueEvent, 4 PayloadEvent (all of phase Tick), 5 PhasedUniqueEvent
MkCfg(a) == [a |-> a, n |-> a[1], g |-> a[2], early |-> a[3],
             ev |-> [i \in 1..a[1] |-> [k |-> a[2*i+2], ph |-> a[2*i+3]]]]
Nodes == 1..(cfg.n + cfg.g)
Events == 1..cfg.n
PhaseOrder == {p \in Events \X Events : cfg.ev[p[1]].ph < cfg.ev[p[2]].ph}

\* transitive closure, one intermediate node after the other
RECURSIVE Via(_, _)
Via(S, k) == IF k = 0 THEN S
             ELSE LET In == {x \in Nodes : <<x, k>> \in S}
                      Out == {y \in Nodes : <<k, y>> \in S}
                  IN Via(S \cup (In \X Out), k - 1)
BeforeIn(S) == Via(S \cup PhaseOrder, cfg.n + cfg.g)
Before == BeforeIn(R)
AcyclicIn(S) == LET B == BeforeIn(S) IN \A n \in Nodes : <<n, n>> \notin B
Acyclic == AcyclicIn(R)

Ok(v) == ret' = [k |-> "ok", v |-> v]
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ UNCHANGED <<R, fin>>

\* an event declared before itself: no effect
\* with early detection a new precedence is refused as soon as there is a cycle (it stays declared all the same)
Link(P) == IF fin = 1 THEN Exc
           ELSE /\ R' = R \cup {p \in P : p[1] # p[2]} /\ UNCHANGED fin
                /\ IF cfg.early = 1 /\ R' # R /\ ~AcyclicIn(R') THEN ret' = [k |-> "exc", v |-> <<>>] ELSE Ok(<<>>)
\* the >> operators on two Scheduleables demand equal phases
PhaseClash(a, b, m) == /\ m > 0 /\ a \in Events /\ b \in Events
                       /\ cfg.ev[a].ph # cfg.ev[b].ph
Unlink(a, b) == /\ a # b /\ a \in Events /\ b \in Events /\ fin = 0
                /\ R' = R \ {<<a, b>>} /\ UNCHANGED fin /\ Ok(IF <<a, b>> \in R THEN <<1>> ELSE <<0>>)
\* a refused declaration set can be corrected and finalised again
Finalise == /\ fin = 0
            /\ IF Acyclic THEN fin' = 1 /\ UNCHANGED R /\ Ok(<<>>) ELSE Exc
\* the events of s (all different) are scheduled in this order for one tick; v is the order in which they fire
Perm(s, v) == Len(s) = Len(v) /\ {s[i] : i \in 1..Len(s)} = {v[i] : i \in 1..Len(v)}
Tick(s, v) == /\ fin = 1 /\ Perm(s, v)
              /\ LET B == Before IN \A i, j \in 1..Len(v) : i < j => <<v[j], v[i]>> \notin B
              /\ UNCHANGED <<R, fin>> /\ Ok(v)

Do(o, a, v) ==
    /\ UNCHANGED cfg /\ op' = [o |-> o, a |-> a]
    /\ CASE o = "link"   -> IF PhaseClash(a[1], a[2], a[3]) THEN Exc ELSE Link({<<a[1], a[2]>>})
         [] o = "glink"  -> cfg.early = 0 /\ Link(CASE a[1] = 0 -> {a[2], a[3]} \X {a[4], a[5]}
                                   [] a[1] = 1 -> {a[2], a[3]} \X {a[4]}
                                   [] OTHER    -> {a[2]} \X {a[4], a[5]})
         [] o = "unlink" -> Unlink(a[1], a[2])
         [] o = "fin"    -> Finalise
         [] o = "tick"   -> Tick(a, v)
         [] OTHER -> FALSE
InitWith(a) == cfg = MkCfg(a) /\ R = {} /\ fin = 0 /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == fin = 0 /\ \E a, b \in Nodes : \/ a # b /\ \E m \in Methods : Do("link", <<a, b, m>>, <<>>)
                            \/ Do("unlink", <<a, b>>, <<>>)
                            \/ Do("fin", <<>>, <<>>)
Spec == Init /\ [][Next]_vars

TypeOK == R \subseteq Nodes \X Nodes
\* an accepted set has a firing order for all its events
HasOrder == fin = 1 => \E f \in [Nodes -> 1..Cardinality(Nodes)] : \A p \in R \cup PhaseOrder : f[p[1]] < f[p[2]]
\* a refused one has none
Refused == [][ (op'.o = "fin" /\ ret'.k = "exc") =>
              ~\E f \in [Nodes -> 1..Cardinality(Nodes)] : \A p \in R \cup PhaseOrder : f[p[1]] < f[p[2]] ]_vars

EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a, t.v) /\ ret' = [k |-> t.k, v |-> t.v]
=============================================================================
