------------------------------- MODULE Clocks -------------------------------
(* sparta::Clock and sparta::ClockManager: a tree of clocks over one           *)
(* scheduler, cycle/tick conversion, edges, elapsed cycles, clock crossings.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cfgs, MOps, MaxPer, MaxT

VARIABLES cfg,   \* [a, m, n, p, r, c]: n clocks below the root (clock 1); clock i+1 has parent p[i] and ratio r[i]:c[i],
                 \* or frequency r[i] when m = 1
          per,   \* periods in ticks, <<>> before normalisation
          now,   \* current tick
          exd,   \* last executed tick
          inh,   \* 1 inside a handler
          op, ret
vars == <<cfg, per, now, exd, inh, op, ret>>
View == <<cfg.a, per, now, exd, inh>>

MkCfg(a) == [a |-> a, m |-> a[1], n |-> a[2],
             p |-> [i \in 1..a[2] |-> a[3*i]], r |-> [i \in 1..a[2] |-> a[3*i+1]], c |-> [i \in 1..a[2] |-> a[3*i+2]]]
(* r cycles of the child take as long as c cycles of the parent *)
Exact(v) ==
    /\ Len(v) = cfg.n + 1 /\ \A i \in 1..Len(v) : v[i] > 0
    /\ IF cfg.m = 0
       THEN \A i \in 1..cfg.n : v[i+1] * cfg.r[i] = v[cfg.p[i]] * cfg.c[i]
       ELSE \A i \in 1..cfg.n : v[i+1] * cfg.r[i] = 1000000
Norm(v) == per = <<>> /\ Exact(v) /\ per' = v /\ ret' = [k |-> "ok", v |-> v] /\ UNCHANGED <<cfg, now, exd, inh>>

Q(v) == ret' = [k |-> "ok", v |-> v] /\ UNCHANGED <<cfg, per, now, exd, inh>>
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ UNCHANGED <<cfg, per, now, exd, inh>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
\* per clock: current cycle, elapsed cycles, on a positive edge
Show(t, e) == Flat([i \in 1..Len(per) |-> <<t \div per[i], e \div per[i], IF t % per[i] = 0 THEN 1 ELSE 0>>])
At == Q(<<now>> \o Show(now, IF exd = -1 THEN 0 ELSE exd))
Conv(i, x) == Q(<<x * per[i], x, x \div per[i], x * per[i]>>)
\* ticks from now to the first edge of clock d at least `w` away
Up(t, p) == ((t + p - 1) \div p) * p
Cross(s, d, a, b) == IF now % per[s] # 0 THEN Exc ELSE Q(<<Up(now + a + b, per[d]) - now>>)
\* how long before the arrival tick x (an edge of d) the last edge of s lies from which it is reached
Rev(x, s, d, a, b) == IF x % per[d] # 0 THEN Exc ELSE x >= a + b /\ Q(<<x - ((x - a - b) \div per[s]) * per[s]>>)

Run(n) == inh = 0 /\ inh' = 1 /\ now' = now /\ exd' = now /\ ret' = [k |-> "ok", v |-> <<>>] /\ UNCHANGED <<cfg, per>>
Beat == inh = 1 /\ now' = now + 1 /\ exd' = now + 1 /\ ret' = [k |-> "ok", v |-> <<>>] /\ UNCHANGED <<cfg, per, inh>>
RunEnd == inh = 1 /\ inh' = 0 /\ now' = now + 1 /\ ret' = [k |-> "ok", v |-> <<>>] /\ UNCHANGED <<cfg, per, exd>>

Do(o, a) ==
    /\ op' = [o |-> o, a |-> a]
    /\ (o # "norm") => per # <<>>
    /\ CASE o = "at"     -> At
         [] o = "conv"   -> Conv(a[1], a[2])
         [] o = "cross"  -> Cross(a[1], a[2], a[3], a[4])
         [] o = "rev"    -> Rev(a[1], a[2], a[3], a[4], a[5])
         [] o = "run"    -> Run(a[1])
         [] o = "beat"   -> Beat
         [] o = "runend" -> RunEnd
         [] OTHER -> FALSE
InitWith(a) == /\ cfg = MkCfg(a) /\ per = <<>> /\ now = 0 /\ exd = -1 /\ inh = 0
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \/ op' = [o |-> "norm", a |-> <<>>] /\ \E v \in [1..(cfg.n + 1) -> 1..MaxPer] : Norm(v)
        \/ \E m \in MOps : (m[1] = "run" => inh = 0) /\ Do(m[1], m[2])
        \/ inh = 1 /\ (Do("beat", <<>>) \/ Do("runend", <<>>))
Spec == Init /\ [][Next]_vars
Bound == now <= MaxT

(* ---- properties ---- *)
\* converting back and forth is the identity, edges are exactly the starts of cycles
RoundTrip == per # <<>> => \A i \in 1..Len(per) : /\ (now \div per[i]) * per[i] <= now
                                                  /\ (now % per[i] = 0) <=> ((now \div per[i]) * per[i] = now)
\* a crossing arrives on a destination edge, never early and less than a destination cycle late
Arrives == [][ (op'.o = "cross" /\ ret'.k = "ok") =>
                 LET d == ret'.v[1] w == op'.a[3] + op'.a[4] p == per[op'.a[2]]
                 IN d >= w /\ d - w < p /\ (now + d) % p = 0 ]_vars
\* reverse crossing inverts the forward one: sent from there it arrives at x, from the next edge it would be late
Inverts == [][ (op'.o = "rev" /\ ret'.k = "ok") =>
                 LET x == op'.a[1] t == x - ret'.v[1] w == op'.a[4] + op'.a[5] s == per[op'.a[2]] d == per[op'.a[3]]
                 IN t % s = 0 /\ Up(t + w, d) <= x /\ t + s + w > x ]_vars
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == IF t.o = "norm" THEN t.k = "ok" /\ op' = [o |-> t.o, a |-> t.a] /\ Norm(t.v)
                ELSE Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v]
=============================================================================
