------------------------------- MODULE Async -------------------------------
(* Events posted to a running sparta::Scheduler from other threads            *)
(* (AsyncEvent, Scheduler::scheduleAsyncEvent / cancelAsyncEvent).            *)
(*                                                                            *)
(* A post is [th, e, d, lo, hi]: the posting thread, the event, the delay and *)
(* the ticks it may fire in. It is picked up some time after it was made, at  *)
(* the latest with the next tick, and fires d ticks after that.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cfgs, MOps, MaxT, MaxP

VARIABLES cfg,   \* [ev |-> seq of [ph, th, d]]: phase; the only thread and delay used for it (0 and -1: any); bp: phase of the heartbeat
          out,   \* outstanding posts in posting order
          now,   \* the tick being executed, or the next one between runs
          ph,    \* phase of the last event fired in `now`
          run,   \* 1 inside a run
          end,   \* first tick after the run
          op, ret

vars == <<cfg, out, now, ph, run, end, op, ret>>
View == <<cfg.a, out, now, ph, run, end>>
INF == 1000000000

MkCfg(a) == [a |-> a, bp |-> a[3*a[1]+2], ev |-> [i \in 1..a[1] |-> [ph |-> a[3*i-1], th |-> a[3*i], d |-> a[3*i+1]]]]
Ev == cfg.ev
Without(s, J) == LET keep == {j \in 1..Len(s) : j \notin J}
                 IN SelectSeq([j \in 1..Len(s) |-> [x |-> s[j], k |-> j \in keep]], LAMBDA y : y.k)
Drop(s, J) == LET w == Without(s, J) IN [j \in 1..Len(w) |-> w[j].x]
\* identified: thread and delay follow from the event
Known(e) == Ev[e].th # 0 /\ Ev[e].d # -1
Fits(th, e, d) == /\ Ev[e].th \in {0, th} /\ Ev[e].d \in {-1, d}

Post(th, e, d) ==
    /\ Fits(th, e, d)
    /\ out' = Append(out, [th |-> th, e |-> e, d |-> d, lo |-> now + d, hi |-> now + d + 1])
    /\ UNCHANGED <<cfg, now, ph, run, end>>
\* all posts of threads running free; they may be made at any time until they are joined
RECURSIVE Posts(_)
Posts(a) == IF a = <<>> THEN <<>>
            ELSE <<[th |-> a[1], e |-> a[2], d |-> a[3], lo |-> now + a[3], hi |-> INF]>> \o Posts(SubSeq(a, 4, Len(a)))
Storm(a) == out' = out \o Posts(a) /\ UNCHANGED <<cfg, now, ph, run, end>>
Joined == /\ out' = [j \in 1..Len(out) |-> IF out[j].hi = INF THEN [out[j] EXCEPT !.hi = now + out[j].d + 1] ELSE out[j]]
          /\ UNCHANGED <<cfg, now, ph, run, end>>
Run(n) == run = 0 /\ run' = 1 /\ end' = now + n /\ ph' = 0 /\ UNCHANGED <<cfg, out, now>>
\* time reaches tick t, everything due before has fired
Reach(t) == run = 1 /\ t >= now /\ t < end /\ \A j \in 1..Len(out) : out[j].hi >= t
Fire(e, t) ==
    /\ Reach(t)
    /\ LET J == {j \in 1..Len(out) : out[j].e = e /\ out[j].lo <= t} IN
       /\ J # {}
       /\ LET x == CHOOSE j \in J : \A k \in J : IF Known(e) THEN j <= k
                                       ELSE \/ out[j].hi < out[k].hi
                                            \/ out[j].hi = out[k].hi /\ (out[j].lo < out[k].lo \/ (out[j].lo = out[k].lo /\ j <= k))
              \* posted earlier by the same thread with the same delay and not fired yet
              older == {j \in 1..(x-1) : Known(e) /\ Known(out[j].e) /\ out[j].th = out[x].th /\ out[j].d = out[x].d}
          IN /\ \A j \in older : Ev[out[j].e].ph > Ev[e].ph /\ out[j].lo <= t
             /\ out' = Drop([j \in 1..Len(out) |-> IF j \in older THEN [out[j] EXCEPT !.hi = t] ELSE out[j]], {x})
    /\ t = now => Ev[e].ph >= ph
    /\ now' = t /\ ph' = Ev[e].ph /\ UNCHANGED <<cfg, run, end>>
Beat(t) == Reach(t) /\ (t = now => ph <= cfg.bp) /\ t \in {now, now + 1} /\ now' = t /\ ph' = cfg.bp /\ UNCHANGED <<cfg, out, run, end>>
RunEnd(c) == /\ run = 1 /\ c = end /\ \A j \in 1..Len(out) : out[j].hi >= c
             /\ run' = 0 /\ now' = c /\ ph' = 0 /\ UNCHANGED <<cfg, out, end>>
Cancel(e) == out' = Drop(out, {j \in 1..Len(out) : out[j].e = e}) /\ UNCHANGED <<cfg, now, ph, run, end>>

Do(o, a) ==
    /\ op' = [o |-> o, a |-> a]
    /\ ret' = [k |-> "ok", v |-> <<>>]
    /\ CASE o = "post"   -> Post(a[1], a[2], a[3])
         [] o = "storm"  -> Storm(a)
         [] o = "joined" -> Joined
         [] o = "run"    -> Run(a[1])
         [] o = "fire"   -> Fire(a[1], a[2])
         [] o = "beat"   -> Beat(a[1])
         [] o = "runend" -> RunEnd(a[1])
         [] o = "cancel" -> Cancel(a[1])
         [] OTHER -> FALSE

InitWith(a) == /\ cfg = MkCfg(a) /\ out = <<>> /\ now = 0 /\ ph = 0 /\ run = 0 /\ end = 0
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \/ \E m \in MOps : (m[1] = "run" => run = 0) /\ Do(m[1], m[2])
        \/ run = 1 /\ \E e \in 1..Len(Ev), t \in {now, now + 1} : Do("fire", <<e, t>>)
        \/ run = 1 /\ \E t \in {now, now + 1} : Do("beat", <<t>>)
        \/ run = 1 /\ Do("runend", <<end>>)
Spec == Init /\ [][Next]_vars
Bound == now <= MaxT /\ Len(out) <= MaxP

(* ---- properties ---- *)
\* nothing outstanding can have missed its last tick
NotLost == \A j \in 1..Len(out) : out[j].hi >= now
\* a post leaves only by firing once or by cancelling, and fires in its window
OnlyOnce == [][ /\ (op'.o \notin {"fire", "cancel"}) => Len(out') >= Len(out)
                /\ op'.o = "fire" => /\ Len(out') = Len(out) - 1
                                     /\ \E j \in 1..Len(out) : out[j].e = op'.a[1] /\ out[j].lo <= op'.a[2] /\ op'.a[2] <= out[j].hi ]_vars
NotPast == [][ op'.o = "fire" => op'.a[2] >= now ]_vars

EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v]
=============================================================================
