------------------------------- MODULE Sync --------------------------------
(* Synchronising ports: one-way links between two clock domains.              *)
(* A tick is: "beat" (operations before any delivery), the deliveries due     *)
(* ("rx"), "late" (operations after all deliveries).                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps, MaxT, MaxP

VARIABLES cfg,    \* sequence of links [ps, pr (periods), hd (port delay in half receiver cycles), rv (ready/valid handshake in use)]
          now, ph,\* tick; 0 before deliveries, 1 delivering, 2 after
          lk,     \* per link: [infl |-> <<[v, t]>>, prev, psend, cur, pre, tk]
          dc,     \* per link, what the receiving port holds
          op, ret
vars == <<cfg, now, ph, lk, dc, op, ret>>
View == <<cfg.a, now, ph, lk, dc>>

Up(x, p) == ((x + p - 1) \div p) * p
Rd(i) == (cfg.l[i].hd * cfg.l[i].pr) \div 2
RdC(i) == (cfg.l[i].hd + 1) \div 2
\* arrival of an item sent now with d sender cycles of delay, without and with slide
Arr(i, d) == Up(now + d * cfg.l[i].ps + Rd(i), cfg.l[i].pr)
Slid(i, a, prev) == IF prev # -1 /\ a <= prev THEN prev + cfg.l[i].pr ELSE a
RECURSIVE Beats(_, _, _, _)
Beats(i, d, k, prev) == LET a == Slid(i, Arr(i, d), prev) IN IF k = 0 THEN a ELSE Beats(i, d + 1, k - 1, a)
\* the cycle for which a further item would have to be sent after n beats that start now + d
NextCycle(i, d, n) == LET a == Beats(i, d, n, lk[i].prev) IN (a - d * cfg.l[i].ps - Rd(i)) \div cfg.l[i].ps + d
SPos(i) == now % cfg.l[i].ps = 0
\* readiness takes effect in the cycle after it was set
Latched(i) == IF lk[i].tk = now THEN lk[i].pre ELSE lk[i].cur
Ready(i) == /\ lk[i].prev = -1 \/ Arr(i, 0) > lk[i].prev
            /\ Latched(i) = 0 => Len(lk[i].infl) = 0 /\ RdC(i) > 0
B(b) == IF b THEN 1 ELSE 0

Ret(v) == ret' = [k |-> "ok", v |-> v]
Same == UNCHANGED <<cfg, now, ph, lk, dc>>
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ Same
Q(v) == Ret(v) /\ Same
Free == UNCHANGED <<cfg, now, ph, dc>>

Sent(i, v, d, sl) ==
    LET a == IF sl = 1 THEN Slid(i, Arr(i, d), lk[i].prev) ELSE Arr(i, d)
        c == NextCycle(i, d, 0)
    IN IF lk[i].prev # -1 /\ a <= lk[i].prev THEN Exc            \* one item per receiver cycle
       ELSE IF lk[i].psend # -1 /\ c <= lk[i].psend THEN Exc     \* one item per sender cycle
       ELSE /\ lk' = [lk EXCEPT ![i].infl = Append(@, [v |-> v, t |-> a]), ![i].prev = a, ![i].psend = c]
            /\ Ret(<<a - now>>) /\ Free
\* a zero-delay arrival after the deliveries of the tick is a misuse, as is sending against ready while something is in flight
Send(i, v, d, sl) ==
    /\ (SPos(i) /\ ph = 2) => (IF sl = 1 THEN Slid(i, Arr(i, d), lk[i].prev) ELSE Arr(i, d)) > now
    /\ cfg.l[i].rv = 0
    /\ IF SPos(i) THEN Sent(i, v, d, sl) ELSE Exc
\* send if the port says it is ready; it then is accepted
TrySend(i, v) ==
    /\ ph = 2 => Arr(i, 0) > now
    /\ IF ~SPos(i) THEN Exc ELSE IF Ready(i) THEN Sent(i, v, 0, 0) ELSE Q(<<-1>>)
IsReady(i) == IF SPos(i) THEN Q(<<B(Ready(i))>>) ELSE Exc
ReadyPS(i) == IF RdC(i) = 0 THEN Q(<<lk[i].cur>>) ELSE Exc
\* at most once per tick, except to repeat the value
SetReady(i, b) ==
    /\ cfg.l[i].rv = 1
    /\ IF lk[i].tk = now THEN (IF b = lk[i].cur THEN Q(<<>>) ELSE Exc)
       ELSE lk' = [lk EXCEPT ![i].pre = lk[i].cur, ![i].cur = b, ![i].tk = now] /\ Ret(<<>>) /\ Free
NextQ(i, d, n) == IF SPos(i) THEN Q(<<NextCycle(i, d, n)>>) ELSE Exc
InDriven(i, r) == Q(<<B(\E j \in 1..Len(lk[i].infl) : r = -1 \/ lk[i].infl[j].t = now + r * cfg.l[i].pr)>>)
\* sure in two cases: something in flight for that cycle; nothing sent that late
OutDriven(i, r, v) ==
    LET a == Arr(i, IF r = -1 THEN 0 ELSE r) IN
    IF ~SPos(i) THEN Exc
    ELSE /\ (\E j \in 1..Len(lk[i].infl) : lk[i].infl[j].t = a) => v = <<1>>
         /\ (lk[i].prev = -1 \/ lk[i].prev < a) => v = <<0>>
         /\ v \in {<<0>>, <<1>>} /\ Q(v)
DQ(i) == Q(<<dc[i].ok, B(dc[i].ok = 1 /\ dc[i].t = now), IF dc[i].ok = 1 THEN dc[i].v ELSE -1>>)
Pull(i) == IF dc[i].ok = 0 THEN Exc ELSE dc' = [dc EXCEPT ![i].ok = 0] /\ Ret(<<dc[i].v>>) /\ UNCHANGED <<cfg, now, ph, lk>>

\* an item due while the receiver is not ready goes round for one receiver cycle
Recirc(i) == /\ lk[i].infl # <<>> /\ lk[i].infl[1].t = now /\ Latched(i) = 0 /\ Len(lk[i].infl) = 1
Round(i) == [lk[i] EXCEPT !.infl = <<[lk[i].infl[1] EXCEPT !.t = now + cfg.l[i].pr]>>, !.prev = now + cfg.l[i].pr]
\* before: nothing due remains undelivered when the tick is over
Due(i) == lk[i].infl # <<>> /\ lk[i].infl[1].t = now /\ Latched(i) = 1
Beat == /\ ph = 2 /\ now' = now + 1 /\ ph' = 0 /\ UNCHANGED <<cfg, lk, dc>> /\ Ret(<<now + 1>>)
Rx(i) == /\ ph \in {0, 1} /\ Due(i)
         /\ lk' = [lk EXCEPT ![i].infl = Tail(@)] /\ dc' = [dc EXCEPT ![i] = [ok |-> 1, v |-> lk[i].infl[1].v, t |-> now]]
         /\ ph' = 1 /\ Ret(<<lk[i].infl[1].v, now>>) /\ UNCHANGED <<cfg, now>>
Late == /\ ph \in {0, 1} /\ \A i \in 1..Len(lk) : ~Due(i)
        /\ \A i \in 1..Len(lk) : lk[i].infl # <<>> => (lk[i].infl[1].t > now \/ Recirc(i))
        /\ lk' = [i \in 1..Len(lk) |-> IF Recirc(i) THEN Round(i) ELSE lk[i]]
        /\ ph' = 2 /\ Ret(<<now>>) /\ UNCHANGED <<cfg, now, dc>>

Ctl == ph \in {0, 2}
DoV(o, a, v) ==
    /\ op' = [o |-> o, a |-> a]
    /\ CASE o = "send"   -> Ctl /\ Send(a[1], a[2], a[3], a[4])
         [] o = "try"    -> Ctl /\ TrySend(a[1], a[2])
         [] o = "isready"-> Ctl /\ IsReady(a[1])
         [] o = "readyps"-> Ctl /\ ReadyPS(a[1])
         [] o = "setready" -> Ctl /\ SetReady(a[1], a[2])
         [] o = "next"   -> Ctl /\ NextQ(a[1], a[2], a[3])
         [] o = "idriven" -> Ctl /\ InDriven(a[1], a[2])
         [] o = "odriven" -> Ctl /\ OutDriven(a[1], a[2], v)
         [] o = "dq"     -> Ctl /\ DQ(a[1])
         [] o = "pull"   -> Ctl /\ Pull(a[1])
         [] o = "beat"   -> Beat
         [] o = "rx"     -> Rx(a[1])
         [] o = "late"   -> Late
         [] OTHER -> FALSE
Do(o, a) == IF o = "odriven" THEN \E n \in 0..1 : DoV(o, a, <<n>>) ELSE DoV(o, a, <<>>)

MkCfg(a) == [a |-> a, l |-> [i \in 1..a[1] |-> [ps |-> a[5*i - 3], pr |-> a[5*i - 2], hd |-> a[5*i - 1], rv |-> a[5*i]]]]
InitWith(a) ==
    /\ cfg = MkCfg(a) /\ now = 0 /\ ph = 0
    /\ lk = [i \in 1..a[1] |-> [infl |-> <<>>, prev |-> -1, psend |-> -1, cur |-> a[5*i + 1], pre |-> a[5*i + 1], tk |-> 0]]
    /\ dc = [i \in 1..a[1] |-> [ok |-> 0, v |-> 0, t |-> 0]]
    /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \/ Ctl /\ \E m \in MOps : Do(m[1], m[2])
        \/ Do("beat", <<>>) \/ Do("late", <<>>) \/ \E i \in 1..Len(lk) : Do("rx", <<i>>)
Spec == Init /\ [][Next]_vars
Bound == now <= MaxT /\ \A i \in 1..Len(lk) : Len(lk[i].infl) <= MaxP

(* ---- properties ---- *)
\* in flight in sending order, on distinct rising edges of the receiver, never in the past
InFlight == \A i \in 1..Len(lk) : /\ \A j, k \in 1..Len(lk[i].infl) : j < k => lk[i].infl[j].t < lk[i].infl[k].t
                                  /\ \A j \in 1..Len(lk[i].infl) : lk[i].infl[j].t % cfg.l[i].pr = 0 /\ lk[i].infl[j].t >= now
                                  /\ lk[i].infl # <<>> => lk[i].infl[Len(lk[i].infl)].t = lk[i].prev
\* a tick always comes to its end: the handshake never gets stuck
NotStuck == ph \in {0, 1} => \A i \in 1..Len(lk) : (lk[i].infl # <<>> /\ lk[i].infl[1].t = now /\ Latched(i) = 0) => Recirc(i)
\* ready means that sending is accepted, not ready that it is not
ReadyExact == [][ (op'.o = "try" /\ ret'.k = "ok") => (ret'.v[1] # -1 <=> Ready(op'.a[1])) ]_vars
NotEarly == [][ (op'.o \in {"send", "try"} /\ ret'.k = "ok" /\ ret'.v[1] # -1) =>
                 now + ret'.v[1] >= now + (IF op'.o = "send" THEN op'.a[3] * cfg.l[op'.a[1]].ps ELSE 0) + Rd(op'.a[1]) ]_vars
Once == [][ \A i \in 1..Len(lk) : Len(lk'[i].infl) < Len(lk[i].infl) => (op'.o = "rx" /\ lk'[i].infl = Tail(lk[i].infl)) ]_vars
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == DoV(t.o, t.a, t.v) /\ ret' = [k |-> t.k, v |-> t.v]
=============================================================================
