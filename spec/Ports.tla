------------------------------- MODULE Ports -------------------------------
(* sparta::DataInPort/DataOutPort and SignalInPort/SignalOutPort: binding,     *)
(* delays, phases, immediate delivery, merging of signals, cancelling, the     *)
(* data container and the precedence ports create between events.              *)
(*                                                                             *)
(* Nodes: in ports 1..NI, then drivers (plain events) NI+1..NI+ND.             *)
(* A pending delivery is [e, t, v] (node, due tick, value), in sending order.  *)
(* A send to a port of delay 0 whose phase is the one firing is delivered      *)
(* inside the send: handlers nest, so control is a stack of frames:            *)
(*   [f |-> "h", e, n, v]  a handler (n = 1: called from inside a send)        *)
(*   [f |-> "s", o, i, v, r, k]  a send that has served i-1 ports of o         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cfgs, MOps, MaxT, MaxP, MaxS

VARIABLES cfg, now, cph, run, end, pend, ft, fired, stk, dc, op, ret
vars == <<cfg, now, cph, run, end, pend, ft, fired, stk, dc, op, ret>>
View == <<cfg.a, now, cph, run, end, pend, ft, fired, stk, dc>>

RECURSIVE Closure(_, _)
Closure(R, M) == LET S == R \cup {p \in M \X M : \E b \in M : <<p[1], b>> \in R /\ <<b, p[2]>> \in R}
                 IN IF S = R THEN R ELSE Closure(S, M)
RECURSIVE Sel(_, _)
Sel(s, o) == IF s = <<>> THEN <<>> ELSE (IF s[1][1] = o THEN <<s[1][2]>> ELSE <<>>) \o Sel(Tail(s), o)
MkCfg(a) ==
    LET ni == a[1] no == a[2] nd == a[3] nb == a[4] np == a[5] nc == a[6]
        bo == 6 + 4*ni
        bd == bo + 2*no
        bb == bd + nd
        bp == bb + 2*nb
        bc == bp + 2*np
        in == [i \in 1..ni |-> [sig |-> a[4*i+3], ph |-> a[4*i+4], d |-> a[4*i+5], per |-> a[4*i+6]]]
        out == [o \in 1..no |-> [sig |-> a[bo+2*o-1], pz |-> a[bo+2*o]]]
        bind == [b \in 1..nb |-> <<a[bb+2*b-1], a[bb+2*b]>>]
        prod == {<<a[bp+2*b-1], ni + a[bp+2*b]>> : b \in 1..np}
        cons == {<<a[bc+2*b-1], ni + a[bc+2*b]>> : b \in 1..nc}
        ph == [n \in 1..(ni+nd) |-> IF n <= ni THEN in[n].ph ELSE a[bd + n - ni]]
        bnd == {bind[b] : b \in 1..nb}
        zero == {x \in bnd : in[x[2]].d = 0 /\ out[x[1]].pz = 1}
        R1 == {<<c[1], c[2]>> : c \in {k \in cons : (\E x \in bnd : x[2] = k[1]) /\ ph[k[1]] = ph[k[2]]}}
        R2 == UNION {{<<p[2], x[2]>> : x \in {y \in zero : y[1] = p[1] /\ ph[y[2]] = ph[p[2]]}} : p \in prod}
        R3 == UNION {{<<p[2], c[2]>> : c \in {k \in cons : ph[k[2]] = ph[p[2]] /\ \E y \in zero : y[1] = p[1] /\ y[2] = k[1]}} : p \in prod}
        C == Closure(R1 \cup R2 \cup R3, 1..(ni+nd))
    IN [a |-> a, ni |-> ni, in |-> in, out |-> out, ph |-> ph, to |-> [o \in 1..no |-> Sel(bind, o)],
        prec |-> {p \in (1..(ni+nd)) \X (1..(ni+nd)) : ph[p[1]] < ph[p[2]] \/ p \in C}]
Prec(x, y) == <<x, y>> \in cfg.prec
IsIn(e) == e <= cfg.ni
To(o) == cfg.to[o]

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Drop(s, J) == LET w == SelectSeq([j \in 1..Len(s) |-> <<s[j], j>>], LAMBDA y : y[2] \notin J) IN [j \in 1..Len(w) |-> w[j][1]]
Top == stk[Len(stk)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
InH == stk # <<>> /\ Top.f = "h"
Ctl == (stk = <<>> /\ run = 0) \/ InH
\* the port whose scheduled delivery is active somewhere below: it may still count the item being delivered
Busy(i) == \E k \in 1..Len(stk) : stk[k].f = "h" /\ stk[k].e = i /\ stk[k].n = 0
BusyWith(i, v) == \E k \in 1..Len(stk) : stk[k].f = "h" /\ stk[k].e = i /\ stk[k].n = 0 /\ stk[k].v = v

Put(p, i, t, v) ==     \* signals due at one tick are one signal
    IF cfg.in[i].sig = 1 /\ \E j \in 1..Len(p) : p[j].e = i /\ p[j].t = t THEN p
    ELSE Append(p, [e |-> i, t |-> t, v |-> v])
\* serve the ports of the send frame f from f.i on, as far as possible without calling a handler
RECURSIVE Adv(_, _)
Adv(f, p) ==
    IF f.i > Len(To(f.o)) THEN [fr |-> [f EXCEPT !.k = "ok"], p |-> p]
    ELSE LET i == To(f.o)[f.i]
             c == cfg.in[i]
             d == f.r + c.d
         IN IF d = 0 /\ c.ph < cph THEN [fr |-> [f EXCEPT !.k = "exc"], p |-> p]
            ELSE IF d = 0 /\ c.ph = cph THEN [fr |-> [f EXCEPT !.k = "call"], p |-> p]
            ELSE Adv([f EXCEPT !.i = f.i + 1], Put(p, i, now + d * c.per, f.v))
Ret(v) == ret' = [k |-> "ok", v |-> v]
Same == UNCHANGED <<cfg, now, cph, run, end, pend, ft, fired, stk, dc>>
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ Same
Q(v) == Ret(v) /\ Same

Push(f0, s, p) == LET x == Adv(f0, p) IN stk' = Append(s, x.fr) /\ pend' = x.p
Send(o, v, r) ==
    /\ Ctl
    /\ IF To(o) = <<>> THEN stk' = Append(stk, [f |-> "s", o |-> o, i |-> 1, v |-> v, r |-> r, k |-> "exc"]) /\ UNCHANGED pend
       ELSE Push([f |-> "s", o |-> o, i |-> 1, v |-> v, r |-> r, k |-> ""], stk, pend)
    /\ Ret(<<>>) /\ UNCHANGED <<cfg, now, cph, run, end, ft, fired, dc>>
SendEnd ==
    /\ stk # <<>> /\ Top.f = "s" /\ Top.k \in {"ok", "exc"}
    /\ stk' = Pop(stk) /\ ret' = [k |-> Top.k, v |-> <<>>]
    /\ UNCHANGED <<cfg, now, cph, run, end, pend, ft, fired, dc>>
Arrive(i, v) == dc' = [dc EXCEPT ![i] = [ok |-> 1, v |-> v, t |-> now']]
\* a delivery (or a driver firing)
Nested(e, v) ==
    /\ stk # <<>> /\ Top.f = "s" /\ Top.k = "call" /\ To(Top.o)[Top.i] = e
    /\ v = IF cfg.in[e].sig = 1 THEN 1 ELSE Top.v
    /\ stk' = Append(stk, [f |-> "h", e |-> e, n |-> 1, v |-> v])
    /\ UNCHANGED <<cfg, now, cph, run, end, pend, ft, fired>>
    /\ Arrive(e, v)
Scheduled(e, v) ==
    /\ stk = <<>> /\ run = 1 /\ pend # <<>>
    /\ LET t == MinOf({pend[j].t : j \in 1..Len(pend)})
           J == {j \in 1..Len(pend) : pend[j].t = t /\ pend[j].e = e}
       IN /\ J # {} /\ t < end
          /\ ~\E j \in 1..Len(pend) : pend[j].t = t /\ Prec(pend[j].e, e)
          /\ t = ft => ~\E f \in fired : Prec(e, f)
          /\ v = pend[MinOf(J)].v
          /\ pend' = Drop(pend, {MinOf(J)})
          /\ now' = t /\ ft' = t /\ cph' = cfg.ph[e]
          /\ fired' = IF t = ft THEN fired \cup {e} ELSE {e}
          /\ stk' = <<[f |-> "h", e |-> e, n |-> 0, v |-> v]>>
    /\ IF IsIn(e) THEN Arrive(e, v) ELSE UNCHANGED dc
    /\ UNCHANGED <<cfg, run, end>>
Begin(e, v) == (Nested(e, v) \/ Scheduled(e, v)) /\ Ret(<<>>)
End ==
    /\ InH /\ Ret(<<>>)
    /\ IF Top.n = 0 THEN stk' = Pop(stk) /\ UNCHANGED pend
       ELSE LET s == Pop(stk) f == s[Len(s)] IN Push([f EXCEPT !.i = f.i + 1], Pop(s), pend)
    /\ UNCHANGED <<cfg, now, cph, run, end, ft, fired, dc>>
Drv(d, r) == /\ Ctl /\ (InH => r > 0) /\ pend' = Append(pend, [e |-> cfg.ni + d, t |-> now + r, v |-> 0]) /\ Ret(<<>>)
             /\ UNCHANGED <<cfg, now, cph, run, end, ft, fired, stk, dc>>

(* ---- cancelling and queries ---- *)
Elems(s) == {s[j] : j \in 1..Len(s)}
Cnt(ports, P(_)) == {j \in 1..Len(pend) : pend[j].e \in ports /\ P(pend[j].v)}
Remove(ports, P(_), slack, v) ==
    LET J == Cnt(ports, P) IN
    /\ Ctl /\ v[1] >= Cardinality(J) /\ v[1] <= Cardinality(J) + slack
    /\ pend' = Drop(pend, J) /\ Ret(v) /\ UNCHANGED <<cfg, now, cph, run, end, ft, fired, stk, dc>>
\* slack: the items being delivered right now may be counted
Slack(ports) == Cardinality({i \in ports : Busy(i)})
OCancel(o, v) == LET P == Elems(To(o)) IN Remove(P, LAMBDA x : TRUE, Slack(P), v)
OCancelIf(o, y, v) == LET P == Elems(To(o)) IN Remove(P, LAMBDA x : x = y, Cardinality({i \in P : BusyWith(i, y)}), v)
ICancel(i, v) == Remove({i}, LAMBDA x : TRUE, Slack({i}), v)
ICancelIf(i, y, v) == Remove({i}, LAMBDA x : x = y, Cardinality({k \in {i} : BusyWith(k, y)}), v)
Driven(ports, r) == \E j \in 1..Len(pend) : pend[j].e \in ports /\ (r = -1 \/ pend[j].t = now + r * cfg.in[pend[j].e].per)
B(b) == IF b THEN 1 ELSE 0
IsDriven(ports, r, v) == /\ Ctl /\ Q(v)
                         /\ v[1] = B(Driven(ports, r)) \/ (r = -1 /\ v[1] = 1 /\ \E i \in ports : Busy(i))
DQ(i) == Q(<<dc[i].ok, IF dc[i].ok = 1 /\ dc[i].t = now THEN 1 ELSE 0, IF dc[i].ok = 1 THEN dc[i].v ELSE -1,
             IF dc[i].ok = 1 THEN dc[i].t \div cfg.in[i].per ELSE -1>>)
Pull(i) == IF dc[i].ok = 0 THEN Exc
           ELSE dc' = [dc EXCEPT ![i].ok = 0] /\ Ret(<<dc[i].v>>) /\ UNCHANGED <<cfg, now, cph, run, end, pend, ft, fired, stk>>
Clr(i) == dc' = [dc EXCEPT ![i].ok = 0] /\ Ret(<<>>) /\ UNCHANGED <<cfg, now, cph, run, end, pend, ft, fired, stk>>

Run(n) == /\ run = 0 /\ stk = <<>> /\ run' = 1 /\ end' = now + n /\ ft' = -1 /\ fired' = {} /\ Ret(<<>>)
          /\ UNCHANGED <<cfg, now, cph, pend, stk, dc>>
RunEnd == /\ run = 1 /\ stk = <<>> /\ \A j \in 1..Len(pend) : pend[j].t >= end
          /\ run' = 0 /\ now' = end /\ cph' = 0 /\ ft' = -1 /\ fired' = {} /\ Ret(<<>>) /\ UNCHANGED <<cfg, end, pend, stk, dc>>

\* v: the values the code returned (only the counts that may vary are taken from there)
DoV(o, a, v) ==
    /\ op' = [o |-> o, a |-> a]
    /\ CASE o = "send"     -> Send(a[1], a[2], a[3])
         [] o = "sendend"  -> SendEnd
         [] o = "begin"    -> Begin(a[1], a[2])
         [] o = "end"      -> End
         [] o = "drv"      -> Drv(a[1], a[2])
         [] o = "ocancel"  -> OCancel(a[1], v)
         [] o = "ocancelif"-> OCancelIf(a[1], a[2], v)
         [] o = "icancel"  -> ICancel(a[1], v)
         [] o = "icancelif"-> ICancelIf(a[1], a[2], v)
         [] o = "odriven"  -> IsDriven(Elems(To(a[1])), a[2], v)
         [] o = "idriven"  -> IsDriven({a[1]}, a[2], v)
         [] o = "dq"       -> Ctl /\ DQ(a[1])
         [] o = "pull"     -> Ctl /\ Pull(a[1])
         [] o = "clr"      -> Ctl /\ Clr(a[1])
         [] o = "run"      -> Run(a[1])
         [] o = "runend"   -> RunEnd
         [] OTHER -> FALSE
Varying == {"ocancel", "ocancelif", "icancel", "icancelif", "odriven", "idriven"}
Do(o, a) == IF o \in Varying THEN \E n \in 0..(Len(pend) + 1) : DoV(o, a, <<n>>) ELSE DoV(o, a, <<>>)

InitWith(a) == /\ cfg = MkCfg(a) /\ now = 0 /\ cph = 0 /\ run = 0 /\ end = 0 /\ pend = <<>> /\ ft = -1 /\ fired = {} /\ stk = <<>>
               /\ dc = [i \in 1..a[1] |-> [ok |-> 0, v |-> 0, t |-> 0]]
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \/ Ctl /\ \E m \in MOps : (m[1] = "run" => run = 0) /\ Do(m[1], m[2])
        \/ stk # <<>> /\ Top.f = "s" /\ Top.k = "call" /\ Do("begin", <<To(Top.o)[Top.i], IF cfg.in[To(Top.o)[Top.i]].sig = 1 THEN 1 ELSE Top.v>>)
        \/ stk # <<>> /\ Top.f = "s" /\ Top.k # "call" /\ Do("sendend", <<>>)
        \/ stk = <<>> /\ run = 1 /\ \E j \in 1..Len(pend) : Do("begin", <<pend[j].e, pend[j].v>>)
        \/ InH /\ Do("end", <<>>)
        \/ run = 1 /\ stk = <<>> /\ Do("runend", <<>>)
Spec == Init /\ [][Next]_vars
Bound == now <= MaxT /\ Len(pend) <= MaxP /\ Len(stk) <= MaxS

(* ---- properties ---- *)
NotLate == run = 0 => \A j \in 1..Len(pend) : pend[j].t >= now
\* an item leaves only by delivery or cancelling; a delivery is of the oldest item due, at its tick
Once == [][ /\ op'.o \in {"begin"} => /\ Len(pend') \in {Len(pend), Len(pend) - 1}
                                       /\ Len(pend') = Len(pend) - 1 => \E j \in 1..Len(pend) : pend[j] = [e |-> op'.a[1], t |-> now', v |-> op'.a[2]]
            /\ op'.o \notin {"begin", "ocancel", "ocancelif", "icancel", "icancelif"} => Len(pend') >= Len(pend) ]_vars
Signals == \A j, k \in 1..Len(pend) : (j # k /\ IsIn(pend[j].e) /\ pend[j].e = pend[k].e /\ cfg.in[pend[j].e].sig = 1) => pend[j].t # pend[k].t
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == /\ DoV(t.o, t.a, t.v) /\ ret' = [k |-> t.k, v |-> t.v]
                /\ t.o \in {"begin", "end", "run"} => (IF t.o = "run" THEN now ELSE now') = t.s.cur
                /\ t.o = "runend" => now' = t.s.cur
=============================================================================
