------------------------------- MODULE Sched -------------------------------
(* sparta::Scheduler with its event kinds: what fires when and in which order, *)
(* cancellation, unique events, payloads and their handles, run control.      *)
(*                                                                            *)
(* Time is in ticks. A pending occurrence is [e, t, i]: event, absolute due   *)
(* tick, payload item (0 for events without payload). The order of `pend` is  *)
(* the order of scheduling. Which of several unordered events fires first is  *)
(* left open (the library promises only that it is the same in every run).    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cfgs,     \* configurations explored exhaustively
          MOps,     \* operations explored exhaustively (set of <<name, args>>)
          MRuns,    \* run operations explored exhaustively
          MaxT, MaxP, MaxI

VARIABLES cfg,    \* [a |-> case arguments, ev |-> seq of [k,ph,c,per], prec |-> set of ordered pairs]
          cur,    \* current tick
          el,     \* elapsed ticks
          conf,   \* 1 after restartAt(t # 0): elapsed ticks are documented as confusing from then on
          pend,   \* pending occurrences, in scheduling order
          dead,   \* ticks holding only cancelled occurrences: the run may still stop over there
          lce,    \* latest tick a continuing event was ever scheduled for
          mode,   \* "idle", "run" (between handlers) or "hand" (inside one)
          rn,     \* the run: [n, x, lim, st (stop asked), ft (tick being executed, -1 before), c0, ns]
          fired,  \* events fired in tick rn.ft
          fe,     \* event whose handler is active and its item
          items,  \* payload items: id -> [e, v, st]  st 0 prepared, 1 scheduled, 2 cancelled
          hs,     \* handle slots: slot -> item id or 0
          op, ret,
          obs     \* what the code showed after the step (traces only)

vars == <<cfg, cur, el, conf, pend, dead, lce, mode, rn, fired, fe, items, hs, op, ret, obs>>
View == <<cfg.a, cur, el, conf, pend, dead, lce, mode, rn, fired, fe, items, hs>>
st   == <<cur, el, conf, pend, dead, lce, mode, rn, fired, fe, items, hs>>

INF == -1
NoRun == [n |-> 0, x |-> 0, lim |-> 0, st |-> 0, ft |-> -1, c0 |-> 0]
Range(s) == {s[i] : i \in 1..Len(s)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(a, b) == IF a > b THEN a ELSE b

(* ---- configuration: n, n*(kind, phase, continuing, period), gop nodes, edges, pairs ---- *)
RECURSIVE Closure(_, _)
Closure(R, N) == LET S == R \cup {p \in N \X N : \E b \in N : <<p[1], b>> \in R /\ <<b, p[2]>> \in R}
                 IN IF S = R THEN R ELSE Closure(S, N)
MkCfg(a) ==
    LET n == a[1]
        ev == [i \in 1..n |-> [k |-> a[4*i-2], ph |-> a[4*i-1], c |-> a[4*i], per |-> a[4*i+1]]]
        g == a[4*n + 2]
        m == a[4*n + 3]
        R == {<<a[4*n + 2 + 2*j], a[4*n + 3 + 2*j]>> : j \in 1..m}
        C == Closure(R, 1..(n + g))
    IN [a |-> a, ev |-> ev,
        prec |-> {p \in (1..n) \X (1..n) : ev[p[1]].ph < ev[p[2]].ph \/ p \in C},
        iso |-> {e \in 1..n : \A p \in R : e # p[1] /\ e # p[2]}]
Ev == cfg.ev
Prec(e, f) == <<e, f>> \in cfg.prec

Ok(v) == ret' = [k |-> "ok", v |-> v]
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ UNCHANGED st

(* ---- items and handles ---- *)
Refs(i, h) == {s \in DOMAIN h : h[s] = i}
Purge(it, h, keep) == [i \in {j \in DOMAIN it : it[j].st = 1 \/ Refs(j, h) # {} \/ j = keep} |-> it[i]]
FreshItem == CHOOSE i \in 1..(Cardinality(DOMAIN items) + 1) : i \notin DOMAIN items
Delivering == IF mode = "hand" THEN fe[2] ELSE 0   \* the payload being delivered stays alive for its handler
Pending(e) == {j \in 1..Len(pend) : pend[j].e = e}
PendingAt(e, t) == {j \in Pending(e) : pend[j].t = t}
ItemPend(i) == {j \in 1..Len(pend) : pend[j].i = i}
RECURSIVE Without(_, _)
Without(s, J) == IF J = {} THEN s
                 ELSE LET m == CHOOSE j \in J : \A k \in J : k <= j
                      IN Without(SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s)), J \ {m})

(* ---- scheduling ---- *)
InTick == mode = "hand"
\* a zero-delay target that has to come before something already fired in this tick
MustReject(e, r) == InTick /\ r = 0 /\ \E f \in fired : Prec(e, f)
\* one that is certain to be still ahead
MustAccept(e, r) == ~InTick \/ r > 0 \/ Prec(fe[1], e) \/ e = fe[1]
                    \/ (e \in cfg.iso /\ fe[1] \in cfg.iso /\ Ev[e].ph = Ev[fe[1]].ph)
Accept(e, r, i) ==
    /\ pend' = Append(pend, [e |-> e, t |-> cur + r, i |-> i])
    /\ lce' = IF Ev[e].c = 1 THEN Max2(lce, cur + r) ELSE lce
Place(e, r) ==    \* events without payload
    \/ /\ ~MustReject(e, r) /\ Accept(e, r, 0) /\ Ok(<<>>)
       /\ UNCHANGED <<cur, el, conf, dead, mode, rn, fired, fe, items, hs>>
    \/ ~MustAccept(e, r) /\ Exc
NoOp(v) == UNCHANGED st /\ Ok(v)
Sched(e, r, d) ==
    CASE Ev[e].k = 1 -> Place(e, r)
      [] Ev[e].k = 2 -> IF InTick /\ r = 0 /\ e \in fired THEN Exc
                        ELSE IF PendingAt(e, cur + r) # {} THEN NoOp(<<>>) ELSE Place(e, r)
      [] Ev[e].k = 3 -> IF d > 1 THEN Exc
                        ELSE IF (InTick /\ r = 0 /\ e \in fired) \/ PendingAt(e, cur + r) # {} THEN NoOp(<<>>)
                        ELSE Place(e, r)
      [] OTHER -> FALSE
\* schedule item i of event e
SchedItem(i, r, it, h) ==
    LET e == it[i].e IN
    IF it[i].st # 0 THEN /\ ret' = [k |-> "exc", v |-> <<>>] /\ items' = Purge(it, h, Delivering) /\ hs' = h
                         /\ UNCHANGED <<cur, el, conf, pend, dead, lce, mode, rn, fired, fe>>
    ELSE \/ /\ ~MustReject(e, r) /\ Accept(e, r, i) /\ Ok(<<>>)
            /\ items' = [it EXCEPT ![i].st = 1] /\ hs' = h
            /\ UNCHANGED <<cur, el, conf, dead, mode, rn, fired, fe>>
         \/ /\ ~MustAccept(e, r) /\ ret' = [k |-> "exc", v |-> <<>>]
            /\ items' = Purge(it, h, Delivering) /\ hs' = h
            /\ UNCHANGED <<cur, el, conf, pend, dead, lce, mode, rn, fired, fe>>
WithNew(e, v) == FreshItem :> [e |-> e, v |-> v, st |-> 0] @@ items
Pay(e, v, d) == Ev[e].k = 4 /\ SchedItem(FreshItem, d * Ev[e].per, WithNew(e, v), hs)
SetHandle(s, i, it) ==
    /\ hs' = [hs EXCEPT ![s] = i]
    /\ items' = Purge(it, hs', Delivering)
    /\ Ok(<<>>) /\ UNCHANGED <<cur, el, conf, pend, dead, lce, mode, rn, fired, fe>>
Prep(e, v, s) == Ev[e].k = 4 /\ SetHandle(s, FreshItem, WithNew(e, v))
HSched(s, d) == hs[s] # 0 /\ SchedItem(hs[s], d * Ev[items[hs[s]].e].per, items, hs)
HMove(s, t) ==
    /\ s # t /\ hs' = [hs EXCEPT ![s] = hs[t], ![t] = 0] /\ items' = Purge(items, hs', Delivering)
    /\ Ok(<<>>) /\ UNCHANGED <<cur, el, conf, pend, dead, lce, mode, rn, fired, fe>>

(* ---- cancelling ---- *)
\* remove the pending occurrences J and mark the items I cancelled
Drop(J, I, v) ==
    /\ pend' = Without(pend, J)
    /\ dead' = dead \cup {pend[j].t : j \in J}
    /\ items' = Purge([i \in DOMAIN items |-> IF i \in I THEN [items[i] EXCEPT !.st = 2] ELSE items[i]], hs, Delivering)
    /\ Ok(v) /\ UNCHANGED <<cur, el, conf, lce, mode, rn, fired, fe, hs>>
ItemsOf(e) == {i \in DOMAIN items : items[i].e = e}
ItemsAt(J) == {pend[j].i : j \in J} \ {0}
Cancel(e) == IF Ev[e].k = 4 THEN Drop(Pending(e), ItemsOf(e), <<Cardinality(ItemsOf(e))>>)
             ELSE Drop(Pending(e), {}, <<>>)
CancelAt(e, r) == /\ Ev[e].k # 3
                  /\ LET J == PendingAt(e, cur + r) IN
                     Drop(J, ItemsAt(J), IF Ev[e].k = 4 THEN <<Cardinality(J)>> ELSE <<>>)
CancelIf(e, v) == Ev[e].k = 4 /\ LET I == {i \in ItemsOf(e) : items[i].v = v} IN
                  Drop({j \in 1..Len(pend) : pend[j].i \in I}, I, <<Cardinality(I)>>)
HCancel(s) == hs[s] # 0 /\ Drop(ItemPend(hs[s]), {hs[s]}, <<>>)

(* ---- queries ---- *)
B(b) == IF b THEN <<1>> ELSE <<0>>
IsSch(e) == NoOp(B(IF Ev[e].k = 4 THEN ItemsOf(e) # {} ELSE Pending(e) # {}))
IsSchAt(e, r) == Ev[e].k # 3 /\ NoOp(B(PendingAt(e, cur + r) # {}))

(* ---- running ---- *)
Run(n, x) ==
    /\ mode = "idle"
    /\ IF n = 0 THEN NoOp(<<>>) ELSE
       /\ mode' = "run"
       /\ rn' = [n |-> n, x |-> x, lim |-> IF n = INF THEN INF ELSE cur + n - 1, st |-> 0, ft |-> -1, c0 |-> cur]
       /\ fired' = {} /\ Ok(<<>>)
       /\ lce' = IF x = 1 /\ n # INF /\ (pend # <<>> \/ dead # {}) THEN Max2(lce, cur + n - 1) ELSE lce
       /\ UNCHANGED <<cur, el, conf, pend, dead, fe, items, hs>>
Live == {pend[j].t : j \in 1..Len(pend)}
LiveCont == {pend[j].t : j \in {k \in 1..Len(pend) : Ev[pend[k].e].c = 1}}
InLim(t) == rn.lim = INF \/ t <= rn.lim
Fire(e, v) ==
    /\ mode = "run" /\ pend # <<>>
    /\ LET t == MinOf(Live)
           J == PendingAt(e, t)
       IN /\ J # {} /\ InLim(t) /\ (rn.st = 1 => t = rn.ft)
          /\ (rn.ft # -1 /\ t # rn.ft) => (lce >= t)    \* otherwise nothing continuing is left: stop
          /\ ~\E j \in 1..Len(pend) : pend[j].t = t /\ Prec(pend[j].e, e)
          /\ t = rn.ft => ~\E f \in fired : Prec(e, f)
          /\ LET j == MinOf(J)
                 i == pend[j].i
             IN \* among events of one phase without any precedence, the one scheduled first
                /\ e \in cfg.iso => ~\E k \in 1..(j-1) : pend[k].t = t /\ pend[k].e \in cfg.iso /\ Ev[pend[k].e].ph = Ev[e].ph
                /\ (i # 0 => items[i].v = v) /\ (i = 0 => v = 0)
                /\ pend' = Without(pend, {j})
                /\ items' = IF i = 0 THEN items ELSE [items EXCEPT ![i].st = 0]
                /\ fe' = <<e, i>>
                /\ fired' = IF t = rn.ft THEN fired \cup {e} ELSE {e}
                /\ dead' = {d \in dead : d >= t}
                /\ cur' = t /\ el' = t /\ rn' = [rn EXCEPT !.ft = t] /\ mode' = "hand"
                /\ Ok(<<>>) /\ UNCHANGED <<conf, lce, hs>>
HEnd(v) ==
        /\ mode = "hand" /\ mode' = "run"
        /\ v = IF fe[2] = 0 THEN 0 ELSE items[fe[2]].v      \* its payload was intact to the end
        /\ items' = Purge(items, hs, 0) /\ fe' = <<0, 0>>
        /\ Ok(<<>>) /\ UNCHANGED <<cur, el, conf, pend, dead, lce, rn, fired, hs>>
Stop == /\ IF mode = "idle" THEN UNCHANGED rn ELSE rn' = [rn EXCEPT !.st = 1]
        /\ Ok(<<>>) /\ UNCHANGED <<cur, el, conf, pend, dead, lce, mode, fired, fe, items, hs>>
RunEnd(c) ==
    /\ mode = "run"
    /\ LET now == rn.ft
           deads == {d \in dead : d > now /\ InLim(d)}
           last == IF now = -1 THEN deads ELSE deads \cup {now}     \* ticks that may have been the last one executed
           slots == Live \cup dead
           nolive(x) == ~\E t \in Live : t <= x
       IN \/ rn.st = 1 /\ now # -1 /\ c = now + 1 /\ now \notin Live                  \* asked to stop
          \/ /\ rn.st = 0 /\ rn.lim # INF /\ c = rn.lim + 1 /\ nolive(rn.lim)          \* the limit
             /\ \/ rn.x = 1 \/ lce >= rn.lim
                \/ now = -1 /\ (\E s \in slots : s <= rn.lim + 1)
          \/ /\ rn.st = 0 /\ rn.x = 0                                                  \* nothing continuing left
             /\ \E x \in last : c = x + 1 /\ nolive(x) /\ LiveCont = {}
          \/ /\ rn.st = 0 /\ rn.x = 0 /\ now = -1 /\ c = rn.c0                         \* nothing within reach
             /\ rn.lim # INF /\ \A t \in Live : t > rn.lim + 1
          \/ rn.st = 0 /\ now = -1 /\ rn.lim = INF /\ Live = {} /\ c = rn.c0 + 1        \* an open-ended run of nothing
    /\ mode' = "idle" /\ cur' = c
    /\ el' = IF c = rn.c0 /\ rn.ft = -1 THEN el ELSE c - 1
    /\ dead' = {d \in dead : d >= c}
    /\ rn' = NoRun /\ fired' = {}
    /\ Ok(<<>>) /\ UNCHANGED <<conf, pend, lce, fe, items, hs>>
Flush(t) ==
    /\ mode = "idle" /\ pend' = <<>> /\ dead' = {} /\ lce' = 0
    /\ items' = Purge([i \in DOMAIN items |-> IF items[i].st = 1 THEN [items[i] EXCEPT !.st = 2] ELSE items[i]], hs, 0)
    /\ Ok(<<>>) /\ UNCHANGED <<mode, rn, fired, fe, hs>>
Clear == Flush(0) /\ UNCHANGED <<cur, el, conf>>
Restart(t) == Flush(0) /\ cur' = t /\ el' = t /\ conf' = IF t = 0 THEN 0 ELSE 1

InCtl == mode # "run"
Do(o, a) ==
    /\ UNCHANGED cfg
    /\ op' = [o |-> o, a |-> a]
    /\ (o \notin {"fire", "runend"}) => InCtl
    /\ CASE o = "sched"    -> Sched(a[1], a[2] * Ev[a[1]].per, a[2])
         [] o = "schedt"   -> Ev[a[1]].k \in {1, 2} /\ Sched(a[1], a[2], 0)
         [] o = "pay"      -> Pay(a[1], a[2], a[3])
         [] o = "prep"     -> Prep(a[1], a[2], a[3])
         [] o = "hsched"   -> HSched(a[1], a[2])
         [] o = "hdrop"    -> SetHandle(a[1], 0, items)
         [] o = "hcopy"    -> SetHandle(a[1], hs[a[2]], items)
         [] o = "hmove"    -> HMove(a[1], a[2])
         [] o = "hcancel"  -> HCancel(a[1])
         [] o = "cancel"   -> Cancel(a[1])
         [] o = "cancelat" -> CancelAt(a[1], a[2] * Ev[a[1]].per)
         [] o = "cancelif" -> CancelIf(a[1], a[2])
         [] o = "issch"    -> IsSch(a[1])
         [] o = "isschat"  -> IsSchAt(a[1], a[2] * Ev[a[1]].per)
         [] o = "nout"     -> NoOp(<<Cardinality(ItemsOf(a[1]))>>)
         [] o = "getif"    -> NoOp(<<Cardinality({i \in ItemsOf(a[1]) : items[i].v = a[2]})>>)
         [] o = "confirm"  -> NoOp(B(\E i \in ItemsOf(a[1]) : items[i].v = a[2]))
         [] o = "run"      -> Run(a[1], a[2])
         [] o = "fire"     -> Fire(a[1], a[2])
         [] o = "hend"     -> HEnd(a[1])
         [] o = "runend"   -> RunEnd(a[1])
         [] o = "stop"     -> Stop
         [] o = "clear"    -> Clear
         [] o = "restart"  -> Restart(a[1])
         [] OTHER -> FALSE

InitWith(a, slots) ==
    /\ cfg = MkCfg(a) /\ cur = 0 /\ el = 0 /\ conf = 0 /\ pend = <<>> /\ dead = {} /\ lce = 0 /\ mode = "idle"
    /\ rn = NoRun /\ fired = {} /\ fe = <<0, 0>> /\ items = <<>> /\ hs = [s \in slots |-> 0]
    /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>] /\ obs = <<>>

\* the last case argument is the number of handle slots
Slots(a) == 0..(a[Len(a)] - 1)
Init == \E a \in Cfgs : InitWith(a, Slots(a))
Step == \/ mode # "run" /\ \E m \in MOps : Do(m[1], m[2])
        \/ mode = "idle" /\ \E m \in MRuns : Do(m[1], m[2])
        \/ mode = "hand" /\ Do("hend", <<IF fe[2] = 0 THEN 0 ELSE items[fe[2]].v>>)
        \/ mode = "run" /\ \E j \in 1..Len(pend) :
              Do("fire", <<pend[j].e, IF pend[j].i = 0 THEN 0 ELSE items[pend[j].i].v>>)
        \/ mode = "run" /\ \E c \in 0..(MaxT + 3) : Do("runend", <<c>>)
Next == Step /\ UNCHANGED obs
Spec == Init /\ [][Next]_vars
Bound == cur <= MaxT /\ Len(pend) <= MaxP /\ Cardinality(DOMAIN items) <= MaxI

(* ---- properties ---- *)
\* nothing is ever overdue: an occurrence not fired in its tick would be stuck in the past
NotLate == /\ \A j \in 1..Len(pend) : pend[j].t >= cur
           /\ mode = "idle" => \A j \in 1..Len(pend) : pend[j].t >= cur
\* whatever may still fire in this tick comes after nothing that it had to precede
OrderSafe == (rn.ft # -1 /\ mode # "idle") =>
                \A j \in 1..Len(pend) : pend[j].t = rn.ft => \A f \in fired : ~Prec(pend[j].e, f)
\* unique events have at most one occurrence per tick
UniqueOnce == \A i, j \in 1..Len(pend) : (i # j /\ pend[i].e = pend[j].e /\ Ev[pend[i].e].k \in {2, 3}) => pend[i].t # pend[j].t
\* a payload is scheduled at most once at a time, and exactly the scheduled ones are pending
PayloadOnce == \A i \in DOMAIN items : Cardinality(ItemPend(i)) = IF items[i].st = 1 THEN 1 ELSE 0
ItemsHeld == \A s \in DOMAIN hs : hs[s] # 0 => hs[s] \in DOMAIN items
\* an occurrence disappears only by firing, by a cancel or by clearing
NoLoss == [][ (Len(pend') < Len(pend)) => op'.o \in {"fire", "cancel", "cancelat", "cancelif", "hcancel", "clear", "restart"} ]_vars
FireOne == [][ op'.o = "fire" => Len(pend') = Len(pend) - 1 /\ cur' = MinOf(Live) ]_vars
CancelOnly == [][ op'.o \in {"cancel", "cancelat"} => \A e \in 1..Len(Ev) : e # op'.a[1] =>
                    SelectSeq(pend', LAMBDA p : p.e = e) = SelectSeq(pend, LAMBDA p : p.e = e) ]_vars
TimeForward == [][ op'.o \notin {"restart"} => cur' >= cur ]_vars
LimitKept == [][ op'.o = "runend" => (rn.lim # INF => cur' <= rn.lim + 1) /\ (rn.x = 1 /\ rn.st = 0 /\ rn.lim # INF => cur' = rn.lim + 1)
                   /\ (\A j \in 1..Len(pend) : pend[j].t >= cur') ]_vars
EarlyOnly == [][ (op'.o = "runend" /\ cur' # rn.lim + 1 /\ cur' # rn.c0) => rn.st = 1 \/ LiveCont = {} ]_vars

(* ---- binding ---- *)
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a, Slots(t.a))
\* what the code shows after every step, checked against the state after it
ObsOk == op.o = "hend" \/
    LET s == obs IN
    /\ s.cur = cur
    /\ s.live = Cardinality(DOMAIN items)
    /\ s.run = IF mode # "idle" /\ rn.st = 0 THEN 1 ELSE 0
    /\ conf = 1 \/ s.el = el
    /\ op.o = "restart" => s.el \in {op.a[1], op.a[1] + 1}
    /\ mode = "hand" => s.ph = Ev[fe[1]].ph
    /\ mode = "idle" =>
         /\ LiveCont # {} => s.fin = 0
         /\ op.o \in {"clear", "restart"} => s.fin = 1
         /\ s.nxt = INF => Live = {}
         /\ s.nxt # INF => s.nxt \in Live \cup dead /\ \A t \in Live : s.nxt <= t
FinishOk(s) == (op'.o = "runend" /\ rn.ft # -1 /\ dead' = {} /\ (\A t \in Live : t > lce')) => s.fin = 1
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ obs' = t.s /\ ObsOk' /\ FinishOk(t.s)
=============================================================================
