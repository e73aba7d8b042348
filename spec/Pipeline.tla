------------------------------- MODULE Pipeline -------------------------------
(* sparta::Pipeline: a pipe whose stages run handlers. An update moves every    *)
(* element one stage on, except those held by a stall, and schedules the        *)
(* handlers of the stages that now hold an element for the same cycle.          *)
(* A cycle: its update, operations in the Flush phase ("step a": a of them),    *)
(* the handlers ("ran b"), b operations after all handlers.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps

VARIABLES n, pay, prec, hk,     \* stages; handlers receive a payload; 0 no / 1 forward / 2 backward precedence; stage -> kind of handlers
          st,                   \* -1..n-1 -> value, 0 = nothing
          ev,                   \* stage -> value its handlers were scheduled with this cycle, 0 = not scheduled
          act, sup, adv,        \* handlers activated; suppressed by a stall; stage may move on during a stall
          ss, sc,               \* stalling stage (-1: none), cycles left
          own, up, mode, left, upd,
          a0, op, ret
conf == <<n, pay, prec, hk>>
pst == <<st, ev, act, sup, adv, ss, sc, own, up, upd>>
vars == <<conf, pst, mode, left, a0, op, ret>>
View == <<a0, pst, mode, left>>

Stages == 0..(n - 1)
AnyIn == \E i \in -1..(n-1) : st[i] # 0
Num(s) == Cardinality({i \in Stages : s[i] # 0})
B(b) == IF b THEN 1 ELSE 0
Later == up \cup {IF mode = "pre" THEN 1 ELSE 0}
Kick == up' = (IF own THEN Later ELSE up)
Ok(v) == ret' = [k |-> "ok", v |-> v]
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ UNCHANGED pst
Q(v) == Ok(v) /\ UNCHANGED pst
\* kinds of handlers: 0 none, 1 Tick, 2 Tick twice, 3 Collection, 4 Collection and Tick
NC(s) == IF hk[s] \in {3, 4} THEN 1 ELSE 0
NT(s) == CASE hk[s] = 2 -> 2 [] hk[s] \in {1, 4} -> 1 [] OTHER -> 0
Has(s) == hk[s] # 0

Shifted(s) == [i \in DOMAIN s |-> IF i = -1 THEN 0 ELSE s[i-1]]
Append1(v) == IF st[-1] # 0 THEN Exc ELSE st' = [st EXCEPT ![-1] = v] /\ Kick /\ UNCHANGED <<ev, act, sup, adv, ss, sc, own, upd>> /\ Ok(<<>>)
Write(i, v) == IF i \notin Stages THEN Exc ELSE st' = [st EXCEPT ![i] = v] /\ Kick /\ UNCHANGED <<ev, act, sup, adv, ss, sc, own, upd>> /\ Ok(<<>>)
Invalidate(i) == IF i \notin Stages THEN Exc ELSE IF st[i] = 0 THEN Exc
                 ELSE st' = [st EXCEPT ![i] = 0] /\ Kick /\ UNCHANGED <<ev, act, sup, adv, ss, sc, own, upd>> /\ Ok(<<>>)
FlApp == st' = [st EXCEPT ![-1] = 0] /\ UNCHANGED <<ev, act, sup, adv, ss, sc, own, up, upd>> /\ Ok(<<>>)
Freed(f, x) == [s \in Stages |-> IF s <= ss THEN x ELSE f[s]]
Unstalled == sup' = Freed(sup, FALSE) /\ adv' = Freed(adv, TRUE) /\ ss' = -1 /\ sc' = 0
\* a flushed stage takes its handlers with it, and the stall it caused
Flush(F) == /\ st' = [i \in DOMAIN st |-> IF i \in F THEN 0 ELSE st[i]]
            /\ ev' = [s \in Stages |-> IF s \in F THEN 0 ELSE ev[s]]
            /\ IF ss \in F THEN Unstalled ELSE UNCHANGED <<sup, adv, ss, sc>>
            /\ UNCHANGED <<act, own, up, upd>> /\ Ok(<<>>)
FlushStage(i) == IF i \notin Stages THEN Exc ELSE Flush({i})
\* the stages held: from the stalling one back, up to the first bubble if bubbles are to be crushed
Held(s0, crush) == {s \in 0..s0 : crush = 0 \/ \A j \in s..s0 : st[j] # 0}
Stall(s0, k, crush, mute) ==
    IF s0 \notin Stages THEN Exc ELSE IF st[s0] = 0 \/ ss # -1 THEN Exc
    ELSE IF k = 0 THEN Q(<<>>)
    ELSE /\ ss' = s0 /\ sc' = k
         /\ adv' = [s \in Stages |-> adv[s] /\ s \notin Held(s0, crush)]
         /\ sup' = [s \in Stages |-> sup[s] \/ (mute = 1 /\ s \in Held(s0, crush))]
         /\ UNCHANGED <<st, ev, act, own, up, upd>> /\ Ok(<<>>)
ClearStall == IF ss = -1 THEN Exc ELSE Unstalled /\ UNCHANGED <<st, ev, act, own, up, upd>> /\ Ok(<<>>)
Activate(i, b) == IF i \notin Stages THEN Exc ELSE IF ~Has(i) THEN Exc
                  ELSE act' = [act EXCEPT ![i] = b] /\ sup' = (IF b THEN [sup EXCEPT ![i] = FALSE] ELSE sup)
                       /\ UNCHANGED <<st, ev, adv, ss, sc, own, up, upd>> /\ Ok(<<>>)
\* beyond the stalling stage everything moves on; before it, only what the stall does not hold; last the appended element
Beyond == [i \in DOMAIN st |-> IF i <= ss THEN st[i] ELSE IF i = ss + 1 THEN 0 ELSE st[i-1]]
RECURSIVE Up(_, _)
Up(s, i) == IF i = 0 THEN s
            ELSE IF adv[i-1] /\ s[i] = 0 /\ s[i-1] # 0 THEN Up([s EXCEPT ![i] = s[i-1], ![i-1] = 0], i - 1) ELSE Up(s, i - 1)
Enter(s) == IF s[-1] # 0 /\ s[0] = 0 THEN [s EXCEPT ![0] = s[-1], ![-1] = 0] ELSE s
AfterUpdate == IF ss = -1 THEN Shifted(st) ELSE Enter(Up(Beyond, IF ss = n - 1 THEN n - 1 ELSE ss + 1))
DoUpdate == LET s == AfterUpdate IN
    /\ st' = s
    /\ ev' = [i \in Stages |-> IF s[i] # 0 /\ Has(i) /\ act[i] /\ ~sup[i] THEN s[i] ELSE ev[i]]
    /\ IF ss = -1 THEN UNCHANGED <<sup, adv, ss, sc>>
       ELSE IF sc = 1 THEN Unstalled ELSE sc' = sc - 1 /\ UNCHANGED <<sup, adv, ss>>
    /\ UNCHANGED act
Update == IF own THEN Exc ELSE mode = "pre" /\ ~upd /\ DoUpdate /\ upd' = TRUE /\ UNCHANGED <<own, up>> /\ Ok(<<>>)
Own == own' = TRUE /\ up' = (IF ~own /\ AnyIn THEN Later ELSE up) /\ UNCHANGED <<st, ev, act, sup, adv, ss, sc, upd>> /\ Ok(<<>>)
Read(i) == IF i \notin Stages THEN Exc ELSE IF st[i] = 0 THEN Exc ELSE Q(<<st[i]>>)

Step(m) == /\ mode = "pre"
           /\ IF 0 \in up THEN DoUpdate ELSE UNCHANGED <<st, ev, act, sup, adv, ss, sc>>
           /\ up' = {x - 1 : x \in up \ {0}} \cup (IF 0 \in up /\ (\E i \in DOMAIN st : st'[i] # 0) THEN {0} ELSE {})
           /\ mode' = "mid" /\ left' = m /\ upd' = FALSE /\ UNCHANGED own /\ Ok(<<>>)
\* the order in which handlers of the stages run: given by the precedence, else by stage (the harness sorts)
RECURSIVE Cat(_, _)
Cat(f, i) == IF i = n THEN <<>> ELSE LET s == IF prec = 2 THEN n - 1 - i ELSE i IN f[s] \o Cat(f, i + 1)
Val(s) == IF pay THEN ev[s] ELSE st[s]
Runs == LET one(s, h) == <<s, h, Val(s)>>
            C == [s \in Stages |-> IF ev[s] # 0 /\ NC(s) = 1 THEN one(s, 0) ELSE <<>>]
            T == [s \in Stages |-> IF ev[s] = 0 THEN <<>> ELSE IF NT(s) = 2 THEN one(s, 0) \o one(s, 1)
                                   ELSE IF NT(s) = 1 THEN one(s, NC(s)) ELSE <<>>]
        IN Cat(C, 0) \o Cat(T, 0)
Ran(m) == /\ mode = "mid" /\ left = 0
          /\ mode' = (IF m = 0 THEN "pre" ELSE "post") /\ left' = m
          /\ ev' = [s \in Stages |-> 0]
          /\ UNCHANGED <<st, act, sup, adv, ss, sc, own, up, upd>>
          /\ Ok(Runs)

Do(o, a) ==
    /\ UNCHANGED <<a0, conf>>
    /\ op' = [o |-> o, a |-> a]
    /\ IF o \in {"step", "ran"} THEN TRUE
       ELSE IF mode = "pre" THEN UNCHANGED <<mode, left>>
       ELSE left > 0 /\ left' = left - 1 /\ mode' = (IF mode = "post" /\ left = 1 THEN "pre" ELSE mode)
    /\ CASE o = "append" -> Append1(a[1])
         [] o = "write"  -> Write(a[1], a[2])
         [] o = "inval"  -> Invalidate(a[1])
         [] o = "flush"  -> FlushStage(a[1])
         [] o = "flall"  -> Flush(Stages)
         [] o = "flapp"  -> FlApp
         [] o = "stall"  -> Stall(a[1], a[2], a[3], a[4])
         [] o = "unstall" -> ClearStall
         [] o = "activ"  -> Activate(a[1], a[2] = 1)
         [] o = "read"   -> Read(a[1])
         [] o = "update" -> Update
         [] o = "own"    -> Own
         [] o = "step"   -> Step(a[1])
         [] o = "ran"    -> Ran(a[1])
         [] OTHER -> FALSE
\* parameters: payload, precedence, kinds of handlers of each stage
InitWith(a) == /\ a0 = a /\ n = Len(a) - 2 /\ pay = (a[1] = 1) /\ prec = a[2]
               /\ hk = [s \in 0..(Len(a)-3) |-> a[s+3]]
               /\ st = [i \in -1..(Len(a)-3) |-> 0] /\ ev = [s \in 0..(Len(a)-3) |-> 0]
               /\ act = [s \in 0..(Len(a)-3) |-> TRUE] /\ sup = [s \in 0..(Len(a)-3) |-> FALSE] /\ adv = [s \in 0..(Len(a)-3) |-> TRUE]
               /\ ss = -1 /\ sc = 0 /\ own = FALSE /\ up = {} /\ mode = "pre" /\ left = 0 /\ upd = FALSE
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
TypeOK == (ss = -1 <=> sc = 0) /\ up \subseteq {0, 1} /\ (ss = -1 => (\A s \in Stages : adv[s] /\ ~sup[s]))
NeverStuck == (own /\ AnyIn) => up # {}
RECURSIVE Line(_, _)
Line(s, i) == IF i < -1 THEN <<>> ELSE (IF s[i] = 0 THEN <<>> ELSE <<s[i]>>) \o Line(s, i - 1)
\* an update neither loses, duplicates nor overtakes; only the last stage is left, and not while it stalls
NoLoss == [][ op'.o \in {"step", "update"} =>
                 \/ Line(st', n - 1) = Line(st, n - 1)
                 \/ st[n-1] # 0 /\ ss # n - 1 /\ Line(st', n - 1) = Tail(Line(st, n - 1)) ]_vars
OneStage == [][ op'.o \in {"step", "update"} => \A i \in Stages : st'[i] # 0 => st'[i] \in {st[i], st[i-1]} ]_vars
StallHolds == [][ (op'.o \in {"step", "update"} /\ ss # -1 /\ st[ss] # 0) => st'[ss] = st[ss] ]_vars
Marches == [][ (op'.o = "step" /\ own /\ 0 \in up /\ ss = -1) => st' = Shifted(st) ]_vars
\* handlers run for exactly the stages that hold an element after the update
HandlersExact == [][ (op'.o = "step" /\ 0 \in up) => \A s \in Stages : (Has(s) /\ act[s] /\ ~sup[s]) => ((ev'[s] # 0) <=> (st'[s] # 0 \/ ev[s] # 0)) ]_vars
ExcPure == [][ ret'.k = "exc" => UNCHANGED pst ]_vars

L(s) == [i \in 1..n |-> s[i-1]]
Obs == [num |-> Num(st), any |-> B(AnyIn), app |-> st[-1], last |-> B(st[n-1] # 0), st |-> L(st), it |-> L(st),
        stall |-> B(ss # -1), stallat |-> [i \in 1..n |-> B(ss # -1 /\ i - 1 <= ss)]]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
