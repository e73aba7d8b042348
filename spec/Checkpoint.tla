------------------------------ MODULE Checkpoint ------------------------------
(* sparta::serialization::checkpoint::FastCheckpointer (and the saving of whole  *)
(* states to streams of PersistentFastCheckpointer). The simulated state is a    *)
(* vector of values held by registers, memory lines and checkpointable objects.  *)
(* A checkpoint is what the state was; how it is stored (snapshots, deltas,      *)
(* deleted but still needed links of a chain) is not visible.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Cfgs, MOps, MaxC, Loose

VARIABLES vals, tick,  \* the state, the scheduler's time
          thresh,
          cks,         \* all checkpoints ever made: [t, v, p, al, s]: time, state, previous, alive, snapshot
          hd, cur,     \* head and current (0 = none)
          files,       \* states saved to streams
          sav,         \* committed checkpoints: [id, v]
          past,        \* to explore: deletions in order, and what was current then; ended by one more checkpoint
          a0, op, ret
vars == <<vals, tick, thresh, cks, hd, cur, files, sav, past, a0, op, ret>>
View == <<a0, vals, tick, cks, hd, cur, files, sav, past>>

Ok(v) == ret' = [k |-> "ok", v |-> v]
Keep == UNCHANGED <<cks, hd, cur, files, sav>>
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ Keep /\ UNCHANGED <<vals, tick>>
Q(v) == Ok(v) /\ Keep /\ UNCHANGED <<vals, tick>>
Alive(i) == i \in DOMAIN cks /\ cks[i].al = 1
AliveSet == {i \in DOMAIN cks : cks[i].al = 1}
RECURSIVE Chain(_, _)
Chain(c, i) == IF i = 0 THEN <<>> ELSE <<i>> \o Chain(c, c[i].p)       \* back to the head
RECURSIVE Dist(_, _)
Dist(c, i) == IF c[i].s = 1 THEN 0 ELSE 1 + Dist(c, c[i].p)
CkV(p, s, vs) == [t |-> tick, v |-> vs, p |-> p, al |-> 1, s |-> s]
Ck(p, s) == CkV(p, s, vals)
Sort(s) == SortSeq(SetToSeq(s), LAMBDA x, y : x < y)
Ids(q) == [i \in 1..Len(q) |-> q[i] - 1]

NewHead == IF hd # 0 THEN Exc
        ELSE /\ cks' = <<Ck(0, 1)>> /\ hd' = 1 /\ cur' = 1 /\ Ok(<<>>) /\ UNCHANGED <<vals, tick, files, sav>>
\* sn: whether the implementation chose to store a snapshot
Create(force, sn, file, vs) ==
    LET c0 == IF hd = 0 THEN <<Ck(0, 1)>> ELSE cks
        cr == IF hd = 0 THEN 1 ELSE cur
    IN /\ Len(c0) <= MaxC
       /\ IF tick < c0[cr].t THEN Exc
          ELSE /\ force = 1 => sn = 1
               /\ Loose \/ force = 1 \/ sn = (IF Dist(c0, cr) >= thresh THEN 1 ELSE 0)
               /\ cks' = Append(c0, CkV(cr, sn, vs))
               /\ hd' = (IF hd = 0 THEN 1 ELSE hd) /\ cur' = Len(c0) + 1
               /\ files' = (IF file THEN Append(files, vs) ELSE files)
               /\ Ok(<<Len(c0), sn>>) /\ vals' = vs /\ UNCHANGED <<tick, sav>>
Load(i) == IF ~Alive(i) THEN Exc
           ELSE vals' = cks[i].v /\ tick' = cks[i].t /\ cur' = i /\ Ok(<<>>) /\ UNCHANGED <<cks, hd, files, sav>>
Delete(i) == IF ~Alive(i) \/ i = hd THEN Exc
             ELSE cks' = [cks EXCEPT ![i].al = 0] /\ Ok(<<>>) /\ UNCHANGED <<vals, tick, hd, cur, files, sav>>
\* commit the branch of the current checkpoint
Squash(force) ==
    /\ cur # 0
    /\ LET chain == Reverse(Chain(cks, cur))
           from == CHOOSE k \in 1..Len(chain) : cks[chain[k]].s = 1 /\ \A j \in (k+1)..Len(chain) : cks[chain[j]].s = 0
           out == IF force = 1 THEN chain ELSE SubSeq(chain, 1, from - 1)
           keep == IF force = 1 THEN {} ELSE {chain[k] : k \in from..Len(chain)}
           c1 == [i \in DOMAIN cks |-> IF i \in keep THEN IF i = chain[from] THEN [cks[i] EXCEPT !.p = 0] ELSE cks[i] ELSE [cks[i] EXCEPT !.al = 0]]
       IN /\ \A k \in DOMAIN chain : cks[chain[k]].al = 1
          /\ sav' = sav \o [k \in DOMAIN out |-> [id |-> out[k], v |-> cks[out[k]].v]]
          /\ IF force = 1 THEN /\ Len(cks) <= MaxC /\ cks' = Append(c1, Ck(0, 1)) /\ hd' = Len(cks) + 1 /\ cur' = Len(cks) + 1
             ELSE cks' = c1 /\ hd' = chain[from] /\ cur' = cur
          /\ Ok(Ids(out)) /\ UNCHANGED <<vals, tick, files>>
\* a committed checkpoint is put back for a look, then the current one again
Peek(k) == /\ k \in DOMAIN sav /\ cur # 0 /\ Alive(cur)
           /\ Ok(sav[k].v) /\ vals' = cks[cur].v /\ tick' = cks[cur].t /\ Keep
RECURSIVE Latest(_, _)
Latest(t, i) == IF i = 0 THEN -1 ELSE IF cks[i].al = 1 /\ cks[i].t <= t THEN i - 1 ELSE Latest(t, cks[i].p)

Do(o, a) ==
    /\ UNCHANGED <<a0, thresh>>
    /\ op' = [o |-> o, a |-> a]
    /\ Len(a0) = 3 /\ past # <<>> /\ Last(past)[1] = -1 => o = "load"
    /\ Len(a0) = 3 /\ o = "delete" => Len(cks) <= MaxC
    /\ past' = (IF Len(a0) = 3 /\ o = "delete" /\ Alive(a[1] + 1) THEN Append(past, <<a[1], cur>>)
                ELSE IF Len(a0) = 3 /\ o = "wcreate" /\ past # <<>> THEN Append(past, <<-1, 0>>) ELSE past)
    /\ o = "w" /\ a[1] \in {7, 8} /\ ~Loose => thresh = 0   \* checkpointables: only kept exactly by snapshots (known finding)
    /\ CASE o = "w"       -> vals' = [vals EXCEPT ![a[1]] = a[2]] /\ Ok(<<>>) /\ Keep /\ UNCHANGED tick
         [] o = "run"     -> tick' = tick + a[1] /\ tick' <= 60 /\ Ok(<<>>) /\ Keep /\ UNCHANGED vals
         [] o = "restart" -> tick' = a[1] /\ Ok(<<>>) /\ Keep /\ UNCHANGED vals
         [] o = "head"    -> NewHead
         [] o = "create"  -> \E sn \in {0, 1} : Create(a[1], sn, FALSE, vals)
         [] o = "wcreate" -> hd # 0 /\ Len(cks) \in DOMAIN vals /\ \E sn \in {0, 1} : Create(a[1], sn, FALSE, [vals EXCEPT ![Len(cks)] = 1])
         [] o = "save"    -> Create(1, 1, TRUE, vals)
         [] o = "restore" -> a[1] \in DOMAIN files /\ vals' = files[a[1]] /\ Ok(<<>>) /\ Keep /\ UNCHANGED tick
         [] o = "load"    -> Load(a[1] + 1)
         [] o = "delete"  -> Delete(a[1] + 1)
         [] o = "forget"  -> cur' = hd /\ Ok(<<>>) /\ UNCHANGED <<vals, tick, cks, hd, files, sav>>
         [] o = "latest"  -> IF hd = 0 \/ ~Alive(a[2] + 1) THEN Exc ELSE Q(<<Latest(a[1], a[2] + 1)>>)
         [] o = "chain"   -> IF hd = 0 THEN Q(<<>>) ELSE IF ~Alive(a[1] + 1) THEN Exc
                             ELSE Q(Ids(SelectSeq(Chain(cks, a[1] + 1), LAMBDA i : cks[i].al = 1)))
         [] o = "at"      -> Q(Ids(Sort({i \in AliveSet : cks[i].t = a[1]})))
         [] o = "squash"  -> Squash(a[1])
         [] o = "peek"    -> Peek(a[1])
         [] OTHER -> FALSE
InitWith(a) == /\ a0 = a /\ thresh = a[1] /\ vals = [i \in 1..a[2] |-> 0] /\ tick = 0 /\ cks = <<>> /\ hd = 0 /\ cur = 0 /\ files = <<>> /\ sav = <<>> /\ past = <<>>
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
TypeOK == /\ hd = 0 <=> cks = <<>>
          /\ hd # 0 => /\ Alive(hd) /\ hd \in Range(Chain(cks, cur))
                       /\ \A i \in AliveSet : hd \in Range(Chain(cks, i))
                       /\ \A i \in AliveSet : \A j \in Range(Chain(cks, i)) : cks[j].t <= cks[i].t /\ j <= i
\* a checkpoint never changes; only deleting (or committing) makes one vanish, and only the one named
Frozen == [][ \A i \in DOMAIN cks : cks'[i].t = cks[i].t /\ cks'[i].v = cks[i].v /\ cks'[i].s = cks[i].s /\ cks'[i].al <= cks[i].al
              /\ (cks'[i].al # cks[i].al /\ op'.o # "squash" => op' = [o |-> "delete", a |-> <<i - 1>>]) ]_vars
LoadExact == [][ op'.o = "load" /\ ret'.k = "ok" => vals' = cks[op'.a[1] + 1].v /\ tick' = cks[op'.a[1] + 1].t ]_vars
ExcPure == [][ ret'.k = "exc" => UNCHANGED <<vals, tick, cks, hd, cur, files, sav>> ]_vars

Curr == IF cur = 0 \/ ~Alive(cur) THEN -1 ELSE cur - 1
Obs == [v |-> vals, t |-> tick, ids |-> Ids(Sort(AliveSet)), n |-> Cardinality(AliveSet), sn |-> Cardinality({i \in AliveSet : cks[i].s = 1}),
        cur |-> Curr, ct |-> IF Curr = -1 THEN -1 ELSE cks[cur].t, hd |-> hd - 1, has |-> [i \in 1..Len(cks) |-> cks[i].al], err |-> 0]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
