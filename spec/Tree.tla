-------------------------------- MODULE Tree --------------------------------
(* A device tree: nodes with names, aliases, groups and tags, their attachment, *)
(* privacy, clocks and phases, and all ways to look nodes up.                   *)
(* case <n>, then for every node but the root: name, group, index in the group.  *)
(* Identifiers are numbers whose digits stand for letters (1 a, 2 b, 3 '0', 4    *)
(* '1'; in patterns 5 '*', 6 '+', 7 '?'); in paths a 0 is a step to the parent.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs, MOps

VARIABLES nd,       \* what does not change: nm, gr, gi (identifier by group) of every node
          s,        \* the tree (see InitWith)
          a0, op, ret
vars == <<nd, s, a0, op, ret>>
View == <<a0, s>>

N == Len(nd)
Nodes == 1..N
Root == 1
NodesOf(a) == <<[nm |-> 999, gr |-> 0, gi |-> 0]>> \o
    [i \in 1..(a[1] - 1) |-> LET b == 3 * (i - 1) + 1 IN
       [nm |-> a[b + 1], gr |-> a[b + 2], gi |-> IF a[b + 2] = 0 THEN 0 ELSE 10 * a[b + 2] + 3 + a[b + 3]]]
Building == 0  Configuring == 1  Finalizing == 2  Finalized == 3  Teardown == 4

(* ---- identifiers ---- *)
RECURSIVE Chars(_), Glob(_, _)
Chars(x) == IF x = 0 THEN <<>> ELSE Append(Chars(x \div 10), x % 10)
Glob(p, t) ==
    IF p = <<>> THEN t = <<>>
    ELSE IF p[1] = 5 THEN Glob(Tail(p), t) \/ (t # <<>> /\ Glob(p, Tail(t)))
    ELSE IF p[1] = 6 THEN t # <<>> /\ (Glob(Tail(p), Tail(t)) \/ Glob(p, Tail(t)))
    ELSE IF p[1] = 7 THEN Glob(Tail(p), t) \/ (t # <<>> /\ Glob(Tail(p), Tail(t)))
    ELSE t # <<>> /\ t[1] = p[1] /\ Glob(Tail(p), Tail(t))
Letters(x) == IF x = 999 THEN <<10>> ELSE Chars(x)
Own(t, n) == ({nd[n].nm} \cup t.al[n]) \ {0}                   \* names and aliases
Idents(t, n) == (Own(t, n) \cup {nd[n].gi}) \ {0}
Rng(q) == {q[i] : i \in DOMAIN q}
Keys(t, p) == UNION {Idents(t, k) : k \in Rng(t.kids[p])}

(* ---- the tree ---- *)
RECURSIVE Anc(_, _), Pre(_, _), PreAll(_, _, _)
Anc(t, n) == IF n = 0 THEN <<>> ELSE <<n>> \o Anc(t, t.par[n])          \* n and its ancestors
Pre(t, n) == <<n>> \o PreAll(t, t.kids[n], 1)
PreAll(t, q, i) == IF i > Len(q) THEN <<>> ELSE Pre(t, q[i]) \o PreAll(t, q, i + 1)
Sub(t, n) == {m \in Nodes : n \in Rng(Anc(t, m))}
InTree(t, n) == Root \in Rng(Anc(t, n))

CanAdd(t, p, c) ==
    /\ t.ph[p] < Finalized
    /\ c # Root /\ p # c /\ t.par[c] = 0 /\ p \notin Sub(t, c)
    /\ Own(t, c) \cap Keys(t, p) = {}
    /\ nd[c].gr = 0 \/ \A k \in Rng(t.kids[p]) : nd[k].gi # nd[c].gi
Added(t, p, c) ==
    IF ~CanAdd(t, p, c) THEN t
    ELSE LET S == Sub(t, c) IN
         [t EXCEPT !.par[c] = p, !.kids[p] = Append(@, c),
                   !.ph = [n \in Nodes |-> IF n \in S THEN t.ph[p] ELSE @[n]],
                   !.pv = [n \in Nodes |-> IF n \in S THEN @[n] + t.pv[p] ELSE @[n]]]
\* finalizing: every node in turn may attach one more child
RECURSIVE Fin(_, _), FinKids(_, _, _)
Fin(t, n) == LET u == IF t.late[n] = 0 THEN t ELSE Added(t, n, t.late[n]) IN FinKids(u, n, 1)
FinKids(t, n, i) == IF i > Len(t.kids[n]) THEN t ELSE FinKids(Fin(t, t.kids[n][i]), n, i + 1)
SetPhase(t, x) == [t EXCEPT !.ph = [n \in Nodes |-> IF InTree(t, n) THEN x ELSE @[n]]]

(* ---- looking up ---- *)
\* where one component may lead to from n (0: nowhere); a group identifier may be another's name
Step(t, n, x) == IF n = 0 THEN {0} ELSE IF x = 0 THEN {t.par[n]}
                 ELSE LET m == {k \in Rng(t.kids[n]) : x \in Idents(t, k)} IN IF m = {} THEN {0} ELSE m
RECURSIVE Walk(_, _, _), Find(_, _, _, _)
Walk(t, S, q) == IF q = <<>> THEN S ELSE Walk(t, UNION {Step(t, n, q[1]) : n \in S}, Tail(q))
Find(t, S, q, all) ==
    IF q = <<>> THEN S
    ELSE Find(t, IF q[1] = 0 THEN {t.par[n] : n \in S} \ {0}
                 ELSE {k \in Nodes : t.par[k] \in S /\ (all \/ t.pv[k] = t.pv[t.par[k]]) /\ \E x \in Idents(t, k) : Glob(Chars(q[1]), Letters(x))}, Tail(q), all)
\* n is reached from m by the pattern read backwards along names and aliases
RECURSIVE Matches(_, _, _, _)
Matches(t, n, m, q) == IF q = <<>> THEN n = m ELSE n # 0 /\ n # Root /\ (\E x \in Own(t, n) : Glob(Chars(q[Len(q)]), Letters(x))) /\ Matches(t, t.par[n], m, SubSeq(q, 1, Len(q) - 1))
RECURSIVE Sorted(_, _)
Sorted(S, i) == IF i > N THEN <<>> ELSE (IF i \in S THEN <<i>> ELSE <<>>) \o Sorted(S, i + 1)
RECURSIVE Pick(_, _)
Pick(q, S) == IF q = <<>> THEN <<>> ELSE (IF q[1] \in S THEN <<q[1]>> ELSE <<>>) \o Pick(Tail(q), S)
Public(t, n) == Pick(t.kids[n], {k \in Nodes : t.pv[k] = t.pv[n]})
RECURSIVE Clk(_, _)
Clk(t, n) == IF n = 0 THEN 0 ELSE IF t.ck[n] # 0 THEN t.ck[n] ELSE Clk(t, t.par[n])
RECURSIVE Rev(_)
Rev(q) == IF q = <<>> THEN <<>> ELSE Append(Rev(Tail(q)), q[1])
Loc(t, n) == LET l == Rev(Anc(t, n)) IN [i \in 1..Len(l) |-> nd[l[i]].nm]
IndexOf(n) == (nd[n].gi % 10) - 3
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE DescOf(_, _, _, _)
DescOf(t, m, n, d) == m # 0 /\ (m = n \/ (d # 0 /\ DescOf(t, t.par[m], n, d - 1)))

Ok(v) == ret' = [k |-> "ok", v |-> v]
Exc == ret' = [k |-> "exc", v |-> <<>>] /\ UNCHANGED s
Try(ok, new, v) == IF ok THEN s' = new /\ Ok(v) ELSE Exc
Is(n) == n \in Nodes
Do(o, a) ==
    /\ UNCHANGED <<nd, a0>> /\ op' = [o |-> o, a |-> a]
    /\ CASE \* parent, child; returns what the root announces
            o = "add"   -> Is(a[1]) /\ Is(a[2]) /\ s.ph[a[1]] < Teardown /\ LET t == Added(s, a[1], a[2]) IN Try(CanAdd(s, a[1], a[2]), t, IF InTree(s, a[1]) THEN Pre(t, a[2]) ELSE <<>>)
         [] o = "late"  -> Is(a[1]) /\ Is(a[2]) /\ s.ph[a[1]] < Finalizing /\ s' = [s EXCEPT !.late[a[1]] = a[2]] /\ Ok(<<>>)
         [] o = "alias" -> Is(a[1]) /\ a[1] # Root /\ Try(s.par[a[1]] = 0 /\ s.ph[a[1]] = Building /\ a[2] \notin s.al[a[1]], [s EXCEPT !.al[a[1]] = @ \cup {a[2]}], <<>>)
         [] o = "tag"   -> Is(a[1]) /\ Try(s.ph[a[1]] < Finalized /\ a[2] \notin s.tg[a[1]], [s EXCEPT !.tg[a[1]] = @ \cup {a[2]}], <<>>)
         [] o = "priv"  -> Is(a[1]) /\ s.pv[a[1]] < 2 /\ s' = [s EXCEPT !.pv = [n \in Nodes |-> IF n \in Sub(s, a[1]) THEN @[n] + 1 ELSE @[n]]] /\ Ok(<<>>)
         [] o = "clock" -> Is(a[1]) /\ s.ph[a[1]] < Teardown /\ Try(s.ph[a[1]] < Finalizing /\ s.ck[a[1]] = 0, [s EXCEPT !.ck[a[1]] = a[2]], <<>>)
         [] o = "conf"  -> Try(s.ph[Root] = Building, SetPhase(s, Configuring), <<>>)
         [] o = "fin"   -> Try(s.ph[Root] = Configuring, SetPhase(Fin(SetPhase(s, Finalizing), Root), Finalized), <<>>)
         [] o = "bind"  -> Try(s.ph[Root] = Finalized, s, Pre(s, Root))
         [] o = "down"  -> s' = SetPhase(s, Teardown) /\ Ok(<<>>)
         \* node, path: the node found, as seen from outside and by those that see private ones too
         [] o = "get"   -> Is(a[1]) /\ UNCHANGED s /\ \E x \in Walk(s, {a[1]}, Tail(a)) : Ok(<<IF x # 0 /\ s.pv[x] = s.pv[a[1]] THEN x ELSE 0, x>>)
         [] o = "find"  -> Is(a[1]) /\ UNCHANGED s /\ Ok(Sorted(Find(s, {a[1]}, Tail(a), FALSE), 1) \o <<-1>> \o Sorted(Find(s, {a[1]}, Tail(a), TRUE), 1))
         [] o = "match" -> Is(a[1]) /\ Is(a[2]) /\ UNCHANGED s /\ Ok(<<IF Matches(s, a[1], a[2], SubSeq(a, 3, Len(a))) THEN 1 ELSE 0>>)
         [] o = "tagged" -> Is(a[1]) /\ UNCHANGED s /\ Ok(Sorted({m \in Nodes : a[2] \in s.tg[m] /\ DescOf(s, m, a[1], a[3]) /\ (s.ph[a[1]] = Finalized => s.pv[m] = s.pv[a[1]])}, 1))
         [] o = "desc"  -> Is(a[1]) /\ Is(a[2]) /\ UNCHANGED s /\ Ok(<<IF DescOf(s, a[1], a[2], a[3]) THEN 1 ELSE 0>>)
         [] o = "group" -> Is(a[1]) /\ UNCHANGED s /\ LET m == Pick(Public(s, a[1]), {k \in Nodes : nd[k].gr = a[2]}) IN
                             Ok(<<IF m = <<>> THEN -1 ELSE Max({IndexOf(k) : k \in Rng(m)})>> \o m)
         [] OTHER -> FALSE
InitWith(a) == /\ a0 = a /\ nd = NodesOf(a)
               /\ LET Z(x) == [i \in 1..a[1] |-> x] IN
                  s = [par |-> Z(0), kids |-> Z(<<>>), ph |-> Z(0), al |-> Z({}), tg |-> Z({}), pv |-> Z(0), ck |-> Z(0), late |-> Z(0)]
               /\ op = [o |-> "case", a |-> a] /\ ret = [k |-> "ok", v |-> <<>>]
Init == \E a \in Cfgs : InitWith(a)
Next == \E m \in MOps : Do(m[1], m[2])
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
\* parents and children agree, there are no cycles
Agree == \A n \in Nodes : /\ \A k \in Rng(s.kids[n]) : s.par[k] = n
                          /\ s.par[n] # 0 => n \in Rng(s.kids[s.par[n]])
                          /\ Cardinality(Rng(s.kids[n])) = Len(s.kids[n])
                          /\ n \notin UNION {Sub(s, k) : k \in Rng(s.kids[n])}
\* no two nodes below one parent share a name or alias
Unique == \A n \in Nodes : \A j, k \in Rng(s.kids[n]) : j # k => Own(s, j) \cap Own(s, k) = {}
\* every node is found by the path of names from every ancestor, provided they are not the group identifier of others
Plain(n) == LET l == Anc(s, n) IN \A i \in DOMAIN l : (l[i] # Root /\ s.par[l[i]] # 0) => (nd[l[i]].nm # 0 /\ \A k \in Rng(s.kids[s.par[l[i]]]) \ {l[i]} : nd[k].gi # nd[l[i]].nm)
Below(n, m) == LET l == Loc(s, n) IN SubSeq(l, Len(Anc(s, m)) + 1, Len(l))
Found == \A n \in Nodes : Plain(n) => \A m \in Rng(Anc(s, n)) : /\ Walk(s, {m}, Below(n, m)) = {n}
                                                               /\ Walk(s, {n}, [i \in 1..(Len(Anc(s, n)) - Len(Anc(s, m))) |-> 0]) = {m}
OnePhase == \A n \in Nodes : s.par[n] # 0 => s.ph[n] = s.ph[s.par[n]]
Forward == [][\A n \in Nodes : s'.ph[n] >= s.ph[n]]_vars
Locked == [][\A n \in Nodes : s.ph[n] >= Finalized => (s'.kids[n] = s.kids[n] /\ s'.par[n] = s.par[n] /\ s'.al[n] = s.al[n] /\ s'.tg[n] = s.tg[n] /\ s'.ck[n] = s.ck[n])]_vars
NeverLost == [][\A n \in Nodes : s.par[n] # 0 => s'.par[n] = s.par[n]]_vars
LookPure == [][op'.o \in {"get", "find", "match", "tagged", "desc", "group", "bind"} => s' = s]_vars

(* ---- binding ---- *)
Obs == [par |-> s.par, ph |-> s.ph, kids |-> s.kids, pub |-> [n \in Nodes |-> Public(s, n)], att |-> [n \in Nodes |-> IF InTree(s, n) THEN 1 ELSE 0],
        loc |-> [n \in Nodes |-> Loc(s, n)], lvl |-> [n \in Nodes |-> Len(Anc(s, n)) - 1], clk |-> [n \in Nodes |-> Clk(s, n)]]
EmitEdge == PrintT("EDGE " \o ToJson([f |-> View, o |-> op', t |-> View', i |-> TLCGet("level")]))
TraceInit(t) == InitWith(t.a)
TraceStep(t) == Do(t.o, t.a) /\ ret' = [k |-> t.k, v |-> t.v] /\ Obs' = t.s
=============================================================================
