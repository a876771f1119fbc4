------------------------------ MODULE Registry ------------------------------
(* The tree of directories and metrics (metric.go: directory, listEntry),    *)
(* driven through the package functions (directory <<>>) and through         *)
(* directory handles, also handles of directories unregistered meanwhile.    *)
(*                                                                           *)
(* tree   what is registered: path -> "m" (metric) or "d" (directory)        *)
(* stale  paths of unregistered directories whose handle the client kept     *)
(* Who registered a metric, and which handle stands for a directory, is not  *)
(* part of the state: a metric or directory keeps its identity from the      *)
(* step that adds its path to the tree until the step that removes it.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Names,      \* component names, naturals; their order is the byte order
          Depth,      \* longest path that gets registered
          MaxStale    \* number of stale handles kept

VARIABLES tree, stale, act
vars == <<tree, stale>>

Paths(n) == UNION {[1..k -> Names] : k \in 0..n}
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Parent(p) == SubSeq(p, 1, Len(p) - 1)

IsDir(p) == p = <<>> \/ (p \in DOMAIN tree /\ tree[p] = "d")
IsMetric(p) == p \in DOMAIN tree /\ tree[p] = "m"
\* a proper prefix of p is a metric
ThroughMetric(p) == \E k \in 1..Len(p)-1 : IsMetric(SubSeq(p, 1, k))
LiveDirs == {<<>>} \cup {p \in DOMAIN tree : tree[p] = "d"}
Ancestors(p) == {SubSeq(p, 1, k) : k \in 1..Len(p)}

\* Lookup of a directory
Lookup(p) == IF IsDir(p) THEN "ok"
             ELSE IF IsMetric(p) \/ ThroughMetric(p) THEN "inuse"
             ELSE "notfound"

Init == tree = <<>> /\ stale = {} /\ act = [op |-> "init"]

Extend(t, ps, leaf, k) ==
  [q \in DOMAIN t \cup ps |-> IF q \in DOMAIN t THEN t[q] ELSE IF q = leaf THEN k ELSE "d"]

(* Registering a metric at rel below directory base *)
RegMetric(base, rel) ==
  LET p == base \o rel
      res == IF rel = <<>> \/ p \in DOMAIN tree \/ ThroughMetric(p) THEN "inuse" ELSE "ok"
  IN /\ tree' = IF res = "ok" THEN Extend(tree, Ancestors(p), p, "m") ELSE tree
     /\ UNCHANGED stale
     /\ act' = [op |-> "RegMetric", base |-> base, rel |-> rel, res |-> res]

RegDir(base, rel) ==
  LET p == base \o rel
      res == IF IsMetric(p) \/ ThroughMetric(p) THEN "inuse" ELSE "ok"
  IN /\ tree' = IF res = "ok" THEN Extend(tree, Ancestors(p), p, "d") ELSE tree
     /\ UNCHANGED stale
     /\ act' = [op |-> "RegDir", base |-> base, rel |-> rel, res |-> res]

\* Removes p and everything below. The client may keep one of the handles
\* of the directories that thereby become unregistered.
RemoveSub(p, name, base, rel) ==
  LET gone == {q \in DOMAIN tree : Prefix(p, q)}
      goneDirs == {q \in gone : tree[q] = "d"}
  IN /\ tree' = [q \in DOMAIN tree \ gone |-> tree[q]]
     /\ \E keep \in SUBSET (stale \cup goneDirs) :
           /\ Cardinality(keep) <= MaxStale
           /\ (goneDirs # {} \/ keep = stale)
           /\ Cardinality(keep) >= (IF goneDirs # {} THEN 1 ELSE 0)
           /\ stale' = keep
           /\ act' = [op |-> name, base |-> base, rel |-> rel, res |-> "ok",
                      fresh |-> SetToSeq(keep \cap goneDirs)]

Unreg(base, rel) ==
  LET p == base \o rel
  IN IF rel = <<>> \/ p \notin DOMAIN tree
     THEN /\ UNCHANGED <<tree, stale>>
          /\ act' = [op |-> "Unreg", base |-> base, rel |-> rel, res |-> "ok", fresh |-> <<>>]
     ELSE RemoveSub(p, "Unreg", base, rel)

UnregDir(base) ==
  IF base = <<>> THEN /\ UNCHANGED <<tree, stale>>
                      /\ act' = [op |-> "UnregDir", base |-> base, rel |-> <<>>, res |-> "ok", fresh |-> <<>>]
  ELSE RemoveSub(base, "UnregDir", base, <<>>)

\* Whatever is done through the handle of an unregistered directory, what is
\* registered stays as it is (the result is not specified).
StaleOp(s, name, rel) ==
  /\ UNCHANGED <<tree, stale>>
  /\ act' = [op |-> "Stale" \o name, base |-> s, rel |-> rel, res |-> "any"]

Next ==
  \/ \E b \in LiveDirs : \E r \in Paths(Depth - Len(b)) :
        RegMetric(b, r) \/ RegDir(b, r) \/ Unreg(b, r)
  \/ \E b \in LiveDirs : UnregDir(b)
  \/ \E s \in stale :
        \/ \E r \in Paths(Depth - Len(s)) : \E n \in {"RegMetric", "RegDir", "Unreg"} : StaleOp(s, n, r)
        \/ StaleOp(s, "UnregDir", <<>>)

Spec == Init /\ [][Next]_<<tree, stale, act>>

(* ------------------------- what must be true --------------------------- *)
\* every parent of something registered is a registered directory
TreeOK == \A p \in DOMAIN tree : Len(p) > 0 /\ IsDir(Parent(p))
\* the listing of p: metrics at or below p, depth first, siblings in order
RECURSIVE Listing(_)
Listing(p) ==
  IF IsMetric(p) THEN <<p>>
  ELSE IF ~IsDir(p) THEN <<>>
  ELSE LET kids == SortSeq(SetToSeq({q[Len(q)] : q \in {q \in DOMAIN tree : Len(q) = Len(p) + 1 /\ Prefix(p, q)}}), LAMBDA a, b : a < b)
           RECURSIVE Cat(_)
           Cat(i) == IF i > Len(kids) THEN <<>> ELSE Listing(Append(p, kids[i])) \o Cat(i + 1)
       IN Cat(1)
\* The same, checked instead of computed: ls names the metrics at or below p
\* in lexicographic order of their components.
LexLess(p, q) == \E k \in 1..Len(q) :
                    /\ k <= Len(p) + 1
                    /\ \A j \in 1..k-1 : p[j] = q[j]
                    /\ (IF k = Len(p) + 1 THEN TRUE ELSE p[k] < q[k])
Below(p) == {q \in DOMAIN tree : IF tree[q] = "m" THEN Prefix(p, q) ELSE FALSE}
IsListing(p, ls) ==
  LET ms == Below(p) IN
    /\ Len(ls) = Cardinality(ms)
    /\ \A i \in 1..Len(ls) : ls[i] \in ms
    /\ \A i \in 1..Len(ls)-1 : LexLess(ls[i], ls[i+1])
\* each metric below p appears exactly once
ListingOK == \A p \in Paths(Depth) :
   LET ls == Listing(p) IN
     /\ ToSet(ls) = {q \in DOMAIN tree : tree[q] = "m" /\ Prefix(p, q)}
     /\ Len(ls) = Cardinality(ToSet(ls))
     /\ IsListing(p, ls)
FailureChangesNothing == [][act'.res \in {"inuse", "any"} => UNCHANGED tree]_<<tree, stale, act>>
OnlyUnregRemoves == [][DOMAIN tree \subseteq DOMAIN tree' \/ act'.op \in {"Unreg", "UnregDir"}]_<<tree, stale, act>>
KindStable == [][\A p \in DOMAIN tree \cap DOMAIN tree' : tree'[p] = tree[p]]_<<tree, stale, act>>

St(t, s) == [m |-> SetToSeq({p \in DOMAIN t : t[p] = "m"}),
             d |-> SetToSeq({p \in DOMAIN t : t[p] = "d"}),
             s |-> SetToSeq(s)]
Emit == PrintT("E" \o ToJson([s |-> St(tree, stale), a |-> act', t |-> St(tree', stale')]))
\* The listing order and the lookups of every state are printed, too.
EmitInit == (act.op = "init") => PrintT("I" \o ToJson(St(tree, stale)))
EmitState == PrintT("S" \o ToJson([st |-> St(tree, stale),
                list |-> Listing(<<>>),
                look |-> SetToSeq({[p |-> p, r |-> Lookup(p)] : p \in Paths(Depth + 1)})]))
View == vars
=============================================================================
