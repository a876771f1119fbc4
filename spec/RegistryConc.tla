---------------------------- MODULE RegistryConc ----------------------------
(* The registry at the grain of its directories: each directory is an atomic *)
(* object (metric.go: directory.lock), and an operation is a sequence of     *)
(* steps, each on one directory. Operations run concurrently.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES
  con,    \* directory -> (name -> [k |-> "m" or "d", id |-> metric or directory])
  par,    \* directory -> <<directory that holds it, name>>
  ops     \* running operation -> its state

rvars == <<con, par, ops>>

\* Directory 0 is the root.
RInit == con = (0 :> <<>>) /\ par = <<>> /\ ops = <<>>

RWith(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RWithout(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Fresh == Cardinality(DOMAIN con)

(* State of an operation: op; d, the directory it is at; path, what remains  *)
(* of its path; v, the metric to register; todo, what a listing still has to *)
(* visit; out, what it reported; st, "run" until res and ret are known.      *)
NewOp(op, d, path, v) ==
  [op |-> op, d |-> d, path |-> path, v |-> v, todo |-> <<>>, out |-> <<>>,
   at |-> <<>>, st |-> "run", res |-> "", ret |-> 0]

Finish(o, res, ret) == [o EXCEPT !.st = "done", !.res = res, !.ret = ret]
Descend(o, d) == [o EXCEPT !.d = d, !.path = Tail(@), !.at = Append(@, Head(o.path))]

Has(d, n) == n \in DOMAIN con[d]

\* The entries of directory d, in order, below path p
Entries(d, p) ==
  LET ns == SortSeq(SetToSeq(DOMAIN con[d]), LAMBDA a, b : a < b)
  IN [i \in 1..Len(ns) |-> [p |-> Append(p, ns[i]), e |-> con[d][ns[i]]]]

\* Reports the metrics at the front of todo; they never change.
RECURSIVE Flush(_)
Flush(o) == IF o.todo = <<>> THEN Finish(o, "ok", 0)
            ELSE IF Head(o.todo).e.k = "m"
            THEN Flush([o EXCEPT !.out = Append(@, [p |-> Head(o.todo).p, v |-> Head(o.todo).e.id]),
                                 !.todo = Tail(@)])
            ELSE o

(* One step of operation o: the set of [o, con, par] it may lead to. *)
Same(o) == [o |-> o, con |-> con, par |-> par]

CreateOrGet(o) ==
  LET n == Head(o.path) IN
    IF Has(o.d, n)
    THEN IF con[o.d][n].k = "m" THEN Same(Finish(o, "inuse", 0))
         ELSE Same(Descend(o, con[o.d][n].id))
    ELSE LET c == Fresh IN
         [o |-> Descend(o, c),
          con |-> RWith([con EXCEPT ![o.d] = RWith(@, n, [k |-> "d", id |-> c])], c, <<>>),
          par |-> RWith(par, c, <<o.d, n>>)]

StepOf(o) ==
  CASE o.op = "RegMetric" ->
         IF o.path = <<>> THEN Same(Finish(o, "inuse", 0))
         ELSE IF Len(o.path) > 1 THEN CreateOrGet(o)
         ELSE IF Has(o.d, Head(o.path)) THEN Same(Finish(o, "inuse", 0))
         ELSE [o |-> Finish(o, "ok", 0),
               con |-> [con EXCEPT ![o.d] = RWith(@, Head(o.path), [k |-> "m", id |-> o.v])],
               par |-> par]
    [] o.op = "RegDir" ->
         IF o.path = <<>> THEN Same(Finish(o, "ok", o.d))
         ELSE LET s == CreateOrGet(o) IN
              IF s.o.st = "run" /\ s.o.path = <<>> THEN [s EXCEPT !.o = Finish(@, "ok", s.o.d)] ELSE s
    [] o.op = "GetDir" ->
         IF o.path = <<>> THEN Same(Finish(o, "ok", o.d))
         ELSE IF ~Has(o.d, Head(o.path)) THEN Same(Finish(o, "notfound", 0))
         ELSE IF con[o.d][Head(o.path)].k = "m" THEN Same(Finish(o, "inuse", 0))
         ELSE LET o2 == Descend(o, con[o.d][Head(o.path)].id) IN
              Same(IF o2.path = <<>> THEN Finish(o2, "ok", o2.d) ELSE o2)
    [] o.op = "Unreg" ->
         IF o.path = <<>> THEN Same(Finish(o, "ok", 0))
         ELSE IF ~Has(o.d, Head(o.path)) THEN Same(Finish(o, "ok", 0))
         ELSE IF Len(o.path) = 1
         THEN [o |-> Finish(o, "ok", 0), con |-> [con EXCEPT ![o.d] = RWithout(@, Head(o.path))], par |-> par]
         ELSE IF con[o.d][Head(o.path)].k = "m" THEN Same(Finish(o, "ok", 0))
         ELSE Same(Descend(o, con[o.d][Head(o.path)].id))
    [] o.op = "UnregDir" ->
         IF o.d = 0 THEN Same(Finish(o, "ok", 0))
         ELSE LET q == par[o.d][1] n == par[o.d][2] IN
              IF Has(q, n) /\ con[q][n] = [k |-> "d", id |-> o.d]
              THEN [o |-> Finish(o, "ok", 0), con |-> [con EXCEPT ![q] = RWithout(@, n)], par |-> par]
              ELSE Same(Finish(o, "ok", 0))
    [] o.op \in {"List", "Get"} ->
         IF o.path # <<>>
         THEN IF ~Has(o.d, Head(o.path)) THEN Same(Finish(o, "ok", 0))
              ELSE LET e == con[o.d][Head(o.path)] IN
                IF e.k = "d" THEN Same(Descend(o, e.id))
                ELSE IF Len(o.path) > 1 THEN Same(Finish(o, "ok", 0))
                ELSE Same([Finish(o, "ok", 0) EXCEPT !.out = <<[p |-> Append(o.at, Head(o.path)), v |-> e.id]>>])
         ELSE IF o.op = "Get" THEN Same(Finish(o, "ok", 0))
         \* a listing inside a directory: the first time all of it is due,
         \* then whatever is at the front
         ELSE IF o.res = "" THEN Same(Flush([o EXCEPT !.res = "list", !.todo = Entries(o.d, o.at)]))
         ELSE LET x == Head(o.todo) IN
              Same(Flush([o EXCEPT !.todo = Entries(x.e.id, x.p) \o Tail(o.todo)]))

RStep(c) ==
  /\ ops[c].st = "run"
  /\ LET s == StepOf(ops[c]) IN
       /\ con' = s.con /\ par' = s.par
       /\ ops' = [ops EXCEPT ![c] = s.o]

(* ------------------------- what must be true --------------------------- *)
\* directories reachable from the root
RECURSIVE ReachFrom(_)
ReachFrom(d) == {d} \cup UNION {ReachFrom(con[d][n].id) : n \in {n \in DOMAIN con[d] : con[d][n].k = "d"}}
Reach == ReachFrom(0)
\* metrics registered, with their paths
RECURSIVE MetricsAt(_, _)
MetricsAt(d, p) == UNION {LET e == con[d][n] q == Append(p, n) IN
                           IF e.k = "m" THEN {[p |-> q, v |-> e.id]} ELSE MetricsAt(e.id, q) : n \in DOMAIN con[d]}
Metrics == MetricsAt(0, <<>>)
\* a directory is held by at most one place
OnePlace == \A d \in DOMAIN par : Cardinality({q \in DOMAIN con : \E n \in DOMAIN con[q] : con[q][n] = [k |-> "d", id |-> d]}) <= 1
=============================================================================
