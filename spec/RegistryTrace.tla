---------------------------- MODULE RegistryTrace ----------------------------
(* Validation of recorded sequential histories of the registry (long, wide   *)
(* and deep) against the actions of Registry. Here the identity of metrics   *)
(* (the number they report) and of directory handles is tracked, too, and    *)
(* paths are given as the client spelled them: 0 stands for a blank          *)
(* component.                                                                *)
EXTENDS Registry, Integers, IOUtils

VARIABLES h, l,
          val,     \* path of a metric -> the number it reports
          hid,     \* path of a directory -> its handle's number (if known)
          hpath    \* handle number -> path it was given for, or <<0>>: never registered

tvars == <<tree, stale, act, h, l, val, hid, hpath>>

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Ev == Hist[h]
E == Ev[l]

Norm(s) == SelectSeq(s, LAMBDA x : x # 0)

\* handle 0 is the root directory (and the package functions)
Live(b) == IF b = 0 THEN TRUE ELSE IF hpath[b] \in DOMAIN hid THEN hid[hpath[b]] = b ELSE FALSE
Base(b) == IF b = 0 THEN <<>> ELSE hpath[b]

TInit == /\ Init
         /\ h \in 1..Len(Hist) /\ l = 1
         /\ val = <<>> /\ hid = <<>> /\ hpath = <<>>

Only(f, S) == [x \in S |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Step(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED h

\* A handle the client got for registered directory p
GotHandle(p, id) ==
  IF p = <<>> THEN id = 0 /\ UNCHANGED <<hid, hpath>>
  ELSE IF p \in DOMAIN hid THEN id = hid[p] /\ UNCHANGED <<hid, hpath>>
  ELSE id # 0 /\ id \notin DOMAIN hpath /\ hid' = Put(hid, p, id) /\ hpath' = Put(hpath, id, p)

TRegMetric == /\ Step("RegMetric") /\ Live(E.b)
              /\ RegMetric(Base(E.b), Norm(E.rel))
              /\ act'.res = E.res
              /\ val' = IF E.res = "ok" THEN Put(val, Base(E.b) \o Norm(E.rel), E.v) ELSE val
              /\ UNCHANGED <<hid, hpath>>

\* Many registrations of metrics, none in the way of another: all succeed.
TRegMany == /\ Step("RegMany") /\ Live(E.b)
            /\ E.res = "ok"
            /\ LET ps == [i \in 1..Len(E.rels) |-> Base(E.b) \o Norm(E.rels[i])]
                   leaves == ToSet(ps)
                   idx == [p \in leaves |-> CHOOSE i \in 1..Len(ps) : ps[i] = p]
                   new == UNION {Ancestors(p) : p \in leaves}
               IN /\ Assert((leaves \cap DOMAIN tree = {} /\ Cardinality(leaves) = Len(ps)
                             /\ (\A p \in leaves : ~ThroughMetric(p))
                             /\ (\A p \in leaves : \A k \in 1..Len(p)-1 : SubSeq(p, 1, k) \notin leaves)) = TRUE,
                            "RegMany")
                  /\ tree' = [q \in DOMAIN tree \cup new |->
                                IF q \in DOMAIN tree THEN tree[q] ELSE IF q \in leaves THEN "m" ELSE "d"]
                  /\ val' = [q \in DOMAIN val \cup leaves |-> IF q \in leaves THEN E.v + idx[q] - 1 ELSE val[q]]
            /\ UNCHANGED <<stale, act, hid, hpath>>

TRegDir == /\ Step("RegDir") /\ Live(E.b)
           /\ RegDir(Base(E.b), Norm(E.rel))
           /\ act'.res = E.res
           /\ IF E.res = "ok" THEN GotHandle(Base(E.b) \o Norm(E.rel), E.ret)
              ELSE E.ret = -1 /\ UNCHANGED <<hid, hpath>>
           /\ UNCHANGED val

RemoveTree(p) ==
  /\ tree' = Only(tree, {q \in DOMAIN tree : ~Prefix(p, q)})
  /\ val' = Only(val, {q \in DOMAIN val : ~Prefix(p, q)})
  /\ hid' = Only(hid, {q \in DOMAIN hid : ~Prefix(p, q)})
  /\ UNCHANGED <<stale, act, hpath>>

Nothing == UNCHANGED <<tree, stale, act, val, hid, hpath>>

TUnreg == /\ Step("Unreg") /\ Live(E.b)
          /\ LET p == Base(E.b) \o Norm(E.rel) IN
             IF Norm(E.rel) = <<>> \/ p \notin DOMAIN tree THEN Nothing ELSE RemoveTree(p)

TUnregDir == /\ Step("UnregDir") /\ Live(E.b)
             /\ IF Base(E.b) = <<>> THEN Nothing ELSE RemoveTree(Base(E.b))

\* Anything through the handle of an unregistered directory
TStale == /\ l <= Len(Ev) /\ E.op \in {"RegMetric", "RegDir", "Unreg", "UnregDir"}
          /\ ~Live(E.b) /\ l' = l + 1 /\ UNCHANGED h
          /\ UNCHANGED <<tree, stale, act, val, hid>>
          /\ IF E.op = "RegDir" /\ E.ret > 0 /\ E.ret \notin DOMAIN hpath
             THEN hpath' = Put(hpath, E.ret, <<0>>) ELSE UNCHANGED hpath

TGetDir == /\ Step("GetDir")
           /\ E.res = Lookup(Norm(E.rel))
           /\ IF E.res = "ok" THEN GotHandle(Norm(E.rel), E.ret)
              ELSE E.ret = -1 /\ UNCHANGED <<hid, hpath>>
           /\ UNCHANGED <<tree, stale, act, val>>

\* the absolute path of a registered handle
TAbs == Step("Abs") /\ (Live(E.b) => E.p = Base(E.b)) /\ Nothing

TList == /\ Step("List")
         /\ IsListing(Norm(E.rel), [i \in 1..Len(E.got) |-> E.got[i].p]) = TRUE
         /\ (\A i \in 1..Len(E.got) : E.got[i].v = val[E.got[i].p]) = TRUE
         /\ Nothing

TGet == /\ Step("Get")
        /\ LET p == Norm(E.rel) IN
             E.v = (IF IsMetric(p) THEN val[p] ELSE -1)
        /\ Nothing

\* The HTML page of a directory shows the metrics in it and links the
\* directories in it; that of a metric shows the metric.
Kids(p) == {q \in DOMAIN tree : Len(q) = Len(p) + 1 /\ Prefix(p, q)}
PageOK == LET p == Norm(E.rel) IN
  IF ~IsDir(p) /\ ~IsMetric(p) THEN E.none
  ELSE /\ ~E.none
       /\ LET ms == IF IsMetric(p) THEN {p} ELSE {q \in Kids(p) : tree[q] = "m"}
              ds == IF IsMetric(p) THEN {} ELSE Kids(p) \ ms
          IN /\ Len(E.shown) = Cardinality(ms)
             /\ {E.shown[i].p : i \in 1..Len(E.shown)} = ms
             /\ \A i \in 1..Len(E.shown) : E.shown[i].v = val[E.shown[i].p]
             /\ Len(E.links) = Cardinality(ds) /\ ToSet(E.links) = ds
TPage == Step("Page") /\ PageOK = TRUE /\ Nothing

TNext == TPage \/ TRegMany \/ TRegMetric \/ TRegDir \/ TUnreg \/ TUnregDir \/ TStale \/ TGetDir \/ TAbs \/ TList \/ TGet
TSpec == TInit /\ [][TNext]_tvars

Accept == (l = Len(Ev) + 1) => PrintT("OK" \o ToString(h))
Progress == (IOEnv.VERIF_AT = "1") => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
=============================================================================
