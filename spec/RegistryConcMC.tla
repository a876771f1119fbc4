--------------------------- MODULE RegistryConcMC ---------------------------
(* Model check of RegistryConc: any K operations of a menu run concurrently, *)
(* started at any time, over any small tree. Ghosts follow each listing: the *)
(* metrics registered all the time since it began (always), the directories  *)
(* registered at some time since (dirs) and the metrics that were in those at*)
(* some time (ever). A metric registered in a directory that was unregistered*)
(* after the listing began can thus be reported.                             *)
EXTENDS RegistryConc

CONSTANTS K, MaxNames, MaxLen

VARIABLES always, ever, dirs, n, won, removed
mvars == <<con, par, ops, always, ever, dirs, n, won, removed>>

N == 1..MaxNames
Ps == UNION {[1..k -> N] : k \in 1..MaxLen}
RECURSIVE PathOf(_, _)
PathOf(pr, d) == IF d = 0 THEN <<>> ELSE Append(PathOf(pr, pr[d][1]), pr[d][2])
\* metrics in the directories ds
In(cn, pr, ds) == UNION {{[p |-> Append(PathOf(pr, d), x), v |-> cn[d][x].id] : x \in {x \in DOMAIN cn[d] : cn[d][x].k = "m"}} : d \in ds}

MInit == RInit /\ always = <<>> /\ ever = <<>> /\ dirs = <<>> /\ n = 0 /\ won = {} /\ removed = FALSE

Begin == /\ n < K
         /\ n' = n + 1
         /\ \E op \in {"RegMetric", "RegDir", "Unreg", "List"}, p \in Ps, d \in DOMAIN con :
               /\ (op = "List" => d = 0)
               /\ ops' = RWith(ops, n + 1, NewOp(op, d, p, n + 1))
         /\ always' = RWith(always, n + 1, Metrics) /\ ever' = RWith(ever, n + 1, Metrics) /\ dirs' = RWith(dirs, n + 1, Reach)
         /\ UNCHANGED <<con, par, won, removed>>
BeginUnregDir == /\ n < K /\ n' = n + 1
                 /\ \E d \in DOMAIN con : ops' = RWith(ops, n + 1, NewOp("UnregDir", d, <<>>, 0))
                 /\ always' = RWith(always, n + 1, Metrics) /\ ever' = RWith(ever, n + 1, Metrics) /\ dirs' = RWith(dirs, n + 1, Reach)
                 /\ UNCHANGED <<con, par, won, removed>>
Go == /\ \E c \in DOMAIN ops :
           /\ RStep(c)
           /\ removed' = (removed \/ \E d \in DOMAIN con : \E x \in DOMAIN con[d] : x \notin DOMAIN con'[d])
           /\ won' = IF ops[c].op = "RegMetric" /\ ops'[c].st = "done" /\ ops'[c].res = "ok" THEN won \cup {c} ELSE won
      /\ LET m == Metrics' IN
           /\ always' = [c \in DOMAIN always |-> IF ops'[c].st = "run" THEN always[c] \cap m ELSE always[c]]
           /\ dirs' = [c \in DOMAIN dirs |-> IF ops[c].st = "run" THEN dirs[c] \cup Reach' ELSE dirs[c]]
           /\ ever' = [c \in DOMAIN ever |-> IF ops[c].st = "run" THEN ever[c] \cup In(con', par', dirs'[c]) ELSE ever[c]]
      /\ UNCHANGED n
MNext == Begin \/ BeginUnregDir \/ Go
MSpec == MInit /\ [][MNext]_mvars

\* what a finished listing of p reported
ListedOK == \A c \in DOMAIN ops :
  (ops[c].op = "List" /\ ops[c].st = "done") =>
    LET out == ops[c].out
        root == ops[c].at \o ops[c].path
    IN /\ \A i, j \in 1..Len(out) : i < j => out[i].p # out[j].p
       /\ \A i \in 1..Len(out) : out[i] \in ever[c]
       /\ \A m \in always[c] : (Len(root) <= Len(m.p) /\ SubSeq(m.p, 1, Len(root)) = root) => \E i \in 1..Len(out) : out[i] = m
\* If nothing was ever removed, every registration that succeeded is there
NoLoss == ~removed => \A c \in won : \E m \in Metrics : m.v = c
=============================================================================
