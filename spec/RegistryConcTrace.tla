------------------------- MODULE RegistryConcTrace -------------------------
(* Validation of recorded concurrent histories of the registry: a history is *)
(* explained iff the steps of its operations can be interleaved so that each *)
(* takes all its steps between its call and its return and every result is   *)
(* as recorded.                                                              *)
(*   call    [k |-> "c", op, b, rel, v, res, ret, got]  (with the results)   *)
(*   return  [k |-> "r", c |-> index of the call]                            *)
(* b and ret are numbers of directory handles (0: the root).                 *)
EXTENDS RegistryConc, Integers, Json, IOUtils

VARIABLES h, l, hdl   \* handle number -> directory
tvars == <<con, par, ops, h, l, hdl>>

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Ev == Hist[h].ev

TInit == RInit /\ h \in 1..Len(Hist) /\ l = 1 /\ hdl = (0 :> 0)

TCall == /\ l <= Len(Ev) /\ Ev[l].k = "c"
         /\ ops' = RWith(ops, l, NewOp(Ev[l].op, hdl[Ev[l].b], Ev[l].rel, Ev[l].v))
         /\ l' = l + 1
         /\ UNCHANGED <<con, par, h, hdl>>

TRet == /\ l <= Len(Ev) /\ Ev[l].k = "r"
        /\ IF Ev[l].c \in DOMAIN ops THEN ops[Ev[l].c].st = "done" ELSE FALSE
        /\ ops' = RWithout(ops, Ev[l].c)
        /\ l' = l + 1
        /\ UNCHANGED <<con, par, h, hdl>>

\* what o has reported so far agrees with the record e
OutOK(o, e) ==
  /\ o.op \in {"List", "Get"} =>
       /\ Len(o.out) <= Len(e.got)
       /\ (o.st = "done" => Len(o.out) = Len(e.got))
       /\ \A i \in 1..Len(o.out) : o.out[i].p = e.got[i].p /\ o.out[i].v = e.got[i].v
  /\ (o.op \notin {"List", "Get"} /\ o.st = "done") => o.res = e.res

\* the handle e.ret stands for the directory o.ret
Bind(o, e) ==
  IF o.op \in {"RegDir", "GetDir"} /\ o.st = "done" /\ o.res = "ok"
  THEN IF e.ret \in DOMAIN hdl THEN hdl[e.ret] = o.ret /\ UNCHANGED hdl
       ELSE (\A i \in DOMAIN hdl : hdl[i] # o.ret) /\ hdl' = RWith(hdl, e.ret, o.ret)
  ELSE UNCHANGED hdl

TStep == /\ l <= Len(Ev) /\ Ev[l].k = "r"
         /\ IF Ev[l].c \in DOMAIN ops THEN ops[Ev[l].c].st = "run" ELSE FALSE
         /\ \E c \in DOMAIN ops :
               /\ RStep(c)
               /\ OutOK(ops'[c], Ev[c])
               /\ Bind(ops'[c], Ev[c])
         /\ UNCHANGED <<h, l>>

TNext == TCall \/ TRet \/ TStep
TSpec == TInit /\ [][TNext]_tvars

Accept == (l = Len(Ev) + 1) => PrintT("OK" \o ToString(h))
Progress == (IOEnv.VERIF_AT = "1") => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
=============================================================================
