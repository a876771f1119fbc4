----------------------------- MODULE ProcessTrace -----------------------------
(* Validation of recorded requests for the metrics of the process. Events    *)
(* have the figures before and after (path -> number or text) and what was   *)
(* reported, es = <<[p, u, m, x], ...>> (m: with unit). all: everything was  *)
(* asked for; otherwise path q alone.                                        *)
EXTENDS Process, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
\* last: what the counters were in the previous report
VARIABLES h, l, last
Ev == Hist[h].ev
Reported(e) == {e.es[i].p : i \in 1..Len(e.es)}
Good(e, r) == /\ r.p \in Paths
              /\ r.m => r.u = Table[r.p].u
              /\ Right(r.p, r.x, e.before[r.p], e.after[r.p])
              /\ (Table[r.p].how = "counter" /\ r.p \in DOMAIN last) => Leq(last[r.p], r.x)
              /\ (Table[r.p].how \in {"fixed", "start"} /\ r.p \in DOMAIN last) => last[r.p] = r.x
Fits(e) == /\ e.err = ""
           /\ Len(e.es) = Cardinality(Reported(e))
           /\ Reported(e) = IF e.q = "" THEN Paths ELSE {e.q}
           /\ \A i \in 1..Len(e.es) : Good(e, e.es[i])
PInit == h \in 1..Len(Hist) /\ l = 1 /\ last = [p \in {} |-> <<0, 0>>]
PNext == /\ l <= Len(Ev) /\ Fits(Ev[l]) /\ l' = l + 1 /\ UNCHANGED h
          /\ last' = [p \in Reported(Ev[l]) |-> LET i == CHOOSE i \in 1..Len(Ev[l].es) : Ev[l].es[i].p = p IN Ev[l].es[i].x] @@ last
PSpec == PInit /\ [][PNext]_<<h, l, last>>
Accept == (l = Len(Ev) + 1) => PrintT("OK" \o ToString(h))
Progress == (IOEnv.VERIF_AT = "1") => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
=============================================================================
