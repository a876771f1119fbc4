--------------------------- MODULE ResourcesTrace ---------------------------
(* Recorded histories of bulk steps; after each the process was looked at when  *)
(* nothing was in progress any more.                                          *)
EXTENDS Resources, Json, IOUtils, TLC
VARIABLES h, l
Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Ev == Hist[h].ev
Do(e) == CASE e.op = "reg" -> Register(e.k, e.n)
           [] e.op = "unreg" -> Remove(e.k, e.n)
           [] e.op = "group" -> Create(e.n)
           [] OTHER -> Passing
Within(e) == /\ e.goroutines <= Goroutines'
             /\ e.files <= Files
             /\ e.kib <= KiB'
             /\ \A k \in DOMAIN e.alive : e.alive[k] <= Alive(k)'
TInit == h \in 1..Len(Hist) /\ l = 1 /\ Init
TNext == l <= Len(Ev) /\ Do(Ev[l]) /\ Within(Ev[l]) /\ l' = l + 1 /\ UNCHANGED h
TSpec == TInit /\ [][TNext]_<<reg, groups, h, l>>
Accept == (l = Len(Ev) + 1) => PrintT("OK" \o ToString(h))
Progress == (IOEnv.VERIF_AT = "1") => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
=============================================================================
