------------------------------- MODULE HttpTrace ------------------------------
(* Validation of recorded requests; see FitsHttp.                            *)
EXTENDS Http, IOUtils
Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES h, l
Ev == Hist[h].ev
HtInit == h \in 1..Len(Hist) /\ l = 1
HtNext == l <= Len(Ev) /\ FitsHttp(Ev[l]) /\ l' = l + 1 /\ UNCHANGED h
HtSpec == HtInit /\ [][HtNext]_<<h, l>>
Accept == (l = Len(Ev) + 1) => PrintT("OK" \o ToString(h))
Progress == (IOEnv.VERIF_AT = "1") => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
=============================================================================
