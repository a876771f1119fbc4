------------------------------ MODULE IdsTrace ------------------------------
(* Recorded responses: ev is a sequence of responses.                        *)
EXTENDS Ids, Json, IOUtils
VARIABLES h, l
Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Ev == Hist[h].ev
TInit == h \in 1..Len(Hist) /\ l = 1 /\ id = <<>>
TNext == l <= Len(Ev) /\ Respond(Ev[l]) /\ l' = l + 1 /\ UNCHANGED h
TSpec == TInit /\ [][TNext]_<<id, h, l>>
Accept == (l = Len(Ev) + 1) => PrintT("OK" \o ToString(h))
Progress == (IOEnv.VERIF_AT = "1") => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
=============================================================================
