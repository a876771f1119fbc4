---------------------------- MODULE PrettyTrace -----------------------------
(* Validation of recorded renderings: events [k, neg, l, R, suf, s] as the   *)
(* cases of PrettyMC; suf "," means without unit. s is what was shown.       *)
EXTENDS Pretty, IOUtils

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES h, l
Ev == Hist[h].ev
May(e) == CASE e.k = "int" -> IF e.suf = "," THEN {Commas(e.neg, e.l)} ELSE Compact(e.neg, e.l, e.R, e.suf)
            [] e.k = "dur" -> {Dur(e.l[1], e.l[2], e.l[3], e.l[4], e.l[5])}
            [] e.k = "time" -> {Time(e.l[1], e.l[2], e.l[3])}
PTInit == h \in 1..Len(Hist) /\ l = 1
PTNext == l <= Len(Ev) /\ Ev[l].s \in May(Ev[l]) /\ l' = l + 1 /\ UNCHANGED h
PTSpec == PTInit /\ [][PTNext]_<<h, l>>
Accept == (l = Len(Ev) + 1) => PrintT("OK" \o ToString(h))
Progress == (IOEnv.VERIF_AT = "1") => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
=============================================================================
