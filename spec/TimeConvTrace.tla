---------------------------- MODULE TimeConvTrace ----------------------------
(* Validation of recorded conversions of times and durations.                *)
(*   history [ev]   event [k, u, x, s, back]: x was rendered in unit u as s, *)
(*                  which converted back gave back                           *)
EXTENDS TimeConv, IOUtils

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
NoUnits == {}
VARIABLES h, l
Ev == Hist[h].ev
TTInit == h \in 1..Len(Hist) /\ l = 1 /\ c = 0
TTNext == /\ l <= Len(Ev)
          /\ Ev[l].s = Render(Ev[l].x, Ev[l].u)
          /\ Ev[l].back = Ev[l].x
          /\ l' = l + 1 /\ UNCHANGED <<h, c>>
TTSpec == TTInit /\ [][TTNext]_<<h, l, c>>
Accept == (l = Len(Ev) + 1) => PrintT("OK" \o ToString(h))
Progress == (IOEnv.VERIF_AT = "1") => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
=============================================================================
