----------------------------- MODULE TypesTrace ------------------------------
(* Validation of recorded conversions. Events                                *)
(*  int   t, x, exact, f, back: x (decimal) became the float f (decimal) and *)
(*        from that back; exact: a float can represent x                     *)
(*  float t, same: a float converted there and back was the same             *)
(*  round t, base, v, r: base + v/8 became base + r                          *)
(*  dur   near, exact, same: a duration of less than 2^50 ns, or one that    *)
(*        is a float number of seconds, converted there and back             *)
(*  time  ns: nanoseconds between a time and itself converted there and back *)
EXTENDS Types, IOUtils

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES h, l
Ev == Hist[h].ev
Fits(e) ==
  CASE e.k = "int" -> e.exact => e.f = e.x /\ e.back = e.x
    [] e.k = "float" -> e.same
    [] e.k = "round" -> e.r = Round8(e.v)
    [] e.k = "dur" -> e.exact => e.same
    [] e.k = "time" -> -1000 <= e.ns /\ e.ns <= 1000
TtInit == h \in 1..Len(Hist) /\ l = 1 /\ c = 0
TtNext == l <= Len(Ev) /\ Fits(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<h, c>>
TtSpec == TtInit /\ [][TtNext]_<<h, l, c>>
Accept == (l = Len(Ev) + 1) => PrintT("OK" \o ToString(h))
Progress == (IOEnv.VERIF_AT = "1") => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
=============================================================================
