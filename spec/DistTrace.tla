------------------------------ MODULE DistTrace ------------------------------
(* Validation of recorded sequential histories of one distribution.          *)
(*   history [kind, ends, ev]                                                *)
(*   Reg  unit, res        Add v, form, res     Upd o, v, form, res          *)
(*   Rem  v, form, res     MinMax min, max (read afterwards)                 *)
(*   AddMany, RemMany  v, num, res: so many times, v is in so often          *)
(*   Snap what was read: n, sum, avgn (average times n), min, max, cs, ends, *)
(*        mf, mc (8 times the median, rounded down and up), gen, nc, unit, ts*)
(*        (the operations during which the reported timestamp was taken)     *)
(*        hs: the values are numbers; otherwise they are ranks, so that sums *)
(*        mean nothing. hm: the median was comparable                        *)
(*   Tot  n, sum           Sum() and Count()                                 *)
EXTENDS Dist, Json, IOUtils

VARIABLES h, l, d, gen, last, prev
tvars == <<h, l, d, gen, last, prev>>

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
OffSet == {IOEnv.VERIF_OFF}
Ev == Hist[h].ev
E == Ev[l]
Ends == Hist[h].ends

TInit == /\ h \in 1..Len(Hist) /\ l = 1
         /\ d = New(Hist[h].ends, Hist[h].kind) /\ gen = 0 /\ last = 0 /\ prev = {}

Step(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED h
Same == UNCHANGED <<d, gen, last, prev>>

TReg == /\ Step("Reg")
        /\ On("C19") => E.res = RegResult(d, E.unit)
        /\ d' = WithUnit(d, E.unit) /\ UNCHANGED <<gen, last>> /\ prev' = {}

\* A change: what it gives, and the distribution after it. A refused one
\* changes nothing.
ChangeN(want, after, k) ==
  /\ IF want = "panic" THEN On("C19") => E.res = "panic"
     ELSE OnAll({"C15", "C16", "C19"}) => E.res = "ok"
  /\ IF E.res = "ok" THEN d' = after /\ gen' = gen + k /\ last' = l /\ prev' = {}
     ELSE UNCHANGED <<d, gen, last, prev>>

Change(want, after) == ChangeN(want, after, 1)

TAddMany == Step("AddMany") /\ ChangeN("ok", IF E.res = "ok" THEN AddMany(Ends, d, E.v, E.num) ELSE d, E.num)
TRemMany == Step("RemMany") /\ ChangeN("ok", IF E.res = "ok" THEN RemoveMany(Ends, d, E.v, E.num) ELSE d, E.num)
TAdd == Step("Add") /\ Change(AddResult(d, E.form), IF E.res = "ok" THEN AddTo(Ends, d, E.v) ELSE d)
\* removing from an empty distribution panics, too
ChResult == IF AddResult(d, E.form) = "panic" \/ d.n = 0 THEN "panic" ELSE "ok"
TUpd == Step("Upd") /\ Change(ChResult, IF E.res = "ok" /\ Count(d, E.o) > 0 THEN UpdateIn(Ends, d, E.o, E.v) ELSE d)
TRem == Step("Rem") /\ Change(ChResult, IF E.res = "ok" /\ Count(d, E.v) > 0 THEN RemoveFrom(Ends, d, E.v) ELSE d)

TMinMax ==
  /\ Step("MinMax")
  /\ IF d.n = 0 THEN Same
     ELSE /\ On("C16") => /\ d.min <= E.min /\ \A v \in DOMAIN d.bag : E.min <= v
                          /\ d.max >= E.max /\ \A v \in DOMAIN d.bag : E.max >= v
          /\ d' = [d EXCEPT !.min = E.min, !.max = E.max]
          /\ prev' = {} /\ UNCHANGED <<gen, last>>

\* The reported median fits the reported counts, min, max and sum
Seen == [n |-> E.n, sum |-> E.sum, min |-> E.min, max |-> E.max]
MedianFits ==
  IF E.n = 0 THEN E.mf = 0 /\ E.mc = 0
  ELSE LET m == IF E.hs THEN Median8S(Ends, Seen, E.cs) ELSE MedianR(Ends, Seen, E.cs)
       IN m[1] <= E.mf /\ E.mc <= m[2]

Stat(e) == [n |-> e.n, sum |-> e.sum, min |-> e.min, max |-> e.max, cs |-> e.cs, gen |-> e.gen, unit |-> e.unit]
TSnap ==
  /\ Step("Snap")
  /\ On("C15") => E.ends = Ends
  /\ OnAll({"C15", "C16"}) => E.cs = d.cs
  /\ On("C16") => /\ E.n = d.n /\ E.gen = gen /\ E.nc = (d.kind = "n")
                  /\ E.min = (IF d.n = 0 THEN 0 ELSE d.min) /\ E.max = (IF d.n = 0 THEN 0 ELSE d.max)
                  /\ E.hs => E.sum = d.sum /\ E.avgn = d.sum
                  /\ last \in {E.ts[i] : i \in 1..Len(E.ts)}
  /\ (On("C18") /\ E.hm /\ Len(E.cs) = Len(Ends) + 1 /\ E.n = SumSet(E.cs, 1..Len(E.cs))) => MedianFits
  /\ On("C19") => /\ E.unit = d.unit
                  /\ \A p \in prev : p = Stat(E)
  /\ prev' = {Stat(E)} /\ UNCHANGED <<d, gen, last>>

TTot == /\ Step("Tot")
        /\ On("C16") => E.n = d.n /\ (E.hs => E.sum = d.sum)
        /\ Same

TNext == TAddMany \/ TRemMany \/ TReg \/ TAdd \/ TUpd \/ TRem \/ TMinMax \/ TSnap \/ TTot
TSpec == TInit /\ [][TNext]_tvars

Accept == (l = Len(Ev) + 1) => PrintT("OK" \o ToString(h))
Progress == (IOEnv.VERIF_AT = "1") => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
=============================================================================
