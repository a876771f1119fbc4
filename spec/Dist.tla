-------------------------------- MODULE Dist --------------------------------
(* Distributions (metric.go: distribution, Bucketer). Values are integers;   *)
(* the harness embeds them into the floats with an exact affine map.         *)
(*   ends   endpoints, ascending: range 1 is below ends[1], range k+1 starts *)
(*          at ends[k]                                                       *)
(*   d      the distribution: bag (value -> how often it is in), cs (counts  *)
(*          of the ranges), n, sum, min,                                     *)
(*          max, kind ("c" cumulative, "n" not), unit ("-" until registered)  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Off
On(p) == p \notin Off
OnAll(ps) == Off \cap ps = {}

DPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
DDel(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

RangeOf(ends, v) == 1 + Cardinality({i \in 1..Len(ends) : ends[i] <= v})

New(ends, kind) == [bag |-> <<>>, cs |-> [k \in 1..Len(ends)+1 |-> 0], n |-> 0, sum |-> 0, min |-> 0, max |-> 0,
                    kind |-> kind, unit |-> "-"]

Count(d, v) == IF v \in DOMAIN d.bag THEN d.bag[v] ELSE 0
Incr(b, v) == DPut(b, v, 1 + IF v \in DOMAIN b THEN b[v] ELSE 0)
Decr(b, v) == IF b[v] = 1 THEN DDel(b, v) ELSE [b EXCEPT ![v] = @ - 1]

AddTo(ends, d, v) ==
  [d EXCEPT !.bag = Incr(@, v), !.cs[RangeOf(ends, v)] = @ + 1, !.n = @ + 1, !.sum = @ + v,
            !.min = IF d.n = 0 THEN v ELSE MinOf(@, v),
            !.max = IF d.n = 0 THEN v ELSE MaxOf(@, v)]
\* o must be in the distribution
UpdateIn(ends, d, o, v) ==
  [d EXCEPT !.bag = Incr(Decr(@, o), v), !.cs = [[@ EXCEPT ![RangeOf(ends, v)] = @ + 1] EXCEPT ![RangeOf(ends, o)] = @ - 1],
            !.sum = @ + v - o,
            !.min = MinOf(@, v), !.max = MaxOf(@, v)]
RemoveFrom(ends, d, v) ==
  [d EXCEPT !.bag = Decr(@, v), !.cs[RangeOf(ends, v)] = @ - 1, !.n = @ - 1, !.sum = @ - v]

\* k times the same
AddMany(ends, d, v, k) ==
  [d EXCEPT !.bag = DPut(@, v, k + IF v \in DOMAIN @ THEN @[v] ELSE 0), !.cs[RangeOf(ends, v)] = @ + k, !.n = @ + k, !.sum = @ + k * v,
            !.min = IF d.n = 0 THEN v ELSE MinOf(@, v),
            !.max = IF d.n = 0 THEN v ELSE MaxOf(@, v)]
RemoveMany(ends, d, v, k) ==
  [d EXCEPT !.bag = IF @[v] = k THEN DDel(@, v) ELSE [@ EXCEPT ![v] = @ - k],
            !.cs[RangeOf(ends, v)] = @ - k, !.n = @ - k, !.sum = @ - k * v]

\* Units, and what adding gives: "ok" or "panic"
TimeUnits == {"Seconds", "Milliseconds"}
AddResult(d, form) ==
  IF d.unit = "-" \/ form = "bad" \/ (form = "dur" /\ d.unit \notin TimeUnits) THEN "panic" ELSE "ok"
RegResult(d, u) == IF d.unit \in {"-", u} THEN "ok" ELSE "wrongunit"
WithUnit(d, u) == IF d.unit = "-" THEN [d EXCEPT !.unit = u] ELSE d

(* ---------------------------- what is read ----------------------------- *)
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(f, S \ {x})
RangeCount(ends, d, k) == SumSet(d.bag, {v \in DOMAIN d.bag : RangeOf(ends, v) = k})
RangeCounts(ends, d) == [k \in 1..Len(ends)+1 |-> RangeCount(ends, d, k)]

\* the range holding the i-th smallest value
RECURSIVE RangeAt(_, _, _)
RangeAt(cs, i, k) == IF i <= cs[k] THEN k ELSE RangeAt(cs, i - cs[k], k + 1)
\* lower and upper bound of range k, clipped to min and max
LoOf(ends, d, k) == IF k = 1 THEN d.min ELSE MaxOf(ends[k - 1], d.min)
HiOf(ends, d, k) == IF k = Len(ends) + 1 THEN d.max ELSE MinOf(ends[k], d.max)
\* 8 times the bounds of the median, given the counts of the ranges
Median8S(ends, d, cs) ==
  IF d.n = 0 THEN <<0, 0>>
  ELSE IF d.n <= 2 THEN LET m == (8 \div d.n) * d.sum IN <<m, m>>
  ELSE LET a == RangeAt(cs, (d.n + 1) \div 2, 1)
           b == RangeAt(cs, d.n \div 2 + 1, 1)
       IN <<4 * (LoOf(ends, d, a) + LoOf(ends, d, b)), 4 * (HiOf(ends, d, a) + HiOf(ends, d, b))>>
Median8(ends, d) == Median8S(ends, d, d.cs)
\* what remains of it when the values are only ordered
MedianR(ends, d, cs) ==
  LET a == RangeAt(cs, (d.n + 1) \div 2, 1)
      b == RangeAt(cs, d.n \div 2 + 1, 1)
  IN <<8 * LoOf(ends, d, a), 8 * HiOf(ends, d, b)>>

(* ------------------------- what must be true --------------------------- *)
Sane(ends, d) ==
  /\ d.n = SumSet(d.bag, DOMAIN d.bag)
  /\ d.sum = SumSet([v \in DOMAIN d.bag |-> v * d.bag[v]], DOMAIN d.bag)
  /\ d.cs = RangeCounts(ends, d)
  /\ d.n = SumSet(d.cs, 1..Len(ends)+1)
  /\ \A v \in DOMAIN d.bag : d.bag[v] > 0 /\ d.min <= v /\ v <= d.max
  /\ d.n > 0 => LET m == Median8(ends, d) IN 8 * d.min <= m[1] /\ m[1] <= m[2] /\ m[2] <= 8 * d.max
=============================================================================
