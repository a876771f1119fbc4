------------------------------ MODULE Bucketer -------------------------------
(* The endpoints the bucketer constructors document. Numbers are decimal:    *)
(* <<m, e>> is m * 10^e. Each case is an initial state; its endpoints are    *)
(* emitted for comparison with the real constructors.                        *)
EXTENDS Dist, Json, SequencesExt

CONSTANTS Counts, Starts, Scales, Incs, Lowers, Spans

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

\* comparing m * 10^e with n * 10^f for 0 < m, n < 1000
DecLess(a, b) ==
  LET k == IF a[2] < b[2] THEN a[2] ELSE b[2] IN
  IF a[2] - k > 6 THEN FALSE ELSE IF b[2] - k > 6 THEN TRUE
  ELSE a[1] * Pow(10, a[2] - k) < b[1] * Pow(10, b[2] - k)
DecLeq(a, b) == ~DecLess(b, a)

(* ------------------------------ constructors --------------------------- *)
\* exponential: start, start*scale, ...: count ranges
ExpOK(c) == c.count >= 2 /\ c.start[1] > 0 /\ DecLess(<<1, 0>>, c.scale)
RECURSIVE ExpEnds(_, _, _)
ExpEnds(n, x, scale) == IF n = 0 THEN <<>> ELSE <<x>> \o ExpEnds(n - 1, <<x[1] * scale[1], x[2] + scale[2]>>, scale)
\* linear: start, start+inc, ...
LinOK(c) == c.count >= 2 /\ c.inc[1] > 0
LinEnds(c) == LET k == IF c.start[2] < c.inc[2] THEN c.start[2] ELSE c.inc[2]
                  s == c.start[1] * Pow(10, c.start[2] - k)
                  i == c.inc[1] * Pow(10, c.inc[2] - k)
              IN [j \in 1..(c.count - 1) |-> <<s + (j - 1) * i, k>>]
\* geometric: the 1, 2, 5 series from the last one <= lower to the first >= upper
GeoOK(c) == c.lower[1] > 0 /\ c.upper[1] > 0 /\ DecLeq(c.lower, c.upper)
Series == [i \in 0..90 |-> << <<1, 2, 5>>[(i % 3) + 1], (i \div 3) - 15 >>]
GeoFirst(x) == CHOOSE i \in 0..89 : DecLeq(Series[i], x) /\ DecLess(x, Series[i + 1])
GeoLast(x) == CHOOSE i \in 0..90 : DecLeq(x, Series[i]) /\ (i > 0 => DecLess(Series[i - 1], x))
GeoEnds(c) == LET a == GeoFirst(c.lower)
                  b == GeoLast(c.upper)
                  z == IF b < a THEN a ELSE b
              IN [j \in 1..(z - a + 1) |-> Series[a + j - 1]]

OK(c) == CASE c.ctor = "exp" -> ExpOK(c) [] c.ctor = "lin" -> LinOK(c) [] c.ctor = "geo" -> GeoOK(c)
           [] c.ctor = "arb" -> Len(c.ends) > 0
EndsOf(c) == IF ~OK(c) THEN <<>>
             ELSE CASE c.ctor = "exp" -> ExpEnds(c.count - 1, c.start, c.scale)
                    [] c.ctor = "lin" -> LinEnds(c)
                    [] c.ctor = "geo" -> GeoEnds(c)
                    [] c.ctor = "arb" -> c.ends

(* -------------------------------- cases -------------------------------- *)
StartsA == {<<0, 0>>, <<-1, 0>>, <<1, 0>>, <<3, 0>>, <<5, -1>>, <<1, -1>>, <<25, 2>>, <<-20, 0>>, <<7, -3>>}
ScalesA == {<<1, 0>>, <<5, -1>>, <<-2, 0>>, <<2, 0>>, <<17, -1>>, <<4, 0>>, <<10, 0>>, <<15, -1>>, <<3, 0>>}
IncsA == {<<0, 0>>, <<-1, 0>>, <<1, 0>>, <<10, 0>>, <<25, -2>>, <<1, -1>>, <<7, 0>>, <<5, 1>>}
\* 1, 2, 5 times powers of ten, and values just around and between them
LowersA == {<<m, e>> : m \in {100, 101, 150, 199, 200, 201, 499, 500, 501, 999}, e \in {-12, -11, -8, -5, -4, -3, -2, -1, 0, 1, 4}}
           \cup {<<0, 0>>, <<-1, 0>>}
Cases ==
  [ctor : {"exp"}, count : Counts, start : Starts, scale : Scales]
  \cup [ctor : {"lin"}, count : Counts, start : Starts, inc : Incs]
  \cup {[ctor |-> "geo", lower |-> lo, upper |-> <<lo[1], lo[2] + s>>] : lo \in Lowers, s \in Spans}
  \cup {[ctor |-> "arb", ends |-> e] : e \in {<<>>, << <<5, 0>> >>, << <<10, 0>>, <<20, 0>>, <<30, 0>> >>, << <<-15, -1>>, <<0, 0>>, <<1, -9>>, <<3, 0>> >>,
        [i \in 1..50 |-> <<i * i, -1>>], [i \in 1..700 |-> <<i * i - 9000, -1>>]}}
  \cup {[ctor |-> "lin", count |-> n, start |-> <<-20, 0>>, inc |-> <<25, -2>>] : n \in {65, 130, 257, 258, 600}}
\* spans: upper is lower times 10^span
SpansA == {0, 1, 2, 6, -1}

VARIABLE c
BInit == c \in Cases
BSpec == BInit /\ [][UNCHANGED c]_c

LessDec(a, b) == LET k == IF a[2] < b[2] THEN a[2] ELSE b[2] IN a[1] * Pow(10, a[2] - k) < b[1] * Pow(10, b[2] - k)
Small(x) == x[1] < 1000 /\ x[1] > -1000 /\ x[2] > -5 /\ x[2] < 4
Ascending == LET e == EndsOf(c) IN
  \A i \in 1..(Len(e) - 1) : (Small(e[i]) /\ Small(e[i + 1])) => LessDec(e[i], e[i + 1])
NumRanges == OK(c) /\ c.ctor \in {"exp", "lin"} => Len(EndsOf(c)) = c.count - 1
\* the documented example
Example == c.ctor = "geo" /\ c.lower = <<500, -3>> /\ c.upper = <<500, -1>> =>
   EndsOf(c) = << <<5, -1>>, <<1, 0>>, <<2, 0>>, <<5, 0>>, <<1, 1>>, <<2, 1>>, <<5, 1>> >>

\* one value just below each endpoint (odd rank) and one at it (even)
CountsOf(n) == LET ends == [i \in 1..n |-> 2 * i]
                   RECURSIVE Fill(_, _)
                   Fill(d, v) == IF v > 2 * n THEN d ELSE Fill(AddTo(ends, d, v), v + 1)
               IN Fill(New(ends, "c"), 1).cs
\* the same for many endpoints
CountsMany(n) == [i \in 1..(n + 1) |-> IF i \in {1, n + 1} THEN 1 ELSE 2]
ManyOK == OK(c) /\ Len(EndsOf(c)) < 12 => CountsMany(Len(EndsOf(c))) = CountsOf(Len(EndsOf(c)))
Emit == LET e == EndsOf(c) IN
  PrintT("C" \o ToJson([c |-> c, ok |-> OK(c), ends |-> e, cs |-> IF ~OK(c) THEN <<>> ELSE IF Len(e) > 60 THEN CountsMany(Len(e)) ELSE CountsOf(Len(e))]))
=============================================================================
