------------------------------- MODULE Pretty --------------------------------
(* How HTML shows integers, durations and times. An integer is a sign and    *)
(* its digits (limbs) in base R, the most significant one first.             *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

RECURSIVE ZRep(_, _)
ZRep(s, n) == IF n <= 0 THEN "" ELSE s \o ZRep(s, n - 1)
ZPad(n, w) == LET s == ToString(n) IN ZRep("0", w - Len(s)) \o s

(* -------------------------------- integers ------------------------------ *)
Sign(neg) == IF neg THEN "-" ELSE ""
\* without unit: base 1000
RECURSIVE Groups(_)
Groups(l) == IF l = <<>> THEN "" ELSE "," \o ZPad(Head(l), 3) \o Groups(Tail(l))
Commas(neg, l) == Sign(neg) \o ToString(l[1]) \o Groups(Tail(l))
\* decimal, of base 1000
RECURSIVE Joined(_)
Joined(l) == IF l = <<>> THEN "" ELSE ZPad(Head(l), 3) \o Joined(Tail(l))

Suffixes == [n |-> <<" thousand", " million", " billion", " trillion", "K trillion", "M trillion">>,
             b |-> <<" KiB", " MiB", " GiB", " TiB", " PiB", " EiB">>,
             s |-> <<" KiB/s", " MiB/s", " GiB/s", " TiB/s", " PiB/s", " EiB/s">>]

\* a fraction (limbs after the point) times m: its integer part, and what is left
RECURSIVE Times(_, _, _)
Times(f, m, R) ==
  IF f = <<>> THEN [int |-> 0, rest |-> <<>>]
  ELSE LET t == Times(Tail(f), m, R)
           x == f[1] * m + t.int
       IN [int |-> x \div R, rest |-> <<x % R>> \o t.rest]

All(f, v) == \A i \in 1..Len(f) : f[i] = v
\* may the fraction be rounded down, up? Halves, and what a float cannot tell
\* from a half, may go either way.
Round(f, R) ==
  IF f = <<>> THEN {0}
  ELSE LET few == SubSeq(f, 2, IF Len(f) < 3 THEN Len(f) ELSE 3) IN
       IF f[1] = R \div 2 /\ All(few, 0) THEN {0, 1}
       ELSE IF f[1] = R \div 2 - 1 /\ Len(f) > 3 /\ All(few, R - 1) THEN {0, 1}
       ELSE IF f[1] >= R \div 2 THEN {1} ELSE {0}

\* the value l[1].l[2]l[3]... to p decimals, times 10^p
Pow10(p) == IF p = 2 THEN 100 ELSE IF p = 1 THEN 10 ELSE 1
Rounded(l, p, R) ==
  LET t == Times(Tail(l), Pow10(p), R)
  IN {l[1] * Pow10(p) + t.int + r : r \in Round(t.rest, R)}

\* three significant digits: the numbers that may be shown
Digits3(l, R) ==
  LET two == Rounded(l, 2, R)
      one == Rounded(l, 1, R)
  IN {ToString(x \div 100) \o "." \o ZPad(x % 100, 2) : x \in {y \in two : y < 1000}}
     \cup (IF \E y \in two : y >= 1000 THEN {ToString(x \div 10) \o "." \o ToString(x % 10) : x \in {y \in one : y >= 100 /\ y < 1000}} ELSE {})
     \cup (IF \E y \in one : y >= 1000 THEN {ToString(x) : x \in Rounded(l, 0, R)} ELSE {})
Compact(neg, l, R, suf) ==
  IF Len(l) = 1 THEN {Sign(neg) \o ToString(l[1])}
  ELSE {Sign(neg) \o d \o Suffixes[suf][Len(l) - 1] : d \in Digits3(l, R)}
       \* what a float cannot tell from the next power may be shown as that
       \cup (IF Len(l) > 4 /\ Len(l) < 7 /\ All(SubSeq(l, 1, 4), R - 1) THEN {Sign(neg) \o "1.00" \o Suffixes[suf][Len(l)]} ELSE {})

(* ------------------------------- durations ------------------------------ *)
\* days, hours, minutes, seconds and nanoseconds
Dur(d, h, m, s, ns) ==
  IF d > 0 THEN ToString(d) \o "d " \o ToString(h) \o "h " \o ToString(m) \o "m " \o ToString(s) \o "s"
  ELSE IF h > 0 THEN ToString(h) \o "h " \o ToString(m) \o "m " \o ToString(s) \o "s"
  ELSE LET sec == ToString(s) \o "." \o ZPad(ns \div 1000000, 3) \o "s" IN
       IF m > 0 THEN ToString(m) \o "m " \o sec
       ELSE IF s > 0 THEN sec
       ELSE IF ns >= 10000000 THEN ToString(ns \div 1000000) \o "ms"
       ELSE IF ns >= 10000 THEN ToString(ns \div 1000) \o "~s"     \* ~ is the Greek letter for micro
       ELSE ToString(ns) \o "ns"

(* --------------------------------- times -------------------------------- *)
\* The date of a day, counted from 1970-01-01: years begin in March, and eras
\* of 400 years have 146097 days.
Date(day) ==
  LET z == day + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [d |-> doy - (153 * mp + 2) \div 5 + 1, m |-> m, y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)]
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
NextDay(e) == IF e.d < MonthLen(e.y, e.m) THEN [e EXCEPT !.d = @ + 1]
              ELSE IF e.m < 12 THEN [y |-> e.y, m |-> e.m + 1, d |-> 1]
              ELSE [y |-> e.y + 1, m |-> 1, d |-> 1]
\* the fraction of the second, without trailing zeros
RECURSIVE NoZeros(_)
NoZeros(s) == IF s = "" THEN "" ELSE IF SubSeq(s, Len(s), Len(s)) = "0" THEN NoZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
Frac(ns) == IF ns = 0 THEN "" ELSE "." \o NoZeros(ZPad(ns, 9))
Time(day, sec, ns) ==
  LET e == Date(day)
  IN ZPad(e.y, 4) \o "-" \o ZPad(e.m, 2) \o "-" \o ZPad(e.d, 2) \o "T" \o ZPad(sec \div 3600, 2) \o ":"
     \o ZPad((sec \div 60) % 60, 2) \o ":" \o ZPad(sec % 60, 2) \o Frac(ns) \o "Z"
=============================================================================
