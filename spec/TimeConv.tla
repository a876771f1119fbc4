------------------------------ MODULE TimeConv -------------------------------
(* Durations and times as decimal strings. A duration, or a time counted     *)
(* from the Unix epoch, is a sign and the decimal digits of its nanoseconds. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Units

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)
Pad(s, n) == Rep("0", n - Len(s)) \o s
Front0(s, n) == SubSeq(s, 1, Len(s) - n)           \* without the last n
Back0(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))   \* the last n
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN Strip(SubSeq(s, 2, Len(s))) ELSE s

\* places after the point that nanoseconds are in unit u
Places(u) == IF u = "Milliseconds" THEN 6 ELSE 9
Render(x, u) ==
  LET p == Places(u)
      d == Pad(x.ns, p + 1)
  IN (IF x.neg /\ x.ns # "0" THEN "-" ELSE "") \o Front0(d, p) \o "." \o Back0(d, p) \o Rep("0", 9 - p)
\* sign, digits before and after the point, read as unit u
Parse(neg, whole, frac, u) ==
  LET p == Places(u)
      ns == Strip(whole \o SubSeq(frac \o Rep("0", p), 1, p))
  IN [neg |-> neg /\ ns # "0", ns |-> ns]

(* -------------------------------- cases -------------------------------- *)
Prefixes(s, lo, hi) == {SubSeq(s, 1, k) : k \in lo..hi}
Digits(n) == {"0"} \cup Prefixes("999999999999999999999999", 1, n) \cup Prefixes("100000000000000000000000", 1, n)
             \cup Prefixes("123456789012345678901234", 1, n) \cup Prefixes("500000000500000000500000", 1, n)
             \cup Prefixes("909090909090909090909090", 1, n) \cup Prefixes("100000001000000001000001", 1, n)
Durs == {[neg |-> g, ns |-> s] : g \in BOOLEAN, s \in Digits(18) \cup {"9223372036854775807", "60000000000", "59999999999", "3600000000000", "86399999999999"}}
        \cup {[neg |-> TRUE, ns |-> "9223372036854775808"]}
\* as far as milliseconds have less than 63 bits
Times == {[neg |-> FALSE, ns |-> s] : s \in Digits(24) \cup {"253402300799999999999", "253402300800000000000", "9223372036854775000000000", "9223372036854774999999999", "1464217799000000001", "2147483647999999999", "2147483648000000000"}}
         \cup {[neg |-> TRUE, ns |-> s] : s \in Digits(24) \cup {"62135596799999999999", "62135596800000000001", "9223372036854774999999999", "2147483648000000001", "300000000"}}
Real(x) == ~(x.neg /\ x.ns = "0")
Strs == {<<w, f>> : w \in {"0", "1", "7", "42", "1500", "86400", "007"}, f \in {"", "0", "5", "000000001", "123456789", "1234567891", "999999999999", "999999", "0000001", "25"}}

\* an optional sign, digits, and possibly a point and more digits
Wholes == {"1", "", "a", "1e5", "0x10", " 1", "1 ", "1,5", "1_000", "-1", "--1", "NaN", "Inf", "1a1"}
Fracs == {"", ".25", ".123456789012", ".x", ".1x", ".x1", ".12x45", ".123456789x", ".1234567890123x", ".1.2", "..1", ".-5", ".+5", ". 5", ".5 ", ".1e3", ".123456789 ", ".123456789.1", ".1_0"}
BadStrs == {t \in {"", "-"} \X Wholes \X Fracs : ~(t[2] = "1" \/ (t[1] = "" /\ t[2] = "-1")) \/ t[3] \notin {"", ".25", ".123456789012"}}

Cases == {[k |-> "bad", x |-> [neg |-> FALSE, s |-> t[1] \o t[2] \o t[3]], u |-> u] : t \in BadStrs, u \in {"Seconds", "Milliseconds"}}
         \cup {[k |-> "zero", x |-> [neg |-> FALSE, ns |-> "0"], u |-> u] : u \in Units}
         \cup {[k |-> "dur", x |-> x, u |-> u] : x \in {y \in Durs : Real(y)}, u \in Units}
         \cup {[k |-> "time", x |-> x, u |-> u] : x \in {y \in Times : Real(y)}, u \in Units}
         \cup {[k |-> "str", x |-> [neg |-> g, w |-> s[1], f |-> s[2]], u |-> u] : g \in BOOLEAN, s \in Strs, u \in Units}

VARIABLE c
TInit == c \in Cases
TSpec == TInit /\ [][UNCHANGED c]_c

Point(s, i) == SubSeq(s, i, i) = "."
RoundTrip == c.k \notin {"str", "bad"} =>
  LET s == Render(c.x, c.u)
      body == IF SubSeq(s, 1, 1) = "-" THEN SubSeq(s, 2, Len(s)) ELSE s
      n == Len(body)
  IN /\ Point(body, n - 9)                    \* nine fractional digits
     /\ Parse(SubSeq(s, 1, 1) = "-", SubSeq(body, 1, n - 10), SubSeq(body, n - 8, n), c.u) = c.x
Emit == PrintT("C" \o ToJson(
  IF c.k = "bad" THEN [k |-> c.k, u |-> c.u, s |-> c.x.s]
  ELSE IF c.k = "str" THEN [k |-> c.k, u |-> c.u,
                       s |-> (IF c.x.neg THEN "-" ELSE "") \o c.x.w \o (IF c.x.f = "" THEN "" ELSE ".") \o c.x.f,
                       x |-> Parse(c.x.neg, c.x.w, c.x.f, c.u)]
  ELSE [k |-> c.k, u |-> c.u, s |-> Render(c.x, c.u), x |-> c.x]))
=============================================================================
