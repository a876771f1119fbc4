------------------------------ MODULE PrettyMC -------------------------------
(* The cases run against the code.                                           *)
EXTENDS Pretty

CONSTANT More
VARIABLE c

Firsts(R) == {1, 2, 9, 10, 42, 99, 100, 101, R \div 2, R - 1} \cup (IF More THEN {3, 5, 7, 11, 50, 98, 500, 998, R - 2} ELSE {})
Seconds(R) == {0, 1, 4, 5, 6, 9, 10, 49, 50, 51, 94, 95, 96, 99, 100, 449, 450, 451, 494, 495, 496, 499, 500, 501, 511, 512, 513, 949, 950, 951, 989, 990, 994, 995, 996, 999, R - 2, R - 1,
               (R * 5) \div 1000, (R * 5) \div 1000 + 1, (R * 995) \div 1000, (R * 995) \div 1000 + 1, (R * 95) \div 100, (R * 95) \div 100 + 1, (R * 949) \div 1000}
Thirds(R) == {0, 1, R \div 2, R - 1}
Fill(n, v) == [i \in 1..n |-> v]
Base(suf) == IF suf = "n" THEN 1000 ELSE 1024
IntCase(suf, l) == [k |-> "int", suf |-> suf, l |-> l, R |-> Base(suf)]
\* the extremes of the integer types
Ext(suf) == IF suf = "n" THEN
          {<<18, 446, 744, 73, 709, 551, 615>>, <<9, 223, 372, 36, 854, 775, 808>>, <<9, 223, 372, 36, 854, 775, 807>>, <<2, 147, 483, 647>>, <<2, 147, 483, 648>>, <<4, 294, 967, 295>>, <<65, 535>>, <<32, 768>>, <<32, 767>>}
        ELSE {<<15, 1023, 1023, 1023, 1023, 1023, 1023>>, <<8, 0, 0, 0, 0, 0, 0>>, <<7, 1023, 1023, 1023, 1023, 1023, 1023>>}
DayOf == {-719162, -719161, -1, 0, 1, 58, 59, 60, 364, 365, 789, 790, 10956, 10957, 11015, 11016, 11017, 16994, 19781, 19782, 19783, 24855, 47540, 47541, 2932895, 2932896}
         \cup (IF More THEN {d * 997 - 719000 : d \in 0..3600} ELSE {d * 9973 - 719000 : d \in 0..360})

Part(k, suf, f) == [k |-> k, suf |-> suf, l |-> f, R |-> 0]
PInit == \/ \E suf \in {"n", "b", "s"} : \E a \in Firsts(Base(suf)) : c = Part("ints", suf, <<a>>)
         \/ \E suf \in {"n", "b", "s"} : \E a \in 0..15 : c = Part("small", suf, <<a>>)
         \/ \E d \in {0, 1, 2, 106750} : \E h \in {0, 1, 23} : c = Part("durs", "", <<d, h>>)
         \/ \E d \in DayOf : c = Part("times", "", <<d>>)
PNext ==
  \/ /\ c.k = "small"
     /\ \/ \E x \in (c.l[1] * 64)..(c.l[1] * 64 + 63) : x < Base(c.suf) /\ c' = IntCase(c.suf, <<x>>)
        \/ c.l[1] = 0 /\ \E x \in Ext(c.suf) : c' = IntCase(c.suf, x)
  \/ /\ c.k = "ints"
     /\ LET R == Base(c.suf) IN \E b \in Seconds(R) :
          \/ c' = IntCase(c.suf, c.l \o <<b>>)
          \/ \E t \in Thirds(R), n \in 0..4, v \in {0, R - 1} : c' = IntCase(c.suf, c.l \o <<b, t>> \o Fill(n, v))
  \/ /\ c.k = "durs"
     /\ \E m \in {0, 1, 59}, s \in {0, 1, 9, 59},
           n \in {0, 1, 999, 9999, 10000, 10001, 999999, 1000000, 9999999, 10000000, 10999999, 99999999, 500000000, 999000000, 999499999, 999999999} :
           c' = [k |-> "dur", suf |-> "", l |-> c.l \o <<m, s, n>>, R |-> 0]
  \/ /\ c.k = "times"
     /\ \E s \in {0, 1, 3599, 43200, 86399}, n \in {0, 1, 10, 500000000, 123456789, 999999990, 999999999} :
           c' = [k |-> "time", suf |-> "", l |-> c.l \o <<s, n>>, R |-> 0]
PSpec == PInit /\ [][PNext]_c

\* what is shown is the value to within half of the last digit
Near == c.k = "int" /\ Len(c.l) > 1 => Cardinality(Digits3(c.l, c.R)) \in {1, 2}
\* dates follow each other as in the calendar
Calendar == c.k = "time" => Date(c.l[1] + 1) = NextDay(Date(c.l[1]))
Out == CASE c.k = "int" -> [k |-> c.k, l |-> c.l, R |-> c.R, suf |-> c.suf, out |-> Compact(FALSE, c.l, c.R, c.suf),
                            commas |-> IF c.R = 1000 THEN Commas(FALSE, c.l) ELSE ""]
         [] c.k = "dur" -> [k |-> c.k, l |-> c.l, out |-> {Dur(c.l[1], c.l[2], c.l[3], c.l[4], c.l[5])}]
         [] c.k = "time" -> [k |-> c.k, l |-> c.l, out |-> {Time(c.l[1], c.l[2], c.l[3])}]
Emit == c.k \in {"int", "dur", "time"} => PrintT("C" \o ToJson(Out))
=============================================================================
