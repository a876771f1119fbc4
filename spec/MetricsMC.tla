------------------------------ MODULE MetricsMC ------------------------------
(* Finite and non-finite values of a few metrics in two directories that     *)
(* come and go: what every listing has to contain and may contain.           *)
EXTENDS Metrics, Json
CONSTANTS MaxReg         \* metrics registered at a time

\* slots: directory, way and type
Slots == 1..6
Slot == << [d |-> "x", w |-> "var", t |-> "float64"], [d |-> "x", w |-> "func", t |-> "float32"], [d |-> "x", w |-> "var", t |-> "int64"],
           [d |-> "y", w |-> "list", t |-> "float64"], [d |-> "y", w |-> "dist", t |-> ""], [d |-> "y", w |-> "func", t |-> "user float64"] >>
Fin == "f1"
Classes(s) == CASE Slot[s].t = "int64" -> {"fin"}
                [] Slot[s].w = "dist" -> {"fin", "nan"}
                [] Slot[s].w = "func" -> {"fin", "nan", "pinf", "ninf", "finnan", "nanfin"}
                [] OTHER -> {"fin", "nan", "pinf", "ninf"}
Val(c) == CASE c = "nan" -> "fNaN" [] c = "pinf" -> "f+Inf" [] c = "ninf" -> "f-Inf" [] OTHER -> Fin
Obj(s, c) == [w |-> Slot[s].w, t |-> Slot[s].t, v |-> <<Val(c)>>, alt |-> c \in {"finnan", "nanfin"}]

VARIABLES st, act    \* st: slot -> "" or class
vars == <<st, act>>
Init == st = [s \in Slots |-> ""] /\ act = [op |-> "init"]
Present(x) == {s \in Slots : x[s] # ""}
Reg(s, c) == /\ st[s] = "" /\ Cardinality(Present(st)) < MaxReg
             /\ st' = [st EXCEPT ![s] = c] /\ act' = [op |-> "reg", s |-> s, c |-> c]
Unreg(s) == st[s] # "" /\ st' = [st EXCEPT ![s] = ""] /\ act' = [op |-> "unreg", s |-> s, c |-> ""]
\* a distribution never forgets
Change(s, c) == /\ st[s] # "" /\ st[s] # c /\ ~(Slot[s].w = "dist" /\ st[s] = "nan")
                /\ st' = [st EXCEPT ![s] = c] /\ act' = [op |-> "set", s |-> s, c |-> c]
Next == \E s \in Slots : Unreg(s) \/ \E c \in Classes(s) : Reg(s, c) \/ Change(s, c)
Spec == Init /\ [][Next]_vars

Ifaces == {"read", "rpc-list", "json-list", "text"}
Must(x, d) == {s \in Present(x) : Slot[s].d \in d /\ Listed(Obj(s, x[s]))}
May(x, d, i) == {s \in Present(x) : Slot[s].d \in d /\ MayList(i, Obj(s, x[s]))}
\* what one metric is never takes another out of the listing
Independent == \A s \in Present(st) : \A i \in Ifaces :
                 LET without == [st EXCEPT ![s] = ""] IN
                 /\ Must(st, {"x", "y"}) \ {s} = Must(without, {"x", "y"})
                 /\ May(st, {"x", "y"}, i) \ {s} = May(without, {"x", "y"}, i)
Within == \A i \in Ifaces : Must(st, {"x", "y"}) \subseteq May(st, {"x", "y"}, i)
\* as soon as a single value is finite it is listed, and only then
Back == \A s \in Present(st) : Single(Obj(s, st[s])) /\ ~Fickle(Obj(s, st[s])) =>
          (s \in Must(st, {"x", "y"}) <=> Val(st[s]) \notin NonFinite) /\ (s \in May(st, {"x", "y"}, "read") <=> s \in Must(st, {"x", "y"}))
EmitT == PrintT("E" \o ToJson([s |-> st, a |-> act', t |-> st']))
EmitS == /\ (act.op = "init" => PrintT("I" \o ToJson(st)))
         /\ PrintT("S" \o ToJson([st |-> st, must |-> [d \in {"x", "y", ""} |-> Must(st, IF d = "" THEN {"x", "y"} ELSE {d})],
                                  may |-> [d \in {"x", "y", ""} |-> May(st, IF d = "" THEN {"x", "y"} ELSE {d}, "json-list")]]))
View == st
=============================================================================
