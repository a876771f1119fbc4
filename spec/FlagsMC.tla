------------------------------- MODULE FlagsMC --------------------------------
EXTENDS Flags
CONSTANTS Names, Main, OtherTypes, Vals, Units
VARIABLES def, un, reg, act
vars == <<def, un, reg>>
TypesOf(n) == IF n = Main THEN Types ELSE OtherTypes
Init == def = [n \in Names |-> None] /\ un = [n \in Names |-> ""] /\ reg = [n \in Names |-> ""] /\ act = [op |-> "init"]
Define(n, t, v) == def[n] = None /\ def' = [def EXCEPT ![n] = [t |-> t, v |-> v, d |-> n]] /\ UNCHANGED <<un, reg>>
                /\ act' = [op |-> "define", n |-> n, t |-> t, v |-> v]
Set(n, v) == def[n] # None /\ def' = [def EXCEPT ![n].v = v] /\ UNCHANGED <<un, reg>> /\ act' = [op |-> "set", n |-> n, v |-> v]
SetUnit(n, u) == un' = [un EXCEPT ![n] = u] /\ UNCHANGED <<def, reg>> /\ act' = [op |-> "unit", n |-> n, u |-> u]
Register == reg' = Registering(def, un, reg) /\ UNCHANGED <<def, un>> /\ act' = [op |-> "register"]
Next == \/ \E n \in Names, v \in Vals : \/ \E t \in TypesOf(n) : Define(n, t, v)
                                        \/ Set(n, v)
        \/ \E n \in Names, u \in Units : SetUnit(n, u)
        \/ Register
Spec == Init /\ [][Next]_<<vars, act>>
TypeOK == \A n \in Names : /\ reg[n] # "" => def[n] # None
                           /\ reg[n] \in Units \cup {"", "None", "Seconds"}
\* a registered flag keeps its unit and kind whatever comes
Keeps == [][\A n \in Names : reg[n] # "" => (reg'[n] = reg[n] /\ def'[n].t = def[n].t)]_vars
\* registering twice is the same as once
Idempotent == Registering(def, un, Registering(def, un, reg)) = Registering(def, un, reg)
View == vars
Key == [d |-> def, u |-> un, r |-> reg]
Emit == PrintT("E" \o ToJson([s |-> Key, a |-> act', t |-> [d |-> def', u |-> un', r |-> reg']]))
EmitInit == (act.op = "init") => PrintT("I" \o ToJson(Key))
Info == PrintT("S" \o ToJson([st |-> Key, shown |-> [n \in {m \in Names : reg[m] # ""} |-> Shown(def, reg, n)]]))
=============================================================================
