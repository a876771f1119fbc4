---------------------------- MODULE ResourcesMC ----------------------------
(* The graph of all bulk steps for the harness to make.                 *)
EXTENDS Resources, TLC, Json
CONSTANTS MaxGroups
VARIABLES act
mvars == <<reg, groups, act>>

MInit == Init /\ act = [op |-> "init"]
A(o, k, w) == act' = [op |-> o, k |-> k, w |-> w, s |-> "", e |-> ""]
MNext ==
  \/ \E k \in Kinds : reg[k] = 0 /\ Register(k, 1) /\ A("reg", k, "")
  \/ \E k \in Kinds, w \in Removals : Remove(k, 1) /\ A("unreg", k, w)
  \/ \E k \in Kinds, w \in Refusals : (w = "unit" => k = "dist") /\ Passing /\ A("refuse", k, w)
  \/ \E w \in Lookups : Passing /\ A("look", "", w)
  \/ \E w \in Uses : Passing /\ A("use", "", w)
  \/ \E k \in Loose : Passing /\ A("replace", k, "")
  \/ groups < MaxGroups /\ Create(1) /\ A("group", "", "")
  \/ \E i \in Ifaces, s \in Scopes, e \in Endings :
        Ends(i, e) /\ (s = "missing" => e # "panic") /\ Passing
        /\ act' = [op |-> "req", k |-> "", w |-> i, s |-> s, e |-> e]
MSpec == MInit /\ [][MNext]_mvars
TypeOK == reg \in [Kinds -> 0..1] /\ groups \in 0..MaxGroups
\* what is kept does not depend on the past
NoHistory == [][act'.op \in {"refuse", "look", "use", "replace", "req"} => UNCHANGED vars]_mvars
St(r, g) == [reg |-> r, groups |-> g]
Emit == PrintT("E" \o ToJson([s |-> St(reg, groups), a |-> act', t |-> St(reg', groups')]))
EmitInit == (act.op = "init") => PrintT("I" \o ToJson(St(reg, groups)))
View == vars
=============================================================================
