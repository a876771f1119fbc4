------------------------------- MODULE Health -------------------------------
(* go/healthserver: the health and readiness endpoints.                     *)
(* Every set and every query is one atomic step (the package's mutex).      *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Statuses    \* failure texts (abstract); includes "not ready"

VARIABLES health, ready, act
vars == <<health, ready>>

OK == ""              \* abstract "everything is fine"
Bad == {"", "OK"}     \* texts that may not be used as a failure status

\* What an endpoint answers in a given status.
Answer(st) == IF st = OK THEN [code |-> 200, text |-> "OK"]
                         ELSE [code |-> 503, text |-> st]

Init == health = OK /\ ready = "not ready" /\ act = [op |-> "init"]

SetHealthy == /\ health' = OK /\ UNCHANGED ready
              /\ act' = [op |-> "SetHealthy", arg |-> "", panics |-> FALSE]
SetNotHealthy(s) == /\ health' = (IF s \in Bad THEN health ELSE s) /\ UNCHANGED ready
                    /\ act' = [op |-> "SetNotHealthy", arg |-> s, panics |-> s \in Bad]
SetReady == /\ ready' = OK /\ UNCHANGED health
            /\ act' = [op |-> "SetReady", arg |-> "", panics |-> FALSE]
SetNotReady(s) == /\ ready' = (IF s \in Bad THEN ready ELSE s) /\ UNCHANGED health
                  /\ act' = [op |-> "SetNotReady", arg |-> s, panics |-> s \in Bad]

Next == \/ SetHealthy \/ SetReady
        \/ \E s \in Statuses \cup Bad : SetNotHealthy(s) \/ SetNotReady(s)

Spec == Init /\ [][Next]_<<health, ready, act>>

(* Design-level properties *)
TypeOK == health \in Statuses \cup {OK} /\ ready \in Statuses \cup {OK}
\* 200 exactly if last set to fine; a failure text is never OK
AnswersOK == \A st \in {health, ready} :
                 (Answer(st).code = 200) <=> (Answer(st).text = "OK")
\* the two endpoints never influence each other
Independent == [][~(health' # health /\ ready' # ready)]_<<health, ready, act>>
PanicNoEffect == [][act'.panics => UNCHANGED vars]_<<health, ready, act>>

St(h, r) == [health |-> Answer(h), ready |-> Answer(r)]
Emit == PrintT("E" \o ToJson([s |-> St(health, ready), a |-> act', t |-> St(health', ready')]))
EmitInit == (act.op = "init") => PrintT("I" \o ToJson(St(health, ready)))
View == vars
=============================================================================
