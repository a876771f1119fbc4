------------------------------- MODULE IdsMC --------------------------------
(* How the code comes to the ids and times it reports: owners take their ids *)
(* from one sequence when they are created, lists and distributions change   *)
(* at any time, and a response collects its metrics one by one, each owner's *)
(* time being the one that owner had when the request first came to it.      *)
EXTENDS Ids
CONSTANTS Owner, Paths, MaxT
VARIABLES next, real, clock, seen, resp
vars == <<id, next, real, clock, seen, resp>>
Own(p) == CHOOSE o \in Owner : o = p % Cardinality(Owner)

Init == /\ id = <<>> /\ next = 0 /\ real = <<>>
        /\ clock = [o \in Owner |-> 0] /\ seen = <<>> /\ resp = <<>>
Create(o) == /\ o \notin DOMAIN real
             /\ real' = [x \in DOMAIN real \cup {o} |-> IF x = o THEN next ELSE real[x]]
             /\ next' = next + 1 /\ UNCHANGED <<id, clock, seen, resp>>
Change(o) == /\ clock[o] < MaxT /\ clock' = [clock EXCEPT ![o] = @ + 1]
             /\ UNCHANGED <<id, next, real, seen, resp>>
Collect(p) == LET o == Own(p) IN
  /\ o \in DOMAIN real /\ Len(resp) < Cardinality(Paths)
  /\ seen' = [x \in DOMAIN seen \cup {o} |-> IF x \in DOMAIN seen THEN seen[x] ELSE clock[x]]
  /\ resp' = Append(resp, [o |-> o, i |-> real[o], t |-> seen'[o]])
  /\ UNCHANGED <<id, next, real, clock>>
End == /\ resp # <<>> /\ Respond(resp)
       /\ resp' = <<>> /\ seen' = <<>> /\ UNCHANGED <<next, real, clock>>
Next == (\E o \in Owner : Create(o) \/ Change(o)) \/ (\E p \in Paths : Collect(p)) \/ End
Spec == Init /\ [][Next]_vars
\* whatever was collected may be reported
AlwaysOK == RespondOK(resp)
=============================================================================
