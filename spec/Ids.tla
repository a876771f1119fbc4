-------------------------------- MODULE Ids ---------------------------------
(* Group ids as responses show them. The owner of a metric's id is its group *)
(* or, for distributions and lists, the distribution or list itself. Which   *)
(* id an owner has is not said anywhere; it becomes known with the first     *)
(* response that shows it, and stays.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLE id    \* owner -> its id, for those already known

Known == DOMAIN id
\* a response: sequence of [o: owner, i: id, t: timestamp]
RespondOK(resp) ==
  \A j \in 1..Len(resp) : LET x == resp[j] IN
    /\ x.o \in Known => id[x.o] = x.i
    /\ \A o \in Known : id[o] = x.i => o = x.o
    /\ \A k \in 1..(j - 1) : /\ (resp[k].o = x.o) <=> (resp[k].i = x.i)
                             /\ resp[k].i = x.i => resp[k].t = x.t
Owners(resp) == {resp[j].o : j \in 1..Len(resp)}
Respond(resp) ==
  /\ RespondOK(resp) = TRUE   \* a value, lest TLC unfolds it as an action
  /\ id' = [o \in Known \cup Owners(resp) |->
              IF o \in Known THEN id[o]
              ELSE LET j == CHOOSE k \in 1..Len(resp) : resp[k].o = o IN resp[j].i]

Unique == \A a, b \in Known : a # b => id[a] # id[b]
Stable == [][\A o \in Known : o \in DOMAIN id' /\ id'[o] = id[o]]_id
=============================================================================
