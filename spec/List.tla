-------------------------------- MODULE List ---------------------------------
(* A list metric and the slices its user passes to it. Elements are numbers  *)
(* standing for distinct values of the list's element type.                  *)
(*   cont   what the list reports                                            *)
(*   own    the slice the user keeps and modifies, always passed as mutable  *)
(*   made   the list exists                                                  *)
EXTENDS Naturals, Sequences, TLC, Json, SequencesExt

CONSTANTS Elems, MaxLen
VARIABLES cont, own, act
vars == <<cont, own, act>>

Slices == UNION {[1..n -> Elems] : n \in 0..MaxLen}

\* NewList with the user's own (mutable) or another (immutable) slice
LInit == \E s \in Slices : \/ own = s /\ cont = s /\ act = [op |-> "init", s |-> s, mut |-> TRUE]
                           \/ own = <<>> /\ cont = s /\ act = [op |-> "init", s |-> s, mut |-> FALSE]

\* the list gets the present contents of the user's slice
ChangeOwn == /\ cont' = own /\ UNCHANGED own
             /\ act' = [op |-> "ChangeOwn", ch |-> TRUE, res |-> "ok"]
\* ... or those of a slice that is given away
ChangeTo(s) == /\ cont' = s /\ UNCHANGED own
               /\ act' = [op |-> "ChangeTo", s |-> s, ch |-> TRUE, res |-> "ok"]
\* the user writes into the own slice
Write(i, e) == /\ i <= Len(own) /\ own' = [own EXCEPT ![i] = e] /\ UNCHANGED cont
               /\ act' = [op |-> "Write", i |-> i, e |-> e, ch |-> FALSE, res |-> "ok"]
\* ... or makes it longer or shorter in place
Grow(e) == /\ Len(own) < MaxLen /\ own' = Append(own, e) /\ UNCHANGED cont
           /\ act' = [op |-> "Grow", e |-> e, ch |-> FALSE, res |-> "ok"]
Shrink == /\ Len(own) > 0 /\ own' = SubSeq(own, 1, Len(own) - 1) /\ UNCHANGED cont
          /\ act' = [op |-> "Shrink", ch |-> FALSE, res |-> "ok"]
\* a slice of another type, or no slice
Refused == /\ UNCHANGED <<cont, own>>
           /\ act' = [op |-> "Refused", ch |-> FALSE, res |-> "panic"]

LNext == \/ ChangeOwn \/ Refused \/ Shrink
         \/ \E s \in Slices : ChangeTo(s)
         \/ \E e \in Elems : Grow(e) \/ \E i \in 1..MaxLen : Write(i, e)
LSpec == LInit /\ [][LNext]_vars

\* only a change changes what is reported
OnlyChanges == [][~act'.ch => cont' = cont]_vars
St == [cont |-> cont, own |-> own]
Emit == PrintT("E" \o ToJson([s |-> St, a |-> act', t |-> [cont |-> cont', own |-> own']]))
EmitInit == (act.op = "init") => PrintT("I" \o ToJson(St))
EmitState == PrintT("S" \o ToJson([st |-> St]))
View == <<cont, own>>
=============================================================================
