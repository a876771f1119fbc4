-------------------------------- MODULE Values --------------------------------
(* The table of everything that can or cannot be a metric, with what is to   *)
(* be reported of it; the harness runs it with many values.                  *)
EXTENDS Metrics, Json
VARIABLE c
VInit == \/ \E w \in {"var", "func", "vfunc", "list"} : \E t \in Singles : Ok(w, t) /\ c = [w |-> w, t |-> t]
         \/ c \in Refused
         \/ c \in BadResults
VSpec == VInit /\ [][UNCHANGED c]_c
Good == Outcome(c.w, c.t) = {"ok"}
\* nothing both refused and accepted; sizes and Go types go with the kinds
Sane == /\ Good <=> Ok(c.w, c.t)
        /\ Good => /\ (Bits(c) > 0) <=> ((IF c.w = "list" THEN Sub(c) ELSE Kind(c)) \in Plain \ {"bool", "string"})
                   /\ (Kind(c) = "list") <=> (Sub(c) # "")
                   /\ GoType(c) # ""
Emit == PrintT("C" \o ToJson([w |-> c.w, t |-> c.t, res |-> Outcome(c.w, c.t)] @@
  IF Good THEN [kind |-> Kind(c), sub |-> Sub(c), bits |-> Bits(c), gotype |-> GoType(c)] ELSE [kind |-> ""]))
=============================================================================
