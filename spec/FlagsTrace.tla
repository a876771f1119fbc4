------------------------------ MODULE FlagsTrace ------------------------------
(* Validation of recorded histories of flags. Events                         *)
(*  def n t v d | set n v | unit n u | register | unreg ns | all es | one n e           *)
(* with entries [n, k, v, u, d, m] as read; m: with unit and description     *)
EXTENDS Flags, IOUtils
Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES h, l, def, un, reg
Ev == Hist[h].ev
Names == {Hist[h].names[i] : i \in 1..Len(Hist[h].names)}
FtInit == /\ h \in 1..Len(Hist) /\ l = 1
          /\ def = [n \in Names |-> None] /\ un = [n \in Names |-> ""] /\ reg = [n \in Names |-> ""]
Is(e) == e.n \in Names /\ reg[e.n] # "" /\
         LET s == Shown(def, reg, e.n) IN e.v = s.v /\ (e.m => (e.k = s.k /\ e.u = s.u /\ e.d = s.d))
Step(e) ==
  CASE e.op = "def" -> def' = [def EXCEPT ![e.n] = [t |-> e.t, v |-> e.v, d |-> e.d]] /\ UNCHANGED <<un, reg>>
    [] e.op = "set" -> def' = [def EXCEPT ![e.n].v = e.v] /\ UNCHANGED <<un, reg>>
    [] e.op = "unit" -> un' = [un EXCEPT ![e.n] = e.u] /\ UNCHANGED <<def, reg>>
    [] e.op = "register" -> reg' = Registering(def, un, reg) /\ UNCHANGED <<def, un>>
    [] e.op = "unreg" -> reg' = [n \in Names |-> IF \E i \in 1..Len(e.ns) : e.ns[i] = n THEN "" ELSE reg[n]] /\ UNCHANGED <<def, un>>
    [] e.op = "all" -> /\ UNCHANGED <<def, un, reg>> /\ e.err = ""
                       /\ Len(e.es) = Cardinality({n \in Names : reg[n] # ""})
                       /\ {e.es[i].n : i \in 1..Len(e.es)} = {n \in Names : reg[n] # ""}
                       /\ \A i \in 1..Len(e.es) : Is(e.es[i])
    [] e.op = "one" -> /\ UNCHANGED <<def, un, reg>>
                       /\ IF e.err = "" THEN e.e.n = e.n /\ Is(e.e) ELSE e.err = "missing" /\ reg[e.n] = ""
FtNext == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED h
FtSpec == FtInit /\ [][FtNext]_<<h, l, def, un, reg>>
Accept == (l = Len(Ev) + 1) => PrintT("OK" \o ToString(h))
Progress == (IOEnv.VERIF_AT = "1") => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
=============================================================================
