------------------------------ MODULE Sessions ------------------------------
(* Requests, groups ("regions") and their update functions (metric.go:       *)
(* session, region).                                                         *)
(*                                                                           *)
(* A request in process is given the data of each group it asks for, either  *)
(* by an update that runs on its behalf or, if other requests in process are *)
(* reading the group, the data they are reading (Join). From then on it      *)
(* reads the group until it releases it.                                     *)
(*                                                                           *)
(* Off names properties whose guards are switched off. It is empty except    *)
(* when a recorded history that was rejected is attributed to properties.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Off
On(p) == p \notin Off
OnAll(ps) == Off \cap ps = {}

VARIABLES
  want,      \* request in process -> groups it asks for
  got,       \* request in process -> (group -> data it was given)
  holders,   \* group -> requests reading it
  upd,       \* group -> running updates, records [f, u, r]
  data,      \* group -> data of the last completed update
  fn,        \* group -> registered update function
  pend       \* registrations called but not yet in effect, [c, g, f]

svars == <<want, got, holders, upd, data, fn, pend>>

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Active == DOMAIN want

SInit(groups, f0) ==
  /\ want = <<>> /\ got = <<>>
  /\ holders = [g \in groups |-> {}]
  /\ upd = [g \in groups |-> {}]
  /\ data = [g \in groups |-> [u |-> 0, t |-> 0]]
  /\ fn = f0
  /\ pend = {}

Start(r, w) ==
  /\ r \notin Active
  /\ want' = With(want, r, w) /\ got' = With(got, r, <<>>)
  /\ UNCHANGED <<holders, upd, data, fn, pend>>

\* An update function of g starts, on behalf of r (0: of no request).
UpdStart(g, f, u, r) ==
  /\ IF r = 0 THEN ~On("C01")
     ELSE IF r \in Active THEN g \in want[r] /\ (On("C01") => g \notin DOMAIN got[r])
     ELSE FALSE
  /\ On("C02") => holders[g] \subseteq (IF On("C01") THEN {} ELSE {r})
  /\ On("C05") => f = fn[g]
  /\ On("C05") => upd[g] = {}
  /\ upd' = [upd EXCEPT ![g] = @ \cup {[f |-> f, u |-> u, r |-> r]}]
  /\ UNCHANGED <<want, got, holders, data, fn, pend>>

UpdEnd(g, u, t) ==
  \E x \in upd[g] :
    /\ x.u = u
    /\ upd' = [upd EXCEPT ![g] = @ \ {x}]
    /\ data' = [data EXCEPT ![g] = [u |-> u, t |-> t]]
    /\ IF x.r \in Active
       THEN /\ holders' = [holders EXCEPT ![g] = @ \cup {x.r}]
            /\ got' = [got EXCEPT ![x.r] = With(@, g, [u |-> u, t |-> t])]
       ELSE UNCHANGED <<holders, got>>
    /\ UNCHANGED <<want, fn, pend>>

\* r reads what other requests in process are reading.
Join(r, g) ==
  /\ r \in Active /\ g \in want[r] /\ g \notin DOMAIN got[r]
  /\ On("C02") => upd[g] = {}
  /\ OnAll({"C01", "C03"}) => holders[g] # {}
  /\ holders' = [holders EXCEPT ![g] = @ \cup {r}]
  /\ got' = [got EXCEPT ![r] = With(@, g, data[g])]
  /\ UNCHANGED <<want, upd, data, fn, pend>>

\* r reads a value of g.
Read(r, g) ==
  /\ r \in Active
  /\ On("C01") => g \in DOMAIN got[r]
  /\ On("C02") => (r \in holders[g] /\ upd[g] = {})
  /\ UNCHANGED svars

Release(r, g) ==
  /\ r \in holders[g]
  /\ holders' = [holders EXCEPT ![g] = @ \ {r}]
  /\ UNCHANGED <<want, got, upd, data, fn, pend>>

\* r ends; if it did not fail, it was given everything it asked for.
End(r, ok) ==
  /\ r \in Active
  /\ (On("C01") /\ ok) => DOMAIN got[r] = want[r]
  /\ \A g \in DOMAIN holders : r \notin holders[g]
  /\ want' = Without(want, r) /\ got' = Without(got, r)
  /\ UNCHANGED <<holders, upd, data, fn, pend>>

\* Registering an update function takes effect between call and return.
RegCall(c, g, f) ==
  /\ pend' = pend \cup {[c |-> c, g |-> g, f |-> f]}
  /\ UNCHANGED <<want, got, holders, upd, data, fn>>
RegEffect(x) ==
  /\ x \in pend /\ pend' = pend \ {x}
  /\ fn' = [fn EXCEPT ![x.g] = x.f]
  /\ UNCHANGED <<want, got, holders, upd, data>>
RegRet(c) == (\A x \in pend : x.c # c) /\ UNCHANGED svars

\* Nothing can happen unless a callback or an update function returns: every
\* request is inside a callback (blk) or waits for a running update, and so
\* does every registration.
Quiet(blk) ==
  /\ OnAll({"C02", "C03"}) =>
       \A r \in Active : r \in blk \/ \E g \in want[r] \ DOMAIN got[r] : upd[g] # {}
  /\ On("C05") => \A x \in pend : upd[x.g] # {}

(* ------------------------- what must be true --------------------------- *)
\* C02: while a request reads a group, the group's data do not change
ReadersConsistent == \A g \in DOMAIN holders : \A r \in holders[g] :
                        r \in Active /\ upd[g] = {} /\ got[r][g] = data[g]
\* C05: at most one update function of a group runs
OneUpdate == \A g \in DOMAIN upd : Cardinality(upd[g]) <= 1
\* C01: updates run for requests that ask for the group and have no data yet
UpdForRequest == \A g \in DOMAIN upd : \A x \in upd[g] :
                    x.r \in Active /\ g \in want[x.r] /\ g \notin DOMAIN got[x.r]
=============================================================================
