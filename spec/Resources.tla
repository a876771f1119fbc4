----------------------------- MODULE Resources -----------------------------
(* What a process keeps because of tricorder: it depends on what is registered,   *)
(* on the groups that exist and on the requests in progress, not on what           *)
(* happened before.                                                                *)
EXTENDS Naturals, FiniteSets, Sequences

Kinds == {"var", "cb", "list", "dist", "dir"}          \* what can be registered
Loose == {"func", "contents"}                          \* replaced: update functions of a group, contents of a list
Ifaces == {"mine", "rpc", "rpctcp", "json", "jsongz", "text", "html", "http"}
Scopes == {"list", "one", "missing"}
Endings == {"normal", "panic", "gone"}                 \* gone: the client can no longer be written to
Refusals == {"occupied", "below", "type", "unit"}
Removals == {"each", "parent", "handle"}
Lookups == {"find", "missing", "again"}
\* setting and asking for health, values added to a distribution (and moved and removed),
\* registering the flags once more, failed adds
Uses == {"health", "values", "moves", "flags", "failed"}

VARIABLES reg,      \* how many of each kind are registered
          groups    \* how many groups were created
vars == <<reg, groups>>

Init == reg = [k \in Kinds |-> 0] /\ groups = 0

Ends(i, e) == \/ e = "normal"
              \/ e = "panic" /\ i \notin {"rpc", "rpctcp", "http"}   \* there it ends the process or the connection
              \/ e = "gone" /\ i # "mine" /\ i # "rpc"

Register(k, n) == reg' = [reg EXCEPT ![k] = @ + n] /\ UNCHANGED groups
Remove(k, n) == reg[k] >= n /\ reg' = [reg EXCEPT ![k] = @ - n] /\ UNCHANGED groups
Create(n) == groups' = groups + n /\ UNCHANGED reg
\* all of these leave nothing behind: refused registrations, lookups, uses, requests,
\* replacing an update function or the contents of a list
Passing == UNCHANGED vars

(* The bounds. The constants allow an implementation to keep a few things (the last   *)
(* response, pooled buffers, workers of a group) but not one per thing that happened.  *)
Slack == 8
Goroutines == 2 * groups + Slack
Files == Slack
Registered == LET S[K \in SUBSET Kinds] == IF K = {} THEN 0 ELSE LET k == CHOOSE x \in K : TRUE IN reg[k] + S[K \ {k}]
              IN S[Kinds]
KiB == 384 + 6 * Registered + 12 * groups
Alive(k) == (IF k \in Kinds THEN reg[k] ELSE 0) + Slack
=============================================================================
