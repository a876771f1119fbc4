------------------------------- MODULE Process --------------------------------
(* What the process reports of itself without any registration.              *)
(* Numbers are pairs <<n \div 10^9, n % 10^9>> (TLC has 32 bits only).       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

\* path below /proc -> [unit, how it relates to the system's own figures]
\*  counter  never decreases: between the figure before and the one after
\*  gauge    the same as before and after, if these two agree
\*  near     as a gauge, but the runtime may change it at any time: within
\*           Slack of both, and within Small of them if these two agree
\*  fixed    as it is all the time
\*  start    between the times just before and after the start
Table == [
  p \in {"cpu/user", "cpu/sys"} |-> [u |-> "Seconds", how |-> "counter"]] @@ [
  p \in {"memory/max-resident-set-size", "memory/shared", "memory/unshared-data", "memory/unshared-stack"} |-> [u |-> "Bytes", how |-> "counter"]] @@ [
  p \in {"memory/soft-page-fault", "memory/hard-page-fault", "memory/swaps", "io/input", "io/output", "ipc/sent", "ipc/received",
         "signals/received", "scheduler/voluntary-switches", "scheduler/involuntary-switches"} |-> [u |-> "None", how |-> "counter"]] @@ [
  p \in {"memory/total"} |-> [u |-> "Bytes", how |-> "near"]] @@ [
  p \in {"go/num-goroutines", "io/num-open-file-descriptors"} |-> [u |-> "None", how |-> "gauge"]] @@ [
  p \in {"go/version", "name", "args"} |-> [u |-> "None", how |-> "fixed"]] @@ [
  p \in {"start-time"} |-> [u |-> "None", how |-> "start"]]
Paths == DOMAIN Table

Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Plus(a, b) == LET s == a[2] + b[2] IN <<a[1] + b[1] + s \div 1000000000, s % 1000000000>>
Slack == <<0, 64000000>>
Small == <<0, 262144>>

\* x: the value reported, a: the figure before, b: the one after the request
Right(p, x, a, b) ==
  CASE Table[p].how \in {"counter", "start"} -> Leq(a, x) /\ Leq(x, b)
    [] Table[p].how = "gauge" -> a = b => x = a
    [] Table[p].how = "near" -> IF a = b THEN Leq(a, Plus(x, Small)) /\ Leq(x, Plus(a, Small)) ELSE
                                \/ Leq(a, Plus(x, Slack)) /\ Leq(x, Plus(b, Slack))
                                \/ Leq(b, Plus(x, Slack)) /\ Leq(x, Plus(a, Slack))
    [] Table[p].how = "fixed" -> x = a
ASSUME Right("cpu/sys", <<1, 5>>, <<0, 999999999>>, <<1, 5>>) /\ ~Right("cpu/sys", <<1, 5>>, <<1, 6>>, <<1, 7>>)
ASSUME Right("memory/total", <<1, 5>>, <<0, 999999999>>, <<0, 990000000>>) /\ ~Right("memory/total", <<2, 5>>, <<0, 999999999>>, <<1, 7>>)
=============================================================================
