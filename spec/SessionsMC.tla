----------------------------- MODULE SessionsMC -----------------------------
(* Requests as the code performs them: group by group in the order of the    *)
(* listing, releasing everything at the end, also if a callback panics.      *)
(* The environment starts requests, lets the running update function of a    *)
(* group and the callback a request is in return (or the callback panic),    *)
(* and registers update functions. With Eager the environment only acts when *)
(* nothing else can happen; the transitions of that graph are the schedules  *)
(* that are run on the real code.                                            *)
EXTENDS Sessions, Json, SequencesExt

CONSTANTS Groups, Reqs, MaxWant, Eager, Fns

VARIABLES pc,      \* request -> [w: groups in order, i: position, ph: "idle" | "need" | "in"]
          act
vars == <<want, got, holders, upd, data, fn, pend, pc>>

Idle == [w |-> <<>>, i |-> 0, ph |-> "idle"]
Wants == {w \in UNION {[1..k -> Groups] : k \in 1..MaxWant} : \A a, b \in DOMAIN w : a # b => w[a] # w[b]}
Cur(r) == pc[r].w[pc[r].i]

Init == /\ SInit(Groups, [g \in Groups |-> 0])
        /\ pc = [r \in Reqs |-> Idle]
        /\ act = [op |-> "init"]

CStart(r, w) == /\ pc[r].ph = "idle" /\ Start(r, ToSet(w))
                /\ pc' = [pc EXCEPT ![r] = [w |-> w, i |-> 1, ph |-> "need"]]
                /\ act' = [op |-> "Start", r |-> r, w |-> w]
\* data is 0 or 1 here, changing with every update
IUpdate(r) == /\ pc[r].ph = "need" /\ holders[Cur(r)] = {} /\ upd[Cur(r)] = {}
              /\ UpdStart(Cur(r), fn[Cur(r)], 1 - data[Cur(r)].u, r)
              /\ UNCHANGED pc /\ act' = [op |-> "int"]
COpenUpd(g) == /\ \E x \in upd[g] : /\ UpdEnd(g, x.u, 0)
                                    /\ pc' = [pc EXCEPT ![x.r].ph = "in"]
               /\ act' = [op |-> "OpenUpd", g |-> g]
IJoin(r) == /\ pc[r].ph = "need" /\ Join(r, Cur(r))
            /\ pc' = [pc EXCEPT ![r].ph = "in"]
            /\ act' = [op |-> "int"]
\* the callback of the group returns; the request goes on to its next group
COpenRead(r) == /\ pc[r].ph = "in"
                /\ Read(r, Cur(r))
                /\ pc' = [pc EXCEPT ![r] = IF @.i < Len(@.w) THEN [@ EXCEPT !.i = @ + 1, !.ph = "need"]
                                           ELSE [@ EXCEPT !.ph = "end"]]
                /\ act' = [op |-> "OpenRead", r |-> r]
CPanic(r) == /\ pc[r].ph = "in"
             /\ pc' = [pc EXCEPT ![r].ph = "fail"] /\ UNCHANGED svars
             /\ act' = [op |-> "Panic", r |-> r]
IRelease(r) == /\ pc[r].ph \in {"end", "fail"}
               /\ \E g \in Groups : Release(r, g)
               /\ UNCHANGED pc /\ act' = [op |-> "int"]
IEnd(r) == /\ pc[r].ph \in {"end", "fail"}
           /\ End(r, pc[r].ph = "end")
           /\ pc' = [pc EXCEPT ![r] = Idle]
           /\ act' = [op |-> "int"]
CReg(g) == /\ \A x \in pend : x.g # g
           /\ RegCall(g, g, (fn[g] + 1) % Fns) /\ UNCHANGED pc
           /\ act' = [op |-> "RegFn", g |-> g]
\* the code handles registrations between updates
IReg == /\ \E x \in pend : upd[x.g] = {} /\ RegEffect(x)
        /\ UNCHANGED pc /\ act' = [op |-> "int"]

Internal == (\E r \in Reqs : IUpdate(r) \/ IJoin(r) \/ IRelease(r) \/ IEnd(r)) \/ IReg
Command == \/ \E r \in Reqs : COpenRead(r) \/ CPanic(r) \/ \E w \in Wants : CStart(r, w)
           \/ \E g \in Groups : COpenUpd(g) \/ CReg(g)
Next == Internal \/ ((Eager => ~ENABLED Internal) /\ Command)
Spec == Init /\ [][Next]_<<vars, act>>
\* The channels of the event loop serve waiting requests in order, so no
\* request waits forever while others come and go: strong fairness.
Progress == /\ \A r \in Reqs : /\ SF_<<vars, act>>(IUpdate(r) \/ IJoin(r))
                               /\ WF_<<vars, act>>(IRelease(r)) /\ WF_<<vars, act>>(IEnd(r))
            /\ WF_<<vars, act>>(IReg)
            /\ \A r \in Reqs : WF_<<vars, act>>(COpenRead(r) \/ CPanic(r))
            /\ \A g \in Groups : WF_<<vars, act>>(COpenUpd(g))
LiveSpec == Spec /\ Progress

(* ------------------------- what must be true --------------------------- *)
\* what a request inside a callback of a group sees are the group's data of one update
InsideOK == \A r \in Reqs : pc[r].ph = "in" => r \in holders[Cur(r)]
\* C03: groups are free when no request is in process
FreeAtEnd == (\A r \in Reqs : pc[r].ph = "idle") => \A g \in Groups : holders[g] = {} /\ upd[g] = {}
\* the guard of Quiet is what the code guarantees when nothing internal can happen
QuietOK == (~ENABLED Internal) => Quiet({r \in Reqs : pc[r].ph = "in"})
\* C03: a request that asks for a free group runs an update
UpdatesAgain == [][\A g \in Groups : (holders[g] = {} /\ holders'[g] # {}) => data'[g] # data[g]]_<<vars, act>>
\* C03: every request comes to an end
Ends == \A r \in Reqs : (pc[r].ph # "idle") ~> (pc[r].ph = "idle")

St(p, h, u, f, q) == [pc |-> [r \in Reqs |-> <<p[r].ph, p[r].w, p[r].i>>], h |-> [g \in Groups |-> SetToSeq(h[g])],
             u |-> [g \in Groups |-> SetToSeq({x.r : x \in u[g]})], f |-> f, q |-> SetToSeq({x.g : x \in q})]
Emit == PrintT("E" \o ToJson([s |-> St(pc, holders, upd, fn, pend), a |-> act', t |-> St(pc', holders', upd', fn', pend')]))
EmitInit == (act.op = "init") => PrintT("I" \o ToJson(St(pc, holders, upd, fn, pend)))
View == <<pc, holders, [g \in Groups |-> {x.r : x \in upd[g]}], fn, {x.g : x \in pend}>>
=============================================================================
