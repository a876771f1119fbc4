---------------------------- MODULE SessionsTrace ----------------------------
(* Validation of recorded runs of real requests against Sessions.            *)
(*   req   r, w          request r, asking for groups w, is about to start   *)
(*   us    g, f, u       update function f of g was entered, run number u    *)
(*   ue    g, u, t       it returns time t after setting the group's data u  *)
(*   rd    r, g          a callback of g is called for r (0: not known)      *)
(*   done  r, ok, resp   r returned; ok: nothing was made to fail; resp: what*)
(*                       it reported: source s of the metric, its group g (0:*)
(*                       none), data u (modulo m, if m > 0), time t (-1: not *)
(*                       reported), id i                                     *)
(*   rc/rr c, g, f       call and return of registering update function f    *)
(*   q     blk           the process is at rest, requests blk in callbacks   *)
(* Joins, releases and the effects of registrations are not in the record.   *)
(* They are taken only right before the recorded event that needs them.      *)
EXTENDS Sessions, Integers, Json, IOUtils, SequencesExt

VARIABLES h, l
tvars == <<want, got, holders, upd, data, fn, pend, h, l>>

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
OffSet == {IOEnv.VERIF_OFF}
Ev == Hist[h].ev
E == Ev[l]
Gid == Hist[h].gid

TInit == /\ h \in 1..Len(Hist) /\ l = 1
         /\ SInit(1..Len(Hist[h].fn), Hist[h].fn)

More == l <= Len(Ev)
Is(k) == More /\ E.k = k /\ l' = l + 1 /\ UNCHANGED h
Silent == More /\ UNCHANGED <<h, l>>

RespOK(r) ==
  LET R == ToSet(E.resp) IN
  \A x \in R :
    /\ (x.g > 0 /\ OnAll({"C01", "C02", "C03"})) =>
          (IF x.g \in DOMAIN got[r] THEN x.u = (IF x.m = 0 THEN got[r][x.g].u ELSE got[r][x.g].u % x.m) ELSE FALSE)
    /\ (x.g > 0 /\ x.t >= 0 /\ On("C04")) =>
          (IF x.g \in DOMAIN got[r] THEN x.t = got[r][x.g].t ELSE TRUE)
    /\ (x.i >= 0 /\ On("C04")) => x.i = Gid[x.s]
    /\ On("C04") => \A y \in R : (x.i >= 0 /\ y.i = x.i) => y.t = x.t

TReq == Is("req") /\ Start(E.r, ToSet(E.w))
\* What r will report of g tells which data it is given; this only cuts off
\* explanations that fail later.
Fin(r, g) == IF OnAll({"C01", "C02", "C03"}) THEN Hist[h].fin[r - Hist[h].r0][g] ELSE 0
TUpdStart == Is("us") /\ \E r \in Active \cup {0} :
                /\ r # 0 => Fin(r, E.g) \in {0, E.u}
                /\ UpdStart(E.g, E.f, E.u, r)
TUpdEnd == Is("ue") /\ UpdEnd(E.g, E.u, E.t)
TRead == Is("rd") /\ IF E.r = 0 THEN \E r \in Active : Read(r, E.g) ELSE Read(E.r, E.g)
TDone == Is("done") /\ (E.ok => RespOK(E.r)) = TRUE /\ End(E.r, E.ok)
TRegCall == Is("rc") /\ RegCall(E.c, E.g, E.f)
TRegRet == Is("rr") /\ RegRet(E.c)
TQuiet == Is("q") /\ Quiet(ToSet(E.blk)) /\ UNCHANGED svars

\* Joins and releases of different groups commute: taking them in order of the
\* groups is enough.
First(S) == {g \in S : \A x \in S : g <= x}
Lacks(r, g) == g \in want[r] /\ g \notin DOMAIN got[r]
May(r, g) == Lacks(r, g) /\ Fin(r, g) \in {0, data[g].u}
Must(r, g) == Lacks(r, g) /\ Fin(r, g) # 0 /\ Fin(r, g) = data[g].u
\* groups only r reads, which others have to join now
LastChance(r) == {g \in DOMAIN holders : holders[g] = {r} /\ \E x \in Active : Must(x, g)}

SJoin == /\ Silent
         /\ CASE E.k = "rd" -> IF E.r = 0 THEN \E r \in Active : May(r, E.g) /\ Join(r, E.g) ELSE Join(E.r, E.g)
              [] E.k = "us" -> \E r \in Active : May(r, E.g) /\ Join(r, E.g)
              [] E.k = "done" -> \/ \E g \in First(want[E.r] \ DOMAIN got[E.r]) : Join(E.r, g)
                                 \/ IF LastChance(E.r) # {}
                                    THEN \E g \in First(LastChance(E.r)) : \E r \in Active : Must(r, g) /\ Join(r, g)
                                    ELSE \E g \in DOMAIN holders : \E r \in Active :
                                           holders[g] = {E.r} /\ May(r, g) /\ Join(r, g)
              [] OTHER -> FALSE
SRelease == /\ Silent
            /\ CASE E.k = "us" -> \E r \in holders[E.g] : Release(r, E.g)
                 [] E.k = "done" -> /\ LastChance(E.r) = {}
                                    /\ \E g \in First({g \in DOMAIN holders : E.r \in holders[g]}) : Release(E.r, g)
                 [] OTHER -> FALSE
SReg == /\ Silent
        /\ CASE E.k = "us" -> \E x \in pend : x.g = E.g /\ RegEffect(x)
             [] E.k = "rr" -> \E x \in pend : x.g = E.g /\ RegEffect(x)
             [] OTHER -> FALSE

TNext == TReq \/ TUpdStart \/ TUpdEnd \/ TRead \/ TDone \/ TRegCall \/ TRegRet \/ TQuiet
         \/ SJoin \/ SRelease \/ SReg
TSpec == TInit /\ [][TNext]_tvars

\* different groups, distributions and lists have different ids
IdsDiffer == On("C04") => \A a, b \in 1..Len(Gid) : a # b => Gid[a] # Gid[b]
Accept == (l = Len(Ev) + 1 /\ IdsDiffer) => PrintT("OK" \o ToString(h))
Progress == (IOEnv.VERIF_AT = "1") => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
=============================================================================
