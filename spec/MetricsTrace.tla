---------------------------- MODULE MetricsTrace ----------------------------
(* Validation of recorded histories of registering all sorts of metrics in   *)
(* groups, changing them (directly and from update functions) and reading    *)
(* them through all interfaces. Everything the specification does not        *)
(* explain is attributed to the properties it contradicts.                   *)
EXTENDS Metrics, IOUtils, Json

VARIABLES h, l, bad,
          obj,    \* object -> [w, t, v, alt]
          reg,    \* path -> [o, u, d, g]
          cnt,    \* group -> number of updates so far; 0 is the default group
          pend,   \* changes to be made by the next update: <<[g, o, v]>>
          gid,    \* key of a group or aggregate -> its id, once seen
          seen,   \* list or distribution -> [ts, full, short] since it changed
          said,   \* path -> what the other interfaces said of it since it changed
          refused \* paths of refused registrations
vars == <<h, l, bad, obj, reg, cnt, pend, gid, seen, said, refused>>

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Ev == Hist[h]
E == Ev[l]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Only(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Rng(s) == {s[i] : i \in DOMAIN s}
Under(q, p) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q

TInit == /\ h \in 1..Len(Hist) /\ l = 1 /\ bad = {}
         /\ obj = <<>> /\ reg = <<>> /\ cnt = [g \in 0..3 |-> 0] /\ pend = <<>>
         /\ gid = <<>> /\ seen = <<>> /\ said = <<>> /\ refused = {}

Step(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED h
Fault(S) == bad' = bad \cup S

\* what was said of objects is void once they change
Of(o) == {p \in DOMAIN reg : reg[p].o = o}

TNew == /\ Step("new") /\ obj' = Put(obj, E.o, [w |-> E.w, t |-> E.t, v |-> E.v, alt |-> FALSE])
        /\ UNCHANGED <<bad, reg, cnt, pend, gid, seen, said, refused>>
TSet == /\ Step("set") /\ obj' = [obj EXCEPT ![E.o].v = E.v, ![E.o].alt = E.alt]
        /\ seen' = Drop(seen, {E.o}) /\ said' = Drop(said, Of(E.o))
        /\ UNCHANGED <<bad, reg, cnt, pend, gid, refused>>
TPend == /\ Step("pend") /\ pend' = Append(pend, [g |-> E.g, o |-> E.o, v |-> E.v])
         /\ UNCHANGED <<bad, obj, reg, cnt, gid, seen, said, refused>>
TReg == /\ Step("reg")
        /\ LET free == E.p \notin DOMAIN reg IN
           /\ Fault(IF free THEN (IF E.r = "ok" THEN {} ELSE IF E.p \in refused THEN {"C14", "C06"} ELSE {"C06", "C12"})
                    ELSE (IF E.r = "inuse" THEN {} ELSE {"C06"}))
           /\ reg' = IF E.r = "ok" THEN Put(reg, E.p, [o |-> E.o, u |-> E.u, d |-> E.d, g |-> E.g]) ELSE reg
           /\ said' = IF E.r = "ok" THEN Drop(said, {E.p}) ELSE said
           /\ refused' = IF E.r = "ok" THEN refused \ {E.p} ELSE refused
        /\ UNCHANGED <<obj, cnt, pend, gid, seen>>
\* one refused for its type; at a path in use either error will do
TRefuse == /\ Step("refuse")
           /\ Fault(IF E.r \in Outcome(E.w, E.t) \cup (IF E.p \in DOMAIN reg THEN {"inuse"} ELSE {}) THEN {} ELSE {"C14"})
           /\ refused' = IF E.p \in DOMAIN reg THEN refused ELSE refused \cup {E.p}
           /\ UNCHANGED <<obj, reg, cnt, pend, gid, seen, said>>
TUnreg == /\ Step("unreg") /\ reg' = Drop(reg, {p \in DOMAIN reg : Under(E.p, p)})
          /\ said' = Drop(said, {p \in DOMAIN reg : Under(E.p, p)})
          /\ UNCHANGED <<bad, obj, cnt, pend, gid, seen, refused>>

(* ------------------------------- observations ---------------------------- *)
Scope == IF E.i = "html" THEN {p \in DOMAIN reg : p = E.q \/ (Len(p) = Len(E.q) + 1 /\ Under(E.q, p))}
         ELSE IF E.get THEN {p \in DOMAIN reg : p = E.q}
         ELSE {p \in DOMAIN reg : Under(E.q, p)}
Touched == {reg[p].g : p \in {q \in Scope : Single(obj[reg[q].o])}}
\* the updates this request causes
NewCnt == [g \in DOMAIN cnt |-> IF g \in Touched THEN cnt[g] + 1 ELSE cnt[g]]
RECURSIVE Apply(_, _)
Apply(f, s) == IF s = <<>> THEN f
               ELSE Apply(IF Head(s).g \in Touched THEN [f EXCEPT ![Head(s).o].v = Head(s).v, ![Head(s).o].alt = FALSE] ELSE f, Tail(s))
Pending == {pend[i].o : i \in {j \in DOMAIN pend : pend[j].g \in Touched}}

Key(p, f) == IF Single(f[reg[p].o]) THEN <<"g", reg[p].g>> ELSE <<"o", reg[p].o>>
\* of an entry, what other interfaces have to say, too
What(e) == [k |-> e.k, s |-> e.s, b |-> e.b, u |-> e.u, d |-> e.d, id |-> e.id]

EntryFaults(e, f) ==
  LET r == reg[e.p] o == f[r.o]
      meta == IF ~e.m THEN {}
              ELSE (IF e.k = Kind(o) /\ e.s = Sub(o) /\ e.b = Bits(o) /\ e.u = r.u /\ e.d = r.d /\ (E.i \in Exact => e.gt = GoType(o)) THEN {} ELSE {"C12"})
                   \cup (IF Key(e.p, f) \in DOMAIN gid THEN (IF gid[Key(e.p, f)] = e.id THEN {} ELSE {"C04"})
                         ELSE IF \E k \in DOMAIN gid : gid[k] = e.id THEN {"C04"} ELSE {})
                   \cup (IF e.p \in DOMAIN said THEN (IF said[e.p] = What(e) THEN {} ELSE {"C11"}) ELSE {})
                   \cup (IF Single(o) THEN (IF r.g = 0 THEN (IF e.now THEN {} ELSE {"C04", "C11"}) ELSE IF e.n = NewCnt[r.g] THEN {} ELSE {"C01", "C04", "C11"})
                         ELSE IF r.o \in DOMAIN seen THEN (IF seen[r.o].ts \in {"", e.ts} THEN {} ELSE {"C11"}) ELSE {})
      val == IF Fickle(o) THEN {}
             ELSE IF o.w = "dist" THEN
                  (IF r.o \in DOMAIN seen
                   THEN (IF (e.m => seen[r.o].full \in {"", e.v[1]}) /\ seen[r.o].short \in {"", e.x} THEN {} ELSE {"C11"}) ELSE {})
             ELSE IF e.v = Shown(E.i, o.v) THEN {} ELSE {"C12", "C11"} \cup (IF o.w = "list" THEN {"C20"} ELSE {})
  IN meta \cup val

Unfinite(f) == \E p \in Scope : LET o == f[reg[p].o] IN Infinite(o) \/ Fickle(o)
Faults(f) ==
  LET ps == {E.es[i].p : i \in DOMAIN E.es}
      must == {p \in Scope : Listed(f[reg[p].o])}
      may == {p \in Scope : MayList(E.i, f[reg[p].o])}
      gone == IF Unfinite(f) THEN {"C25"} ELSE {"C09", "C11", "C12"}
  IN IF E.err = "missing" THEN (IF must = {} THEN {} ELSE {"C11"} \cup gone)
     ELSE IF E.err # "" THEN (IF must = {} THEN {} ELSE gone \cup {"C22"})
     ELSE (IF must \subseteq ps THEN {} ELSE gone)
          \cup (IF Cardinality(ps) = Len(E.es) THEN {} ELSE {"C09", "C11"})
          \cup (IF ps \cap refused \subseteq DOMAIN reg THEN {} ELSE {"C14"})
          \cup (IF ps \subseteq Scope \cup refused THEN {} ELSE {"C08", "C09", "C11"})
          \cup (IF E.get \/ E.i = "html" \/ ps \cap Scope \subseteq may THEN {} ELSE {"C25"})
          \cup UNION {EntryFaults(E.es[i], f) : i \in {j \in DOMAIN E.es : E.es[j].p \in Scope}}

\* HTML: each metric directly there is shown with its description and unit,
\* each subdirectory with metrics is linked
HtmlFaults(f) ==
  IF E.err = "missing" THEN (IF Scope = {} THEN {} ELSE {"C11"}) ELSE IF E.err # "" THEN {"C11"}
  ELSE LET ps == {E.es[i].p : i \in DOMAIN E.es}
           must == {p \in Scope : Listed(f[reg[p].o])}
           subs == {SubSeq(p, 1, Len(E.q) + 1) : p \in {x \in DOMAIN reg : Under(E.q, x) /\ Len(x) > Len(E.q) + 1}} IN
       (IF must \subseteq ps /\ ps \subseteq Scope THEN {} ELSE {"C11"})
       \cup (IF subs \subseteq Rng(E.links) THEN {} ELSE {"C11"})
       \cup UNION {LET e == E.es[i] o == f[reg[e.p].o] IN
                   (IF e.hd /\ e.hu THEN {} ELSE {"C11", "C12"})
                   \cup (IF e.hv /\ ~Fickle(o) /\ e.v # o.v THEN {"C11", "C12"} ELSE {}) : i \in {j \in DOMAIN E.es : E.es[j].p \in Scope}}

TObs == /\ Step("obs")
        /\ LET f == Apply(obj, pend)
               es == IF E.i = "html" THEN <<>> ELSE SelectSeq(E.es, LAMBDA e : e.p \in Scope)
               agg == {i \in DOMAIN es : ~Single(f[reg[es[i].p].o])}
               met == {i \in DOMAIN es : es[i].m} IN
           /\ Fault(IF E.i = "html" THEN HtmlFaults(f) ELSE Faults(f))
           /\ obj' = f /\ cnt' = NewCnt
           /\ pend' = SelectSeq(pend, LAMBDA x : x.g \notin Touched)
           /\ gid' = [k \in DOMAIN gid \cup {Key(es[i].p, f) : i \in met} |->
                       IF k \in DOMAIN gid THEN gid[k] ELSE es[CHOOSE i \in met : Key(es[i].p, f) = k].id]
           /\ LET s0 == Drop(seen, Pending) IN
              seen' = [o \in DOMAIN s0 \cup {reg[es[i].p].o : i \in agg} |->
                        LET mine == {i \in agg : reg[es[i].p].o = o}
                            old == IF o \in DOMAIN s0 THEN s0[o] ELSE [ts |-> "", full |-> "", short |-> ""] IN
                        IF mine = {} THEN old
                        ELSE LET e == es[CHOOSE i \in mine : TRUE] IN
                             [ts |-> IF old.ts = "" /\ e.m THEN e.ts ELSE old.ts,
                              full |-> IF old.full = "" /\ e.m /\ f[o].w = "dist" THEN e.v[1] ELSE old.full,
                              short |-> IF old.short = "" THEN e.x ELSE old.short]]
           /\ said' = [p \in DOMAIN said \cup {es[i].p : i \in met} |->
                        IF p \in DOMAIN said THEN said[p] ELSE What(es[CHOOSE i \in met : es[i].p = p])]
        /\ UNCHANGED <<reg, refused>>

TNext == TNew \/ TSet \/ TPend \/ TReg \/ TRefuse \/ TUnreg \/ TObs
TSpec == TInit /\ [][TNext]_vars

Done == (l = Len(Ev) + 1 /\ bad = {}) => PrintT("OK" \o ToString(h))
Tell == (l > 1 /\ bad # {}) => \A p \in bad : PrintT("PR" \o ToString(h) \o "," \o ToString(l - 1) \o "," \o p)
At == (IOEnv.VERIF_AT = "1" /\ bad = {}) => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
=============================================================================
