-------------------------------- MODULE HttpMC --------------------------------
(* All requests, for the harness to make.                                    *)
EXTENDS Http
VARIABLE c
HInit == \/ \E p \in Pages, t \in Targets, ae \in Headers : c = [p |-> p, t |-> t, ae |-> ae]
         \/ \E p \in {"probe", "css"}, ae \in Headers : c = [p |-> p, t |-> "", ae |-> ae]
HSpec == HInit /\ [][UNCHANGED c]_c
\* exactly one status class is right; JSON has one right encoding, others always the plain one
Sane == /\ Cardinality({s \in {200, 404, 500} : StatusOk(c.p, c.t, s)}) = 1
        /\ (c.p \in {"json", "one"}) => Cardinality({e \in {"", "gzip"} : EncodingOk(c.p, c.ae, e)}) = 1
        /\ (c.p \notin {"json", "one"}) => EncodingOk(c.p, c.ae, "")
Emit == PrintT("C" \o ToJson(c))
=============================================================================
