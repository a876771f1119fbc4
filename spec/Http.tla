--------------------------------- MODULE Http ---------------------------------
(* What the HTTP interface must answer, as far as form goes: status, labels, *)
(* encoding, security headers and shape of the body, for every page, every   *)
(* sort of target and every set of encodings the client accepts. What is     *)
(* reported is the business of Metrics and Registry.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Pages == {"html", "text", "json", "one"}
\* "nan": a single value that is not finite; "below": below a metric
Metrics == {"single", "list", "dist", "nan"}
Dirs == {"root", "dir", "empty"}
Missing == {"missing", "below"}
Targets == Metrics \cup Dirs \cup Missing
Exists(t) == t \in Metrics \cup Dirs

\* an Accept-Encoding header: codings with their weights in thousandths
AcceptsGzip(ae) == \E i \in 1..Len(ae) : ae[i].c = "gzip" /\ ae[i].q > 0
C(c, q) == [c |-> c, q |-> q]
Headers == {<<>>, <<C("gzip", 1000)>>, <<C("identity", 1000)>>, <<C("deflate", 1000)>>,
            <<C("gzip", 1000), C("deflate", 1000)>>, <<C("deflate", 1000), C("gzip", 1000), C("br", 1000)>>,
            <<C("br", 1000), C("gzip", 500)>>, <<C("gzip", 1)>>, <<C("gzip", 0)>>,
            <<C("gzip", 0), C("identity", 1000)>>, <<C("identity", 0), C("gzip", 1000)>>}

\* an answer to be taken as what was asked for, as opposed to an error
Success(p, t) == CASE p = "one" -> t \in Metrics \ {"nan"}
                   [] OTHER -> TRUE
\* a single metric that is not there is not found; one that JSON cannot
\* express is an error of the server
StatusOk(p, t, st) ==
  CASE Success(p, t) -> st = 200
    [] p = "one" /\ t = "nan" -> st >= 500
    [] OTHER -> st = 404
TypeOk(p, t, ct) ==
  CASE p \in {"json", "one"} -> Success(p, t) => ct = "application/json"
    [] p = "text" -> ct = "text/plain"
    [] p = "html" -> Exists(t) => ct = "text/html"
    [] p = "probe" -> TRUE
    [] p = "css" -> ct = "text/css"
MediaOk(p, t, m) == (p \in {"json", "one"} /\ Success(p, t)) => m = "tricorder.v1"
SecureOk(p, s) == (p \in {"html", "text", "probe"}) => s
\* JSON is encoded exactly if the client accepts that, other pages may be
EncodingOk(p, ae, e) ==
  IF p \in {"json", "one"} THEN e = (IF AcceptsGzip(ae) THEN "gzip" ELSE "") ELSE e = "" \/ (e = "gzip" /\ AcceptsGzip(ae))
ShapeOk(p, t, s) ==
  CASE p = "json" -> s = "array"
    [] p = "one" -> Success(p, t) => s = "object"
    [] p = "probe" -> s = "true"
    [] OTHER -> TRUE

\* e: a request and what came of it. Beside the above
\*  dec: the body decodes completely with that encoding;  body, ref: what the
\*  body is and what it is without any encoding accepted (with refst);
\*  skel, twin: the tags of the page and those of the same page with harmless
\*  names, descriptions and values;  shown: they are all shown;
\*  n, want: the number of metrics in an array and the number there are
FitsStatus(e) == StatusOk(e.p, e.t, e.st)
FitsLabels(e) == TypeOk(e.p, e.t, e.ct) /\ MediaOk(e.p, e.t, e.media) /\ SecureOk(e.p, e.sec)
FitsEncoding(e) == EncodingOk(e.p, e.ae, e.enc) /\ e.dec /\ e.body = e.ref /\ e.st = e.refst
FitsShape(e) == ShapeOk(e.p, e.t, e.shape) /\ ((e.p = "json") => e.n = e.want)
FitsEscaping(e) == (e.p = "html") => (e.skel = e.twin /\ e.shown)
FitsHttp(e) == FitsStatus(e) /\ FitsLabels(e) /\ FitsEncoding(e) /\ FitsShape(e) /\ FitsEscaping(e)
=============================================================================
