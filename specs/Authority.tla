----------------------------- MODULE Authority -----------------------------
(* A CA over consecutive periods.  It issues N numbered precertificates in each period, sends each to all its loggers, and adds
   to a certificate the evidence (statement and proof of inclusion) of every logger that supplies it, until the certificates
   leave the pool at second 41.

   A logger's message about period per+1: a statement about the certificates cov (numbers of this period), or a proof that
   certificate k is in a tree over cov.  b = "ok" for a genuine one, otherwise a way in which it is not.               *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS N, Loggers,
          Sths,      \* [l, cov, b]
          Pois,      \* [l, k, cov, b]
          Bads,      \* malformed requests
          MaxMsg, MaxBad, MaxPer

VARIABLES got,       \* got[l]: the cov of the valid statements of logger l for the coming period
          must, may, \* must[k], may[k]: the loggers whose evidence certificate k has to have / may have
          issued,    \* numbers given out
          per, left, nmsg, nbad, hist
vars == <<got, must, may, issued, per, left, nmsg, nbad, hist>>
(* the last message is part of the view if it changed nothing: what comes after it is explored as well *)
Noop(a) == CASE a.t = "bad" -> TRUE [] a.t = "sth" -> a.s.b # "ok" [] a.t = "poi" -> a.q.b # "ok" [] OTHER -> FALSE
Last == IF Noop(hist[Len(hist)].a) THEN hist[Len(hist)].a ELSE [t |-> "none"]
View == <<got, must, may, per, left, nmsg, nbad, Last>>

Ks == 1..N
None == [k \in Ks |-> {}]
Init == /\ got = [l \in Loggers |-> {}] /\ must = None /\ may = None /\ per = 0 /\ left = FALSE /\ issued = 1..N
        /\ nmsg = 0 /\ nbad = 0
        /\ hist = <<[a |-> [t |-> "issue", p |-> 0, n |-> N], x |-> [per |-> Loggers]]>>

Ev(mu, ma) == { [k |-> k, must |-> mu[k], may |-> ma[k]] : k \in Ks }
Room == ~left /\ nmsg < MaxMsg /\ nmsg' = nmsg + 1

Sth(s) ==
  /\ Room
  /\ got' = IF s.b = "ok" THEN [got EXCEPT ![s.l] = @ \cup {s.cov}] ELSE got
  /\ hist' = Append(hist, [a |-> [t |-> "sth", s |-> s], x |-> Ev(must, may)])
  /\ UNCHANGED <<must, may, issued, per, left, nbad>>

(* a proof counts if it proves this certificate in the tree of the logger's statement; of a logger that made several
   statements for one period nothing is required; a proof that comes before the statement may be kept or dropped *)
Poi(q) ==
  /\ Room
  /\ LET fits  == q.b = "ok" /\ q.k \in q.cov
         sure  == fits /\ got[q.l] = {q.cov}
         maybe == fits
     IN /\ must' = IF sure THEN [must EXCEPT ![q.k] = @ \cup {q.l}] ELSE must
        /\ may' = IF maybe THEN [may EXCEPT ![q.k] = @ \cup {q.l}] ELSE may
  /\ hist' = Append(hist, [a |-> [t |-> "poi", q |-> q], x |-> Ev(must', may')])
  /\ UNCHANGED <<got, issued, per, left, nbad>>

Bad(b) ==
  /\ ~left /\ nbad < MaxBad /\ nbad' = nbad + 1
  /\ hist' = Append(hist, [a |-> [t |-> "bad", b |-> b], x |-> Ev(must, may)])
  /\ UNCHANGED <<got, must, may, issued, per, left, nmsg>>

(* the certificates are signed with their evidence and leave *)
Leave == /\ ~left /\ left' = TRUE
         /\ hist' = Append(hist, [a |-> [t |-> "leave"], x |-> Ev(must, may)])
         /\ UNCHANGED <<got, must, may, issued, per, nmsg, nbad>>

Turn == /\ left /\ per < MaxPer /\ per' = per + 1 /\ left' = FALSE
        /\ got' = [l \in Loggers |-> {}] /\ must' = None /\ may' = None
        /\ issued' = issued \cup (N * (per+1) + 1)..(N * (per+2))
        /\ hist' = Append(hist, [a |-> [t |-> "issue", p |-> per + 1, n |-> N], x |-> [per |-> Loggers]])
        /\ UNCHANGED <<nmsg, nbad>>

Next == (\E s \in Sths : Sth(s)) \/ (\E q \in Pois : Poi(q)) \/ (\E b \in Bads : Bad(b)) \/ Leave \/ Turn

-----------------------------------------------------------------------------
Fresh == Cardinality(issued) = N * (per + 1)
(* evidence a certificate has to have is backed by a statement and by a proof under it *)
Backed == \A k \in Ks : \A l \in must[k] : \E c \in got[l] : k \in c
Within == \A k \in Ks : must[k] \subseteq may[k]

Emit == PrintT(<<"@@", ToJson(hist')>>)
EmitEnd == IF per = MaxPer /\ left THEN PrintT(<<"@@", ToJson(hist)>>) ELSE TRUE
=============================================================================
