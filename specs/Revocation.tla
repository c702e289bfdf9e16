----------------------------- MODULE Revocation -----------------------------
(* The way of a revocation from the CA to a client: the CA states at second 41 of every period what was revoked since its last
   statement; the monitors query it at the beginning of the next period, gossip endorses it, the monitor publishes it at second
   40 and clients apply the published updates in order, at once or later.

   A minute has two slots in which numbers are revoked: before the statement is made ("open") and after it ("closed").  *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS CAs, Nums,
          MaxPer,     \* last period
          MaxRev,     \* numbers revoked at a time
          MaxTimes,   \* revocation events per behaviour
          MaxRestart  \* restarts of the client

VARIABLES rev,     \* rev[c]: numbers revoked at CA c
          said,    \* said[c]: numbers contained in c's statements so far
          next,    \* next[c]: the statement for the coming period
          pub,     \* pub[i]: what the i-th published update adds, per CA
          known,   \* known[c]: the revocations the client knows
          applied, \* updates the client applied
          per, slot, nrev, nres, hist
vars == <<rev, said, next, pub, known, applied, per, slot, nrev, nres, hist>>
View == <<rev, said, next, pub, known, applied, per, slot, nrev, nres, IF hist = <<>> \/ hist[Len(hist)].a.t # "restart" THEN 0 ELSE 1>>

Zero == [c \in CAs |-> {}]
Init == /\ rev = Zero /\ said = Zero /\ next = Zero /\ pub = <<>> /\ known = Zero /\ applied = 0
        /\ per = 0 /\ slot = "open" /\ nrev = 0 /\ nres = 0 /\ hist = <<>>

Do(a, x) == hist' = Append(hist, [a |-> a, x |-> x])
Flat(f) == { [c |-> c, d |-> f[c]] : c \in CAs }

(* numbers are revoked; some of them may have been revoked before *)
Events == { s \in SUBSET (CAs \X Nums) : s # {} /\ Cardinality(s) <= MaxRev }
JustRevoked == hist # <<>> /\ hist[Len(hist)].a.t = "revoke"
Revoke(s) ==
  /\ nrev < MaxTimes /\ nrev' = nrev + 1 /\ ~JustRevoked
  /\ rev' = [c \in CAs |-> rev[c] \cup { x[2] : x \in { y \in s : y[1] = c } }]
  /\ Do([t |-> "revoke", s |-> { [c |-> x[1], n |-> x[2]] : x \in s }], {})
  /\ UNCHANGED <<said, next, pub, known, applied, per, slot, nres>>

(* the current period's statements are published, the next ones are made *)
Close ==
  /\ slot = "open" /\ slot' = "closed"
  /\ pub' = IF per = 0 THEN pub ELSE Append(pub, next)
  /\ next' = [c \in CAs |-> rev[c] \ said[c]]
  /\ said' = rev
  /\ Do([t |-> "close", p |-> per], IF per = 0 THEN {} ELSE Flat(next))
  /\ UNCHANGED <<rev, known, applied, per, nrev, nres>>

(* the monitor queries the CAs; every statement fits what it knows, so that it is passed on and nobody is accused *)
Turn ==
  /\ slot = "closed" /\ per < MaxPer
  /\ per' = per + 1 /\ slot' = "open"
  /\ Do([t |-> "turn", p |-> per + 1], Flat(next))
  /\ UNCHANGED <<rev, said, next, pub, known, applied, nrev, nres>>

(* certificate number n of c is accepted *)
Verdicts(k, a) == { [c |-> c, n |-> n, ok |-> a > 0 /\ n \notin k[c]] : c \in CAs, n \in Nums }
Apply ==
  /\ applied < Len(pub)
  /\ applied' = applied + 1
  /\ known' = [c \in CAs |-> known[c] \cup pub[applied+1][c]]
  /\ Do([t |-> "apply", n |-> applied + 1], Verdicts(known', applied'))
  /\ UNCHANGED <<rev, said, next, pub, per, slot, nrev, nres>>

Restart ==
  /\ nres < MaxRestart /\ nres' = nres + 1 /\ applied > 0
  /\ Do([t |-> "restart"], Verdicts(known, applied))
  /\ UNCHANGED <<rev, said, next, pub, known, applied, per, slot, nrev>>

Next == (\E s \in Events : Revoke(s)) \/ Close \/ Turn \/ Apply \/ Restart
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Sum(k, c) == UNION { pub[i][c] : i \in 1..k }
(* what a client knows is what was revoked when the last applied update's statement was made: nothing is lost or invented *)
InForce == \A c \in CAs : known[c] = Sum(applied, c) /\ known[c] \subseteq rev[c]
(* every revocation is in exactly one statement *)
StatedOnce == \A c \in CAs : \A i, j \in 1..Len(pub) : i # j => pub[i][c] \cap pub[j][c] = {}
Reaches == \A c \in CAs : slot = "closed" => said[c] = Sum(Len(pub), c) \cup next[c]
(* a client that is up to date knows all that was revoked before the last but one period closed *)
UpToDate == [][\A c \in CAs : known[c] \subseteq known'[c]]_vars

Emit == PrintT(<<"@@", ToJson(hist')>>)
EmitEnd == IF per = MaxPer /\ slot = "closed" /\ applied = Len(pub) THEN PrintT(<<"@@", ToJson(hist)>>) ELSE TRUE
=============================================================================
