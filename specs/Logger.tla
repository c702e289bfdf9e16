------------------------------ MODULE Logger ------------------------------
(* A logger over consecutive periods.  In period per it collects precertificates; at second 40 (the round) it closes what it
   has collected, signs a statement about it for period per+1, sends the statement to all CAs and a proof of inclusion for
   every precertificate to the CA that issued it, and serves the statement to whoever asks in period per+1.             *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Subs,      \* valid precertificates: [id, ca, ...]
          Bads,      \* names of requests that are no valid precertificate of a listed CA
          AllCAs, Down,  \* the CAs; the sets of CAs that may be unreachable during a round
          MaxSub, MaxBad, MaxPer, MaxAsk

VARIABLES pool,      \* accepted, not yet in a statement
          again,     \* some precertificate was submitted more than once in this round
          took,      \* [id, p]: accepted, due for the statement of period p
          stmt,      \* period -> set of precertificates
          per, late, nsub, nbad, nask, hist
vars == <<pool, again, took, stmt, per, late, nsub, nbad, nask, hist>>
(* the last request is part of the view if it was a bad one: what comes after it is explored as well *)
Last == IF hist # <<>> /\ hist[Len(hist)].a.t = "bad" THEN hist[Len(hist)].a ELSE [t |-> "none"]
View == <<pool, again, stmt, per, late, nsub, nbad, nask, Last>>

Due == IF late THEN per + 2 ELSE per + 1

Init == /\ pool = {} /\ again = FALSE /\ took = {} /\ stmt = <<>> /\ per = 0 /\ late = FALSE
        /\ nsub = 0 /\ nbad = 0 /\ nask = 0 /\ hist = <<>>

Submit(c) ==
  /\ nsub < MaxSub /\ nsub' = nsub + 1
  /\ pool' = pool \cup {c} /\ again' = (again \/ c \in pool)
  /\ took' = took \cup {[id |-> c.id, p |-> Due]}
  /\ hist' = Append(hist, [a |-> [t |-> "submit", c |-> c], x |-> [ok |-> TRUE]])
  /\ UNCHANGED <<stmt, per, late, nbad, nask>>

Bad(b) ==
  /\ nbad < MaxBad /\ nbad' = nbad + 1
  /\ hist' = Append(hist, [a |-> [t |-> "bad", b |-> b], x |-> [ok |-> FALSE]])
  /\ UNCHANGED <<pool, again, took, stmt, per, late, nsub, nask>>

Round(down) ==
  /\ ~late /\ late' = TRUE
  /\ stmt' = Append(stmt, pool)
  /\ pool' = {} /\ again' = FALSE
  /\ hist' = Append(hist, [a |-> [t |-> "round", down |-> down, p |-> per + 1],
                           x |-> [up |-> AllCAs \ down, certs |-> { c.id : c \in pool }, exact |-> ~again,
                                  poi |-> { [to |-> c.ca, id |-> c.id] : c \in { y \in pool : y.ca \notin down } }]])
  /\ UNCHANGED <<took, per, nsub, nbad, nask>>

Turn == /\ late /\ per < MaxPer /\ per' = per + 1 /\ late' = FALSE
        /\ hist' = Append(hist, [a |-> [t |-> "turn"], x |-> [ok |-> TRUE]])
        /\ UNCHANGED <<pool, again, took, stmt, nsub, nbad, nask>>

(* what is served in period per is the statement made in the round before *)
Ask == /\ nask < MaxAsk /\ nask' = nask + 1
       /\ hist # <<>> /\ hist[Len(hist)].a.t # "ask"
       /\ hist' = Append(hist, [a |-> [t |-> "ask"], x |-> [have |-> per >= 1, p |-> per]])
       /\ UNCHANGED <<pool, again, took, stmt, per, late, nsub, nbad>>

Next == (\E c \in Subs : Submit(c)) \/ (\E b \in Bads : Bad(b)) \/ (\E d \in Down : Round(d)) \/ Turn \/ Ask

-----------------------------------------------------------------------------
(* every accepted precertificate is in the tree it is due for, and only accepted ones are in a tree, one tree per acceptance *)
Logged == \A x \in took : x.p <= Len(stmt) => \E c \in stmt[x.p] : c.id = x.id
NothingElse == \A p \in 1..Len(stmt) : \A c \in stmt[p] : [id |-> c.id, p |-> p] \in took
OneTree == \A p, q \in 1..Len(stmt) : p # q => \A c \in stmt[p] \cap stmt[q] : [id |-> c.id, p |-> p] \in took /\ [id |-> c.id, p |-> q] \in took
(* a statement for every period, made before the period begins *)
Ready == Len(stmt) = IF late THEN per + 1 ELSE per
(* only listed CAs' certificates are logged *)
Listed == \A p \in 1..Len(stmt) : \A c \in stmt[p] : c.ca \in AllCAs

Emit == PrintT(<<"@@", ToJson(hist')>>)
EmitEnd == IF per = MaxPer /\ late THEN PrintT(<<"@@", ToJson(hist)>>) ELSE TRUE
=============================================================================
