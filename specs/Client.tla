------------------------------ MODULE Client ------------------------------
(* A client: it takes the updates of a monitor and judges certificates by what it learned from them.

   An update is [rev: sequence, sth, acc, con: sets] of objects
     [t |-> "sth", e, i, v, b] / [t |-> "rev", e, i, v, b] / [t |-> "acc", e, i, b] / [t |-> "con", e, i, b]
   of entity e and period number i; b = "ok" for a genuine threshold object or conflict proof of the list it is in, anything
   else names a way in which it is not.  Contents: v is a Merkle tree or the content of a revocation statement.

   After a rejected update it is left open which of the genuine objects in it were taken over: poss is the set of states the
   client may be in, and a verdict is only prescribed where all of them agree.                                     *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Updates,    \* the updates that may be given to the client
          Certs,      \* the certificates it is asked about after every step
          MaxUp, MaxSave, MaxStart

VARIABLES poss, saved, nup, nsave, nstart, hist
vars == <<poss, saved, nup, nsave, nstart, hist>>
(* the last update is part of the view if it was rejected: what comes after it is explored as well *)
Last == IF hist # <<>> /\ hist[Len(hist)].a.t = "update" /\ hist[Len(hist)].x.ret # "y" THEN hist[Len(hist)].a ELSE [t |-> "none"]
View == <<poss, saved, nup, nsave, nstart, Last>>

CAs == {"C1","C2"}

(* who is in the tree; trees 1 and 5 are the same tree in statements with different time stamps *)
Tree(v) == CASE v \in {1,5} -> {1,2,3} [] v = 2 -> {1,2} [] v = 3 -> {2,3,4,5} [] v = 4 -> {1,4}
Root(v) == IF v = 5 THEN 1 ELSE v

(* content v of the revocation statement of period number i: the numbers it adds and the set its hash covers.
   1: honest CA revoking one number per period; 2: revokes nothing; 3: hash does not fit; 4: revokes three numbers;
   5: drops numbers that were revoked *)
Delta(i, v)  == CASE v = 1 -> {i} [] v = 2 -> {} [] v = 3 -> {i} [] v = 4 -> {i, 7, 9} [] v = 5 -> {i}
Covers(i, v) == CASE v = 1 -> 0..i [] v = 2 -> 0..(i-1) [] v = 3 -> 0..i \cup {8} [] v = 4 -> 0..i \cup {7, 9} [] v = 5 -> {i}

Empty == [sth |-> {}, crv |-> [c \in CAs |-> [k |-> FALSE, s |-> {}]], pom |-> {}]

Fits(s, o) == s.crv[o.e].s \cup Delta(o.i, o.v) = Covers(o.i, o.v)
TakeRev(s, o) == [s EXCEPT !.crv[o.e] = [k |-> TRUE, s |-> @.s \cup Delta(o.i, o.v)]]
TakeSth(s, o) == [s EXCEPT !.sth = @ \cup {[e |-> o.e, i |-> o.i, r |-> Root(o.v)]}]
TakePom(s, o) == [s EXCEPT !.pom = @ \cup {o.e}]

(* the revocation statements one after the other: the state after all of them, or that one is not acceptable *)
RECURSIVE Revs(_, _)
Revs(s, q) == IF q = <<>> THEN [ok |-> TRUE, s |-> s]
              ELSE IF q[1].b = "ok" /\ Fits(s, q[1]) THEN Revs(TakeRev(s, q[1]), Tail(q)) ELSE [ok |-> FALSE, s |-> s]
(* the states after any part of them *)
RECURSIVE SomeRevs(_, _)
SomeRevs(ss, q) == IF q = <<>> THEN ss
                   ELSE SomeRevs(ss \cup { TakeRev(s, q[1]) : s \in { x \in ss : q[1].b = "ok" /\ Fits(x, q[1]) } }, Tail(q))

Others(u) == u.sth \cup u.acc \cup u.con
TakeSet(s, os) == [s EXCEPT !.sth = @ \cup { [e |-> o.e, i |-> o.i, r |-> Root(o.v)] : o \in { x \in os : x.t = "sth" } },
                            !.pom = @ \cup { o.e : o \in { x \in os : x.t # "sth" } }]

Handle(s, u) ==
  LET r == Revs(s, u.rev)
      good == { o \in Others(u) : o.b = "ok" }
  IN IF r.ok /\ good = Others(u) THEN [ret |-> TRUE, ss |-> {TakeSet(r.s, good)}]
     ELSE [ret |-> FALSE, ss |-> { TakeSet(x, os) : x \in SomeRevs({s}, u.rev), os \in SUBSET good }]

(* certificates: [id, subj, iss, rid, ext, infos]; an info is a statement [e, i, v, sig, typ] and a proof [ps, pv, pt] of
   subject ps in tree pv *)
Vouches(s, c, n) == /\ n.e \notin s.pom /\ n.sig = "ok" /\ n.typ = "init"
                    /\ [e |-> n.e, i |-> n.i, r |-> Root(n.v)] \in s.sth
                    /\ n.ps = c.subj /\ Root(n.pv) = Root(n.v) /\ n.pt = "no" /\ c.subj \in Tree(n.v)
Accept(s, c) == /\ c.ext = "ok"
                /\ \E j \in 1..Len(c.infos) : Vouches(s, c, c.infos[j])
                /\ c.iss \in CAs /\ s.crv[c.iss].k /\ c.rid \notin s.crv[c.iss].s

Tri(vs) == IF vs = {TRUE} THEN "y" ELSE IF vs = {FALSE} THEN "n" ELSE "?"
Verdicts(ss) == { [id |-> c.id, x |-> Tri({ Accept(s, c) : s \in ss })] : c \in Certs }

Init == poss = {Empty} /\ saved = {Empty} /\ nup = 0 /\ nsave = 0 /\ nstart = 0 /\ hist = <<>>

Wire(o) == o @@ (IF o.t = "rev" THEN [d |-> Delta(o.i, o.v), n |-> Covers(o.i, o.v)] ELSE [d |-> {}])
WireU(u) == [rev |-> [j \in 1..Len(u.rev) |-> Wire(u.rev[j])], sth |-> { Wire(o) : o \in u.sth }, acc |-> { Wire(o) : o \in u.acc }, con |-> { Wire(o) : o \in u.con }]

(* verified: whether the client is told to verify; a client that is not is only given genuine updates *)
Genuine(u) == (\A j \in 1..Len(u.rev) : u.rev[j].b = "ok") /\ (\A o \in Others(u) : o.b = "ok")
Update(u, verified) ==
  /\ nup < MaxUp
  /\ ~verified => Genuine(u)
  /\ LET rs == { Handle(s, u) : s \in poss }
         ss == UNION { r.ss : r \in rs }
     IN /\ poss' = ss
        /\ hist' = Append(hist, [a |-> [t |-> "update", u |-> WireU(u), verify |-> verified],
                                 x |-> [ret |-> Tri({ r.ret : r \in rs }), ver |-> Verdicts(ss)]])
  /\ nup' = nup + 1 /\ UNCHANGED <<saved, nsave, nstart>>

Save == /\ nsave < MaxSave /\ hist # <<>> /\ hist[Len(hist)].a.t # "save"
        /\ saved' = poss /\ nsave' = nsave + 1
        /\ hist' = Append(hist, [a |-> [t |-> "save"], x |-> [ret |-> "?", ver |-> Verdicts(poss)]])
        /\ UNCHANGED <<poss, nup, nstart>>

(* the process ends, however, and is started again *)
Restart == /\ nstart < MaxStart /\ hist # <<>>
           /\ poss' = saved /\ nstart' = nstart + 1
           /\ hist' = Append(hist, [a |-> [t |-> "restart"], x |-> [ret |-> "?", ver |-> Verdicts(saved)]])
           /\ UNCHANGED <<saved, nup, nsave>>

Spec == Init /\ [][(\E u \in Updates, v \in BOOLEAN : Update(u, v)) \/ Save \/ Restart]_vars
Next == (\E u \in Updates, v \in BOOLEAN : Update(u, v)) \/ Save \/ Restart

-----------------------------------------------------------------------------
(* properties *)
Ups == { hist[j].a.u : j \in { x \in 1..Len(hist) : hist[x].a.t = "update" } }
(* only genuine objects get into the state *)
OnlyVerified == \A s \in poss :
  /\ \A x \in s.sth : \E u \in Ups : \E o \in u.sth : o.b = "ok" /\ o.e = x.e /\ o.i = x.i /\ Root(o.v) = x.r
  /\ \A e \in s.pom : \E u \in Ups : \E o \in u.acc \cup u.con : o.b = "ok" /\ o.e = e
  /\ \A c \in CAs : \A n \in s.crv[c].s : \E u \in Ups : \E j \in 1..Len(u.rev) : u.rev[j].b = "ok" /\ u.rev[j].e = c /\ n \in u.rev[j].d
(* what was learned in every possible state stays, as long as the client is not restarted without saving *)
More(s, s2) == s.sth \subseteq s2.sth /\ s.pom \subseteq s2.pom /\ \A c \in CAs : s.crv[c].s \subseteq s2.crv[c].s /\ (s.crv[c].k => s2.crv[c].k)
Kept == [][ nstart' # nstart \/ \A s2 \in poss' : \E s \in poss : More(s, s2) ]_vars
(* one root per logger and period, so that "the root the client learned" is well-defined *)
OneRoot == \A s \in poss : \A x, y \in s.sth : x.e = y.e /\ x.i = y.i => x = y
(* no certificate is accepted after its number was revoked or all its loggers were convicted *)
NoRevoked == \A s \in poss : \A c \in Certs : Accept(s, c) => /\ c.rid \notin s.crv[c.iss].s
                                                             /\ \E j \in 1..Len(c.infos) : c.infos[j].e \notin s.pom

Emit == PrintT(<<"@@", ToJson(hist')>>)
EmitEnd == IF nup = MaxUp THEN PrintT(<<"@@", ToJson(hist)>>) ELSE TRUE
=============================================================================
