------------------------------ MODULE Monitor ------------------------------
(* One monitor ("M1"): it queries the loggers and CAs it watches at the start of every period, passes on what they answer,
   accuses those that give no proper answer, collects what its gossiper sends and publishes it once per period to clients.

   A period has three phases: "wait" (queries sent, waiting time running), "rest" (waiting time over), "done" (update
   published).  Statements are [k, e, p, v]; the content v of a revocation statement stands for the pair of the numbers it
   adds and the set its hash covers, see Delta and Covers.                                                      *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Watched,   \* entities the monitor queries
          Answers,   \* function: watched entity -> set of answers it may give
          Inputs,    \* what may come from the gossiper
          Asks,      \* what clients may ask for
          MaxPer, MaxIn, MaxAsk,   \* last period, inputs from the gossiper, client requests per behaviour
          MaxBad,                  \* invalid inputs per behaviour
          MayRestart

VARIABLES per, phase, pend, temp, con, acc, fresh, crv, crvIn, pubs, nin, nask, nbad, hist, idle
vars == <<per, phase, pend, temp, con, acc, fresh, crv, crvIn, pubs, nin, nask, nbad, hist, idle>>
Known == <<per, phase, pend, temp, con, acc, fresh, crv, crvIn, pubs>>
(* behaviours that differ in a preceding input that changed nothing count as different, see GossipSolo *)
View == <<Known, nin, nask, nbad, idle>>

PN(i) == <<"p0","p1","p2","p3">>[i+1]
P == PN(per)
(* relative periods in the alphabets: "cur", "prev", "next" *)
Abs(q) == CASE q = "cur" -> per [] q = "prev" -> per - 1 [] q = "next" -> per + 1
AbsOK(q) == Abs(q) \in 0..3

(* content v of a revocation statement of period number i: v = 1 is what an honest CA states, which revokes one more
   number in every period *)
Delta(i, v)  == CASE v = 1 -> {i} [] v = 2 -> {i, 9} [] v = 3 -> {i}
Covers(i, v) == CASE v = 1 -> 0..i [] v = 2 -> 0..i \cup {9} [] v = 3 -> 0..i \cup {8}

(* does the content extend what the monitor knows of the CA's revocations? *)
Extends(e, i, v) == crv[e] \cup Delta(i, v) = Covers(i, v)

Init == /\ per = 0 /\ phase = "start" /\ pend = {} /\ temp = {} /\ con = {} /\ acc = {} /\ fresh = {}
        /\ crv = [e \in {"C1","C2"} |-> {}] /\ crvIn = {} /\ pubs = <<>> /\ nin = 0 /\ nask = 0 /\ nbad = 0 /\ hist = <<>> /\ idle = <<>>

Proof(e, p) == e \in con \/ [e |-> e, p |-> p] \in acc

Kind(e) == IF e \in {"L1","L2"} THEN "sth" ELSE "rev"

(* the only proper answer: the entity's own statement of the current period, before the waiting time is over ("slow" takes
   part of it, "hang" never ends); for a CA one whose hash fits *)
Proper(e, i, a) == a.a \in {"stmt","slow"} /\ (Kind(e) = "rev" => Extends(e, i, a.v))

Step(a, x) == Append(hist, [a |-> a, x |-> x])

(* what the replay needs to know of a revocation statement *)
Body(k, i, v) == IF k = "rev" THEN [d |-> Delta(i, v), n |-> Covers(i, v)] ELSE [d |-> {}, n |-> {}]
AnsOf(i, ans) == { [e |-> e, k |-> Kind(e)] @@ ans[e] @@ (IF "v" \in DOMAIN ans[e] THEN Body(Kind(e), i, ans[e].v) ELSE [d |-> {}]) : e \in Watched }

(* the queries at the beginning of period number i *)
Query(i, ans) ==
  LET p   == PN(i)
      ask == { e \in Watched : ~Proof(e, p) }
      ok  == { e \in ask : Proper(e, i, ans[e]) }
  IN /\ per' = i /\ phase' = "wait"
     /\ pend' = ask \ ok
     /\ hist' = Step([t |-> "query", p |-> p, ans |-> AnsOf(i, ans)],
                     [ask |-> ask, fwd |-> { [k |-> Kind(e), e |-> e, p |-> p, v |-> ans[e].v] : e \in ok }])

Pick == { f \in [Watched -> UNION { Answers[e] : e \in Watched }] : \A e \in Watched : f[e] \in Answers[e] }

Start == phase = "start" /\ \E ans \in Pick : Query(0, ans) /\ UNCHANGED <<temp, con, acc, fresh, crv, crvIn, pubs, nin, nask, nbad>>

(* revocations of threshold objects that came before the update are known by the next period *)
Settle == [e \in {"C1","C2"} |-> crv[e] \cup UNION { Delta(x.i, x.v) : x \in { y \in crvIn : y.e = e } }]
NextPeriod ==
  /\ phase = "done" /\ per < MaxPer
  /\ LET c2 == Settle IN
     \E ans \in Pick :
       /\ crv' = c2 /\ crvIn' = {}
       /\ LET p   == PN(per+1)
              ask == { e \in Watched : ~Proof(e, p) }
              fit(e) == Kind(e) = "rev" => c2[e] \cup Delta(per+1, ans[e].v) = Covers(per+1, ans[e].v)
              ok  == { e \in ask : ans[e].a \in {"stmt","slow"} /\ fit(e) }
          IN /\ per' = per + 1 /\ phase' = "wait" /\ pend' = ask \ ok
             /\ hist' = Step([t |-> "query", p |-> p, ans |-> AnsOf(per+1, ans)],
                             [ask |-> ask, fwd |-> { [k |-> Kind(e), e |-> e, p |-> p, v |-> ans[e].v] : e \in ok }])
  /\ UNCHANGED <<temp, con, acc, fresh, pubs, nin, nask, nbad>>

(* something comes from the gossiper *)
Feed(m) ==
  /\ phase \in {"wait","rest","done"} /\ nin < MaxIn
  /\ (m.t = "bad" => nbad < MaxBad)
  /\ "q" \in DOMAIN m => AbsOK(m.q)
  /\ m.t = "init" => phase # "done" \/ m.q # "next"
  (* the specification does not speak about revocation objects that come after the update of a period *)
  /\ m.t = "full" /\ m.k = "rev" => phase # "done"
  (* nor about objects that come again after they were published *)
  /\ m.t \in {"full","con"} => LET i == Abs(m.q) IN
        ~\E j \in 1..Len(pubs) : \E o \in pubs[j].sth \cup pubs[j].rev \cup pubs[j].acc \cup pubs[j].con :
             o.e = m.e /\ o.p = PN(i) /\ o.m = m.t
  /\ nin' = nin + 1 /\ nbad' = nbad + (IF m.t = "bad" THEN 1 ELSE 0)
  /\ LET p == IF "q" \in DOMAIN m THEN PN(Abs(m.q)) ELSE P
         o == CASE m.t = "full" -> [m |-> "full", k |-> m.k, e |-> m.e, p |-> p, v |-> m.v]
                [] m.t = "con"  -> [m |-> "con", k |-> m.k, e |-> m.e, p |-> p]
                [] OTHER -> [m |-> "none"]
     IN /\ temp' = IF m.t = "init" THEN temp \cup {[e |-> m.e, p |-> p]} ELSE temp
        /\ con'  = IF m.t = "con" THEN con \cup {m.e} ELSE con
        /\ acc'  = IF m.t = "full" /\ m.k = "acc" THEN acc \cup {[e |-> m.e, p |-> p]} ELSE acc
        /\ fresh' = IF m.t \in {"full","con"} THEN fresh \cup {o} ELSE fresh
        /\ crvIn' = IF m.t = "full" /\ m.k = "rev" THEN crvIn \cup {[e |-> m.e, i |-> Abs(m.q), v |-> m.v]} ELSE crvIn
        /\ hist' = Step(IF "q" \in DOMAIN m THEN m @@ [p |-> p] @@ (IF "v" \in DOMAIN m THEN Body(m.k, Abs(m.q), m.v) ELSE [d |-> {}]) ELSE m, {})
  /\ UNCHANGED <<per, phase, pend, crv, pubs, nask>>

(* the waiting time is over *)
Accuse ==
  /\ phase = "wait"
  /\ phase' = "rest" /\ pend' = {}
  /\ hist' = Step([t |-> "wait", p |-> P], { [m |-> "acc", e |-> e, p |-> P] : e \in { y \in pend : ~Proof(y, P) /\ [e |-> y, p |-> P] \notin temp } })
  /\ UNCHANGED <<per, temp, con, acc, fresh, crv, crvIn, pubs, nin, nask, nbad>>

Update == LET keep == { o \in fresh : o.m = "con" \/ o.k = "acc" \/ o.e \notin con } IN
  [sth |-> { o \in keep : o.m = "full" /\ o.k = "sth" }, rev |-> { o \in keep : o.m = "full" /\ o.k = "rev" },
   acc |-> { o \in keep : o.m = "full" /\ o.k = "acc" }, con |-> { o \in keep : o.m = "con" }]

Publish ==
  /\ phase = "rest"
  /\ phase' = "done"
  /\ pubs' = Append(pubs, Update) /\ fresh' = {} /\ temp' = {}
  /\ hist' = Step([t |-> "publish", p |-> P], Update)
  /\ UNCHANGED <<per, pend, con, acc, crv, crvIn, nin, nask, nbad>>

(* a client asks: for the update of period number n, or for something that is not the number of a period *)
Ask(q) ==
  /\ phase # "start" /\ nask < MaxAsk
  /\ nask' = nask + 1
  /\ hist' = Step([t |-> "ask", ask |-> q],
                  IF "n" \in DOMAIN q /\ q.n + 1 <= Len(pubs) THEN [ok |-> TRUE, u |-> pubs[q.n + 1]] ELSE [ok |-> FALSE])
  /\ UNCHANGED <<per, phase, pend, temp, con, acc, fresh, crv, crvIn, pubs, nin, nbad>>

(* the process is restarted: what was published stays available.  What else it remembers is left open, so that only client
   requests follow *)
Restart ==
  /\ MayRestart /\ phase = "done"
  /\ phase' = "restarted"
  /\ hist' = Step([t |-> "restart"], {})
  /\ UNCHANGED <<per, pend, temp, con, acc, fresh, crv, crvIn, pubs, nin, nask, nbad>>

Next0 == Start \/ Restart \/ NextPeriod \/ Accuse \/ Publish \/ (\E m \in Inputs : Feed(m)) \/ (\E q \in Asks : Ask(q))
Next == Next0 /\ idle' = (IF Known' = Known THEN <<hist'[Len(hist')].a>> ELSE <<>>)

-----------------------------------------------------------------------------
(* properties *)
H(i) == hist[i]
IsQ(i) == H(i).a.t = "query"
PerOf(i) == LET j == CHOOSE j \in 1..i : IsQ(j) /\ \A l \in (j+1)..i : ~IsQ(l) IN H(j).a.p
(* at most one accusation of an entity per period *)
AccuseOnce == \A i, j \in 1..Len(hist) : H(i).a.t = "wait" /\ H(j).a.t = "wait" /\ i # j => H(i).a.p # H(j).a.p
(* an entity that answered properly in a period, or was seen through gossip in time, or has a proof, is not accused *)
NeverAccusedWrongly ==
  \A i \in 1..Len(hist) : H(i).a.t = "wait" => \A o \in H(i).x :
     /\ o.e \in Watched
     /\ \E j \in 1..i : IsQ(j) /\ H(j).a.p = o.p /\ o.e \in H(j).x.ask /\ ~\E f \in H(j).x.fwd : f.e = o.e
     /\ ~\E j \in 1..i : H(j).a.t = "con" /\ H(j).a.e = o.e
     /\ ~\E j \in 1..i : H(j).a.t = "init" /\ H(j).a.e = o.e /\ H(j).a.p = o.p /\ PerOf(j) = o.p
(* silent entities without proof are accused *)
SilentAccused ==
  \A i \in 1..Len(hist) : H(i).a.t = "wait" =>
     \A e \in Watched :
       (~\E j \in 1..i : \/ (IsQ(j) /\ H(j).a.p = H(i).a.p /\ \E f \in H(j).x.fwd : f.e = e)
                         \/ (H(j).a.t \in {"con","init"} /\ H(j).a.e = e)
                         \/ (H(j).a.t = "full" /\ H(j).a.k = "acc" /\ H(j).a.e = e))
       => \E o \in H(i).x : o.e = e
(* every object is published at most once; what a proof convicts is not among the statements *)
PublishedOnce == \A i, j \in 1..Len(pubs) : i # j => /\ pubs[i].sth \cap pubs[j].sth = {} /\ pubs[i].rev \cap pubs[j].rev = {}
                                                     /\ pubs[i].con \cap pubs[j].con = {} /\ pubs[i].acc \cap pubs[j].acc = {}
NoConvicted == \A i \in 1..Len(pubs) : \A o \in pubs[i].con : \A j \in i..Len(pubs) : ~\E s \in pubs[j].sth \cup pubs[j].rev : s.e = o.e
(* nothing is lost: what was received and is not held back by a proof is published or waiting *)
Complete == \A i \in 1..Len(hist) : H(i).a.t = "full" =>
   LET o == [m |-> "full", k |-> H(i).a.k, e |-> H(i).a.e, p |-> H(i).a.p, v |-> H(i).a.v]
   IN o \in fresh \/ (\E j \in 1..Len(pubs) : o \in pubs[j].sth \cup pubs[j].rev \cup pubs[j].acc) \/ o.e \in con

Emit == PrintT(<<"@@", ToJson(hist')>>)
EmitEnd == IF phase = "done" /\ per = MaxPer THEN PrintT(<<"@@", ToJson(hist)>>) ELSE TRUE
=============================================================================
