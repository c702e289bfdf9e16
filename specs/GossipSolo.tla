----------------------------- MODULE GossipSolo -----------------------------
(* One gossiper ("G1") exposed to every input its environment can produce: statements (also conflicting and repeated
   ones), fragments, conflict proofs, accusations, payload notifications and requests, invalid objects, the passing of
   time and new periods.  hist records the inputs and the messages the gossiper must send in response.          *)
EXTENDS GossipNode, Json

CONSTANTS Alphabet,   \* the inputs, a set of records
          MaxLen,     \* inputs per behaviour
          MaxPer,     \* last period
          NBad,       \* invalid inputs per behaviour
          Remember    \* also distinguish states by a preceding input that had no effect

VARIABLES node, now, cur, edge, bad, hist, idle
vars == <<node, now, cur, edge, bad, hist, idle>>

Self == "G1"
PN(i) == <<"p0","p1","p2","p3">>[i+1]
CurP == PN(cur)
NextP == IF cur < 3 THEN PN(cur+1) ELSE "none"

Init == node = NodeInit /\ now = 0 /\ cur = 0 /\ edge = FALSE /\ bad = 0 /\ hist = <<>> /\ idle = <<>>

(* which rule an input exercises: names the facet a deviation belongs to *)
Rule(a) ==
  CASE a.t = "bad" -> "invalid"
    [] a.t \in {"init","frag","con","acc"} /\ a.e \in node.black -> "blacklisted"
    [] a.t = "init" -> LET st == St(a.k,a.e,a.p,a.v) IN
         IF st \in node.init THEN "repeat" ELSE IF Stmts(node, st) # {} THEN "conflict" ELSE "fresh"
    [] a.t = "frag" -> IF a.k = "rev" THEN "revfrag" ELSE "frag"
    [] a.t = "con" -> "con"
    [] a.t = "acc" -> "acc"
    [] a.t \in {"note","req"} -> "payload"

Respond(a) ==
  CASE a.t = "init" -> DoInit(node, St(a.k,a.e,a.p,a.v))
    [] a.t = "frag" -> DoFrag(node, St(a.k,a.e,a.p,a.v), a.g)
    [] a.t = "con"  -> DoCon(node, a.k, a.e, a.p, a.v, a.w)
    [] a.t = "acc"  -> DoAcc(node, a.e, a.p, a.by = "M1", Self)
    [] a.t = "note" -> DoNote(node, St("rev",a.e,a.p,a.v), a.from)
    [] a.t = "req"  -> DoReq(node, a.e, a.p, a.from)
    [] a.t = "bad"  -> R(node, {})

(* inputs the specification speaks about: statements of the current or the next period; payload traffic about an
   entity that equivocated or is blacklisted is left open *)
Allowed(a) ==
  CASE a.t = "bad" -> bad < NBad
    [] a.t \in {"note","req"} -> a.p \in {CurP, NextP} /\ a.e \notin node.black
    [] OTHER -> a.p \in {CurP, NextP}

Feed(a) ==
  /\ Len(hist) < MaxLen /\ Allowed(a)
  /\ LET r == Respond(a) IN
     /\ node' = r.s
     /\ hist' = Append(hist, [a |-> a @@ [rule |-> Rule(a), black |-> node.black], x |-> r.out])
  /\ bad' = bad + (IF a.t = "bad" THEN 1 ELSE 0)
  /\ idle' = IF Remember /\ node' = node THEN <<a>> ELSE <<>>
  /\ UNCHANGED <<now, cur, edge>>

Tick ==
  /\ Len(hist) < MaxLen /\ node.pend # {} /\ ~edge
  /\ LET r == DoTick(node, Self) IN
     /\ node' = r.s
     /\ hist' = Append(hist, [a |-> [t |-> "tick", rule |-> "sign", black |-> node.black], x |-> r.out])
  /\ idle' = <<>> /\ UNCHANGED <<now, cur, edge, bad>>

(* shortly before the period ends: waiting times that start now end in the next period *)
ToEdge ==
  /\ Len(hist) < MaxLen /\ ~edge /\ cur < MaxPer
  /\ LET r == DoDrain(node, Self) IN
     /\ node' = r.s
     /\ hist' = Append(hist, [a |-> [t |-> "edge", rule |-> "sign", black |-> node.black], x |-> r.out])
  /\ edge' = TRUE
  /\ idle' = <<>> /\ UNCHANGED <<now, cur, bad>>

NewPeriod ==
  /\ Len(hist) < MaxLen /\ cur < MaxPer
  /\ IF edge
     THEN /\ node' = DoPeriod(node, NextP)
          /\ hist' = Append(hist, [a |-> [t |-> "period", rule |-> "period", black |-> node.black], x |-> {}])
     ELSE LET r == DoDrain(node, Self) IN
          /\ node' = DoPeriod(r.s, NextP)
          /\ hist' = Append(hist, [a |-> [t |-> "period", rule |-> "sign", black |-> node.black], x |-> r.out])
  /\ cur' = cur + 1 /\ edge' = FALSE
  /\ idle' = <<>> /\ UNCHANGED <<now, bad>>

Next == (\E a \in Alphabet : Feed(a)) \/ Tick \/ ToEdge \/ NewPeriod
Spec == Init /\ [][Next]_vars
(* an input that changes nothing in the specification may change something in the code, which only later inputs show:
   behaviours that differ in such an input count as different *)
View == <<node, cur, edge, bad, idle>>

-----------------------------------------------------------------------------
(* properties of the design *)
Outs == UNION { hist[i].x : i \in 1..Len(hist) }
OutsAt(i) == hist[i].x
OneStatement == \A a, b \in node.init : Same(a, b) => a = b
(* fragments of its own: one statement per kind, entity and period *)
OwnFrags(i) == { o \in OutsAt(i) : o.m = "frag" /\ o.g = Self }
SignsOnce ==
  \A i, j \in 1..Len(hist) : \A a \in OwnFrags(i), b \in OwnFrags(j) :
      a.k = b.k /\ a.e = b.e /\ a.p = b.p => i = j /\ a = b
FullSound == \A i \in 1..Len(hist) : \A o \in OutsAt(i) : o.m = "full" => Cardinality(o.gs) = T
FullOnce == \A i, j \in 1..Len(hist) : \A a \in OutsAt(i), b \in OutsAt(j) :
              a.m = "full" /\ b.m = "full" /\ a.k = b.k /\ a.e = b.e /\ a.p = b.p => i = j
ConOnce == \A i, j \in 1..Len(hist) : \A a \in OutsAt(i), b \in OutsAt(j) :
              a.m = "con" /\ b.m = "con" /\ a.e = b.e => i = j
(* after a proof against e, nothing about e leaves the node on its own initiative *)
ProofAt(i, e) == \E o \in OutsAt(i) : o.e = e /\ (o.m = "con" \/ (o.m = "full" /\ o.k = "acc"))
ShutOut == \A i, j \in 1..Len(hist) : i < j => \A o \in OutsAt(j) :
              ~ProofAt(i, o.e) \/ (o.to \notin {"peers","mon"})
(* two different statements were received in one period => a proof was sent by then, and conversely *)
Got(i, st) == hist[i].a.t = "init" /\ hist[i].a.k = st.k /\ hist[i].a.e = st.e /\ hist[i].a.p = st.p
Detects == \A i, j \in 1..Len(hist) :
   (i < j /\ hist[i].a.t = "init" /\ hist[j].a.t = "init" /\ hist[i].a.k = hist[j].a.k /\ hist[i].a.e = hist[j].a.e
      /\ hist[i].a.p = hist[j].a.p /\ hist[i].a.v # hist[j].a.v
      /\ ~\E l \in i..j : hist[l].a.t = "period" /\ hist[i].a.p # NextP)
   => \E l \in 1..j : ProofAt(l, hist[i].a.e)

Emit == PrintT(<<"@@", ToJson(hist')>>)
EmitEnd == IF Len(hist') = MaxLen THEN PrintT(<<"@@", ToJson(hist')>>) ELSE TRUE
=============================================================================
