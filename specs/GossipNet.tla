----------------------------- MODULE GossipNet ------------------------------
(* Several gossipers and the network between them.  Statements, accusations and proofs are handed to some of them;
   every message in flight can be delivered at any time, in any order.                                            *)
EXTENDS GossipNode, Json

CONSTANTS Nodes,    \* names of the gossipers
          Peers,    \* [Nodes -> SUBSET Nodes]
          Inject,   \* inputs from outside: records [at, t, ...] like the alphabet of GossipSolo
          Record    \* keep the history

VARIABLES nodes, net, mon, todo, hist
vars == <<nodes, net, mon, todo, hist>>

Init == /\ nodes = [g \in Nodes |-> NodeInit]
        /\ net = {} /\ mon = [g \in Nodes |-> {}] /\ todo = Inject /\ hist = <<>>

Strip(o) == [f \in DOMAIN o \ {"to"} |-> o[f]]
Expand(g, out) ==
  UNION { IF o.to = "mon" THEN {}
          ELSE IF o.to = "peers" THEN { Strip(o) @@ [to |-> q, from |-> g] : q \in Peers[g] }
          ELSE { o @@ [from |-> g] } : o \in out }
MonOut(g, out) == { Strip(o) @@ [to |-> "mon", from |-> g] : o \in { x \in out : x.to = "mon" } }

Respond(g, a) ==
  CASE a.t = "init" -> DoInit(nodes[g], St(a.k,a.e,a.p,a.v))
    [] a.t = "frag" -> DoFrag(nodes[g], St(a.k,a.e,a.p,a.v), a.g)
    [] a.t = "con"  -> DoCon(nodes[g], a.k, a.e, a.p, a.v, a.w)
    [] a.t = "acc"  -> DoAcc(nodes[g], a.e, a.p, TRUE, g)

RespondMsg(g, m) ==
  CASE m.m = "init" -> DoInit(nodes[g], St(m.k,m.e,m.p,m.v))
    [] m.m = "frag" -> DoFrag(nodes[g], St(m.k,m.e,m.p,m.v), m.g)
    [] m.m = "con"  -> LET a == CHOOSE x \in m.vs : TRUE
                           b == CHOOSE x \in m.vs : x # a IN DoCon(nodes[g], m.k, m.e, m.p, a, b)
    [] m.m = "note" -> DoNote(nodes[g], St("rev",m.e,m.p,m.v), m.from)
    [] m.m = "req"  -> DoReq(nodes[g], m.e, m.p, m.from)

Log(a, x) == hist' = IF Record THEN Append(hist, [a |-> a, x |-> x]) ELSE hist

Feed(i) ==
  /\ i \in todo
  /\ LET r == Respond(i.at, i) IN
     /\ nodes' = [nodes EXCEPT ![i.at] = r.s]
     /\ net' = net \cup Expand(i.at, r.out)
     /\ mon' = [mon EXCEPT ![i.at] = @ \cup MonOut(i.at, r.out)]
     /\ Log(i @@ [act |-> "inject"], Expand(i.at, r.out) \cup MonOut(i.at, r.out))
  /\ todo' = todo \ {i}

Deliver(m) ==
  /\ m \in net
  /\ LET r == RespondMsg(m.to, m)
         x == Expand(m.to, r.out) IN
     /\ nodes' = [nodes EXCEPT ![m.to] = r.s]
     /\ net' = (net \ {m}) \cup x
     /\ mon' = [mon EXCEPT ![m.to] = @ \cup MonOut(m.to, r.out)]
     /\ Log(m @@ [act |-> "deliver"], x \cup MonOut(m.to, r.out))
  /\ UNCHANGED todo

(* Fragments on revocations carry no payload, so revocations are assumed to spread faster than the waiting time. *)
RevSpreading == \E m \in net : m.k = "rev" /\ m.m \in {"init","note","req"}

Tick ==
  /\ \E g \in Nodes : nodes[g].pend # {}
  /\ ~RevSpreading
  /\ LET r == [g \in Nodes |-> DoTick(nodes[g], g)] IN
     /\ nodes' = [g \in Nodes |-> r[g].s]
     /\ net' = net \cup UNION { Expand(g, r[g].out) : g \in Nodes }
     /\ mon' = [g \in Nodes |-> mon[g] \cup MonOut(g, r[g].out)]
     /\ Log([act |-> "tick"], UNION { Expand(g, r[g].out) \cup MonOut(g, r[g].out) : g \in Nodes })
  /\ UNCHANGED todo

Next == (\E i \in todo : Feed(i)) \/ (\E m \in net : Deliver(m)) \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<nodes, net, mon, todo>>

-----------------------------------------------------------------------------
Quiet == net = {} /\ todo = {} /\ \A g \in Nodes : nodes[g].pend = {}
Said == { i \in Inject : i.t = "init" }
Equiv(k, e, p) == \E i, j \in Said : i.k = k /\ j.k = k /\ i.e = e /\ j.e = e /\ i.p = p /\ j.p = p /\ i.v # j.v
Suspect(e) == (\E i \in Inject : i.t \in {"con","acc"} /\ i.e = e) \/ (\E i \in Said : i.e = e /\ Equiv(i.k, e, i.p))
Has(g, m, k, e, p) == \E x \in mon[g] : x.m = m /\ x.e = e /\ (m = "con" \/ (x.k = k /\ x.p = p))

Converged == Quiet =>
  /\ \A i \in Said : ~Suspect(i.e) => \A g \in Nodes :
        Has(g, "init", i.k, i.e, i.p) /\ Has(g, "full", i.k, i.e, i.p)
  /\ \A i \in Said : (Equiv(i.k, i.e, i.p) /\ ~\E j \in Inject : j.t = "acc" /\ j.e = i.e) => \A g \in Nodes : Has(g, "con", "", i.e, "")
  /\ \A i \in Inject : (i.t = "acc" /\ Cardinality({ j.at : j \in { x \in Inject : x.t = "acc" /\ x.e = i.e /\ x.p = i.p } }) >= T
                          /\ ~\E j \in Said : j.e = i.e) => \A g \in Nodes : Has(g, "full", "acc", i.e, i.p)
(* nobody honest is framed *)
NoFraming == \A g \in Nodes : \A x \in mon[g] : x.m = "con" => \/ Equiv(x.k, x.e, x.p)
                                                              \/ \E i \in Inject : i.t = "con" /\ i.e = x.e
(* all threshold objects for one entity, kind and period agree unless the entity equivocates *)
Agreement == \A g, h \in Nodes : \A x \in mon[g], y \in mon[h] :
                x.m = "full" /\ y.m = "full" /\ x.k = y.k /\ x.e = y.e /\ x.p = y.p /\ ~Suspect(x.e) => x.v = y.v
Terminates == <>[]Quiet

EmitQuiet == IF Quiet THEN PrintT(<<"@@", ToJson(hist)>>) ELSE TRUE
=============================================================================
