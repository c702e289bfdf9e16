----------------------------- MODULE GossipNode -----------------------------
(* What one gossiper does with one input: pure operators from (node state, input) to (node state, messages sent).
   Used by GossipSolo (one node, all inputs), GossipNet (several nodes and a network) and GossipConc (concurrent
   handling).  A statement is [k, e, p, v]: kind ("sth" of a logger, "rev" of a CA, "acc" of an accused entity), entity,
   period and content.  Messages sent are records with a field `to`: "peers" (every connected gossiper), "mon" (the
   gossiper's monitor) or the name of one gossiper.                                                             *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS T,     \* fragments needed for a threshold object
          Wait   \* waiting time before a statement is signed, in ticks

St(k,e,p,v) == [k |-> k, e |-> e, p |-> p, v |-> v]

NodeInit == [init  |-> {},   \* statements held, at most one per kind, entity and period
             frag  |-> {},   \* fragments held: [s |-> statement, g |-> signer]
             full  |-> {},   \* threshold objects held (statements)
             accs  |-> {},   \* accusations of the own monitor that were supported: [e, p]
             pay   |-> {},   \* revocation statements whose payload is held (latest per entity and period)
             black |-> {},   \* entities with a proof of misbehavior
             pend  |-> {}]   \* statements waiting to be signed: [s |-> statement, d |-> ticks left]

R(s, out) == [s |-> s, out |-> out]

Same(a, b) == a.k = b.k /\ a.e = b.e /\ a.p = b.p
Stmts(node, st) == { x \in node.init : Same(x, st) }
Pay(node, e, p) == { x \in node.pay : x.e = e /\ x.p = p }

Announce(st) == [to |-> "peers", m |-> IF st.k = "rev" THEN "note" ELSE "init", k |-> st.k, e |-> st.e, p |-> st.p, v |-> st.v]
ToMon(m, st) == [to |-> "mon", m |-> m, k |-> st.k, e |-> st.e, p |-> st.p, v |-> st.v]
ConMsgs(k, e, p, a, b) == { [to |-> w, m |-> "con", k |-> k, e |-> e, p |-> p, vs |-> {a, b}] : w \in {"peers","mon"} }

(* a valid conflict proof against e *)
DoCon(node, k, e, p, a, b) ==
  IF e \in node.black THEN R(node, {})
  ELSE R([node EXCEPT !.black = @ \cup {e}], ConMsgs(k, e, p, a, b))

KeepPay(node, st) == IF st.k # "rev" THEN node
                     ELSE [node EXCEPT !.pay = (@ \ Pay(node, st.e, st.p)) \cup {st}]

(* a validly signed statement of a logger or CA *)
DoInit(node0, st) ==
  LET node == KeepPay(node0, st) IN
  IF st \in node.init \/ st.e \in node.black THEN R(node, {})
  ELSE IF Stmts(node, st) # {} THEN
         LET x == CHOOSE y \in Stmts(node, st) : TRUE IN DoCon(node, st.k, st.e, st.p, x.v, st.v)
  ELSE R([node EXCEPT !.init = @ \cup {st}, !.pend = @ \cup {[s |-> st, d |-> Wait]}],
         {Announce(st), ToMon("init", st)})

(* a valid fragment of gossiper g; `st` is what g signed *)
DoFragRaw(node, st, g) ==
  LET have == { f \in node.frag : f.s = st } IN
  IF st.e \in node.black \/ Cardinality(have) >= T \/ \E f \in have : f.g = g THEN R(node, {})
  ELSE LET n1   == [node EXCEPT !.frag = @ \cup {[s |-> st, g |-> g]}]
           gs   == { f.g : f \in have } \cup {g}
           msg  == [to |-> "peers", m |-> "frag", k |-> st.k, e |-> st.e, p |-> st.p, v |-> st.v, g |-> g]
           isfull == Cardinality(gs) = T /\ ~\E x \in node.full : Same(x, st)
       IN IF ~isfull THEN R(n1, {msg})
          ELSE R([n1 EXCEPT !.full = @ \cup {st}, !.black = IF st.k = "acc" THEN @ \cup {st.e} ELSE @],
                 {msg, [to |-> "mon", m |-> "full", k |-> st.k, e |-> st.e, p |-> st.p, v |-> st.v, gs |-> gs]})

(* fragments on revocations travel without payload and count only for the statement whose payload is held *)
DoFrag(node, st, g) == IF st.k = "rev" /\ st \notin node.pay THEN R(node, {}) ELSE DoFragRaw(node, st, g)

(* an accusation; only the own monitor's is supported *)
DoAcc(node, e, p, own, self) ==
  IF ~own \/ [e |-> e, p |-> p] \in node.accs \/ e \in node.black THEN R(node, {})
  ELSE DoFragRaw([node EXCEPT !.accs = @ \cup {[e |-> e, p |-> p]}], St("acc", e, p, 0), self)

(* a peer announces a revocation statement *)
DoNote(node, st, from) ==
  IF st \in node.pay THEN R(node, {})
  ELSE R(node, {[to |-> from, m |-> "req", k |-> "rev", e |-> st.e, p |-> st.p, v |-> st.v]})

(* a peer asks for an announced revocation statement *)
DoReq(node, e, p, from) ==
  IF Pay(node, e, p) = {} THEN R(node, {})
  ELSE LET x == CHOOSE y \in Pay(node, e, p) : TRUE IN
       R(node, {[to |-> from, m |-> "init", k |-> "rev", e |-> e, p |-> p, v |-> x.v]})

(* the waiting time of a statement is over *)
DoSign(node, st, self) == IF st.e \in node.black THEN R(node, {}) ELSE DoFragRaw(node, st, self)

RECURSIVE SignAll(_, _, _)
SignAll(r, due, self) ==
  IF due = {} THEN r
  ELSE LET x == CHOOSE y \in due : TRUE
           q == DoSign(r.s, x.s, self)
       IN SignAll(R(q.s, r.out \cup q.out), due \ {x}, self)

(* time passes by one tick *)
DoTick(node, self) ==
  LET due  == { x \in node.pend : x.d <= 1 }
      rest == { [x EXCEPT !.d = @ - 1] : x \in node.pend \ due }
  IN SignAll(R([node EXCEPT !.pend = rest], {}), due, self)

(* all waiting times are over *)
DoDrain(node, self) == SignAll(R([node EXCEPT !.pend = {}], {}), node.pend, self)

(* a new period begins: what belongs to other periods is forgotten, proofs are not *)
DoPeriod(node, p) ==
  [node EXCEPT !.init = { x \in @ : x.p = p }, !.frag = { x \in @ : x.s.p = p }, !.full = { x \in @ : x.p = p },
               !.accs = { x \in @ : x.p = p }, !.pay = { x \in @ : x.p = p }]
=============================================================================
