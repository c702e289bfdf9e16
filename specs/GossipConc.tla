----------------------------- MODULE GossipConc -----------------------------
(* Concurrent handling at one gossiper ("G1").  After some inputs one after the other (pre), several inputs arrive at the
   same time (ops; also the end of waiting times and the turn of a period) and are handled in small steps that interleave
   in every way; then waiting times end, and further inputs (post) show what state the gossiper is left in.  The steps are
   the finest the properties admit: looking an object up, keeping it, counting a fragment and blacklisting are each
   atomic, nothing else is.  Every outcome reachable here is admitted, no other one.                             *)
EXTENDS GossipNode, Json

CONSTANTS Scen   \* scenarios: [pre, ops, post], sequences of inputs

VARIABLES sc, node, cons, cur, th, hist, out, phase, i
vars == <<sc, node, cons, cur, th, hist, out, phase, i>>
(* cons: periods and entities with a conflict proof stored; th: handlers running; out: what they sent (tagged) *)

Self == "G1"
PN(n) == <<"p0","p1","p2","p3">>[n+1]

Init == /\ sc \in Scen /\ node = NodeInit /\ cons = {} /\ cur = 0 /\ th = <<>> /\ hist = <<>> /\ out = {}
        /\ phase = "pre" /\ i = 1

Respond(a) ==
  CASE a.t = "init" -> DoInit(node, St(a.k,a.e,a.p,a.v))
    [] a.t = "frag" -> DoFrag(node, St(a.k,a.e,a.p,a.v), a.g)
    [] a.t = "con"  -> DoCon(node, a.k, a.e, a.p, a.v, a.w)
    [] a.t = "acc"  -> DoAcc(node, a.e, a.p, a.by = "M1", Self)
    [] a.t = "note" -> DoNote(node, St("rev",a.e,a.p,a.v), a.from)
    [] a.t = "req"  -> DoReq(node, a.e, a.p, a.from)
    [] a.t \in {"drain", "edge"} -> DoDrain(node, Self)

NewCons(x) == { [e |-> m.e, p |-> m.p] : m \in { y \in x : y.m = "con" } }

Single(list, nxt) ==
  /\ i <= Len(list)
  /\ LET r == Respond(list[i]) IN
     /\ node' = r.s /\ cons' = cons \cup NewCons(r.out)
     /\ hist' = Append(hist, [a |-> list[i], x |-> r.out])
  /\ IF i = Len(list) THEN phase' = nxt /\ i' = 1 ELSE phase' = phase /\ i' = i + 1
  /\ UNCHANGED <<sc, cur, th, out>>

Pre == phase = "pre" /\ Single(sc.pre, "go")
Skip == phase = "pre" /\ sc.pre = <<>> /\ phase' = "go" /\ UNCHANGED <<sc, node, cons, cur, th, hist, out, i>>

(* a handler: pc, the input and what it remembers *)
H(pc, a, r) == [pc |-> pc, a |-> a, r |-> r]
Start(a) == CASE a.t = "init" -> H(IF a.k = "rev" THEN "pay" ELSE "chk", a, <<>>)
              [] a.t = "frag" -> H(IF a.k = "rev" THEN "fpay" ELSE "fchk", a, <<>>)
              [] a.t = "con"  -> H("cchk", a, <<>>)
              [] a.t = "acc"  -> H("achk", a, <<>>)
              [] a.t = "note" -> H("note", a, <<>>)
              [] a.t = "req"  -> H("req", a, <<>>)
              [] a.t = "turn" -> H("turn", a, <<>>)
SignH(st) == H("schk", [t |-> "frag", k |-> st.k, e |-> st.e, p |-> st.p, v |-> st.v, g |-> Self], <<>>)

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
HasTimer == \E j \in 1..Len(sc.ops) : sc.ops[j].t = "timer"

Go == /\ phase = "go"
      /\ LET real == SelectSeq(sc.ops, LAMBDA a : a.t # "timer")
             sign == IF HasTimer THEN SetToSeq({ x.s : x \in node.pend }) ELSE <<>>
         IN th' = [j \in 1..Len(real) |-> Start(real[j])] \o [j \in 1..Len(sign) |-> SignH(sign[j])]
      /\ node' = IF HasTimer THEN [node EXCEPT !.pend = {}] ELSE node
      /\ phase' = "par" /\ UNCHANGED <<sc, cons, cur, hist, out, i>>

Done == H("done", <<>>, <<>>)
Tag(j, ms) == { [j |-> j, m |-> x] : x \in ms }

(* one small step of handler j *)
Step(j) ==
  LET h == th[j]
      a == h.a
      st == St(a.k, a.e, a.p, a.v)
      To(x) == th' = [th EXCEPT ![j] = x]
      Keep == UNCHANGED <<node, cons, cur, out>>
      Send(ms) == out' = out \cup Tag(j, ms)
      have == { f \in node.frag : f.s = st }
  IN
  /\ phase = "par" /\ j \in 1..Len(th) /\ h.pc # "done"
  /\ UNCHANGED <<sc, hist, phase, i>>
  /\ CASE h.pc = "pay" -> node' = KeepPay(node, st) /\ To(H("chk", a, <<>>)) /\ UNCHANGED <<cons, cur, out>>
       [] h.pc = "chk" -> Keep /\ (IF st \in node.init \/ st.e \in node.black THEN To(Done) ELSE To(H("store", a, <<>>)))
       [] h.pc = "store" ->
            IF st \in node.init THEN Keep /\ To(Done)
            ELSE IF Stmts(node, st) # {}
            THEN Keep /\ To(H("cchk", [k |-> a.k, e |-> a.e, p |-> a.p, v |-> (CHOOSE y \in Stmts(node, st) : TRUE).v, w |-> a.v], <<>>))
            ELSE /\ node' = [node EXCEPT !.init = @ \cup {st}, !.pend = @ \cup {[s |-> st, d |-> Wait]}]
                 /\ Send({Announce(st), ToMon("init", st)}) /\ To(Done) /\ UNCHANGED <<cons, cur>>
       [] h.pc = "cchk" -> Keep /\ (IF a.e \in node.black THEN To(Done) ELSE To(H("cstore", a, <<>>)))
       [] h.pc = "cstore" -> IF [e |-> a.e, p |-> a.p] \in cons THEN Keep /\ To(Done)
                             ELSE cons' = cons \cup {[e |-> a.e, p |-> a.p]} /\ To(H("cblack", a, <<>>)) /\ UNCHANGED <<node, cur, out>>
       [] h.pc = "cblack" -> node' = [node EXCEPT !.black = @ \cup {a.e}] /\ Send(ConMsgs(a.k, a.e, a.p, a.v, a.w)) /\ To(Done) /\ UNCHANGED <<cons, cur>>
       [] h.pc = "fpay" -> Keep /\ (IF st \in node.pay THEN To(H("fchk", a, <<>>)) ELSE To(Done))
       [] h.pc = "schk" -> Keep /\ (IF a.e \in node.black THEN To(Done) ELSE To(H("fchk", a, <<>>)))
       [] h.pc = "fchk" -> Keep /\ (IF a.e \in node.black THEN To(Done) ELSE To(H("fstore", a, <<>>)))
       [] h.pc = "fstore" ->
            IF Cardinality(have) >= T \/ \E f \in have : f.g = a.g THEN Keep /\ To(Done)
            ELSE LET gs == { f.g : f \in have } \cup {a.g} IN
                 /\ node' = [node EXCEPT !.frag = @ \cup {[s |-> st, g |-> a.g]}]
                 /\ Send({[to |-> "peers", m |-> "frag", k |-> st.k, e |-> st.e, p |-> st.p, v |-> st.v, g |-> a.g]})
                 /\ (IF Cardinality(gs) = T THEN To(H("lchk", a, gs)) ELSE To(Done))
                 /\ UNCHANGED <<cons, cur>>
       [] h.pc = "lchk" -> Keep /\ (IF a.e \in node.black THEN To(Done) ELSE To(H("lstore", a, h.r)))
       [] h.pc = "lstore" -> IF \E x \in node.full : Same(x, st) THEN Keep /\ To(Done)
                             ELSE /\ node' = [node EXCEPT !.full = @ \cup {st}]
                                  /\ Send({[to |-> "mon", m |-> "full", k |-> st.k, e |-> st.e, p |-> st.p, v |-> st.v, gs |-> h.r]})
                                  /\ (IF st.k = "acc" THEN To(H("lblack", a, <<>>)) ELSE To(Done))
                                  /\ UNCHANGED <<cons, cur>>
       [] h.pc = "lblack" -> node' = [node EXCEPT !.black = @ \cup {a.e}] /\ To(Done) /\ UNCHANGED <<cons, cur, out>>
       [] h.pc = "achk" -> Keep /\ (IF a.by # "M1" \/ [e |-> a.e, p |-> a.p] \in node.accs \/ a.e \in node.black THEN To(Done) ELSE To(H("astore", a, <<>>)))
       [] h.pc = "astore" -> IF [e |-> a.e, p |-> a.p] \in node.accs THEN Keep /\ To(Done)
                             ELSE /\ node' = [node EXCEPT !.accs = @ \cup {[e |-> a.e, p |-> a.p]}]
                                  /\ To(SignH(St("acc", a.e, a.p, 0))) /\ UNCHANGED <<cons, cur, out>>
       [] h.pc = "note" -> To(Done) /\ UNCHANGED <<node, cons, cur>> /\ Send(DoNote(node, St("rev",a.e,a.p,a.v), a.from).out)
       [] h.pc = "req"  -> To(Done) /\ UNCHANGED <<node, cons, cur>> /\ Send(DoReq(node, a.e, a.p, a.from).out)
       [] h.pc = "turn" -> node' = DoPeriod(node, PN(cur + 1)) /\ cur' = cur + 1 /\ To(Done) /\ UNCHANGED <<cons, out>>

Join == /\ phase = "par" /\ \A j \in 1..Len(th) : th[j].pc = "done"
        /\ hist' = Append(hist, [a |-> [t |-> "par", ops |-> sc.ops], x |-> out])
        /\ phase' = "post" /\ i' = 1 /\ th' = <<>> /\ UNCHANGED <<sc, node, cons, cur, out>>

Post == phase = "post" /\ Single(sc.post, "end")
Next == Pre \/ Skip \/ Go \/ Join \/ Post \/ \E j \in 1..4 : Step(j)

-----------------------------------------------------------------------------
(* properties of the design *)
ParMsgs == { x.m : x \in out }
AllMsgs == ParMsgs \cup UNION { hist[n].x : n \in { n \in 1..Len(hist) : hist[n].a.t # "par" } }
Par == CHOOSE n \in 1..Len(hist) : hist[n].a.t = "par"
Ended == phase = "end"
OneStatement == \A x, y \in node.init : Same(x, y) => x = y
(* two different statements handled => the entity is blacklisted and exactly one conflict proof about the period was sent *)
Inputs == { hist[n].a : n \in 1..Len(hist) } \cup { sc.ops[n] : n \in 1..Len(sc.ops) }
Detected == Ended => \A a, b \in Inputs :
   (a.t = "init" /\ b.t = "init") => ((a.k = b.k /\ a.e = b.e /\ a.p = b.p /\ a.v # b.v) => a.e \in node.black)
OneProof == \A x, y \in { [j |-> 0, m |-> m] : m \in AllMsgs } \cup out :
   (x.m.m = "con" /\ y.m.m = "con" /\ x.m.to = y.m.to /\ x.m.e = y.m.e /\ x.m.p = y.m.p) => x.m = y.m
Proven == node.black \subseteq { m.e : m \in { m \in AllMsgs : m.m = "con" \/ (m.m = "full" /\ m.k = "acc") } }
OneFull == \A x, y \in AllMsgs : (x.m = "full" /\ y.m = "full" /\ x.k = y.k /\ x.e = y.e /\ x.p = y.p) => x = y
FullSound == \A x \in AllMsgs : x.m = "full" => Cardinality(x.gs) = T
SignsOne == \A x, y \in AllMsgs : (x.m = "frag" /\ y.m = "frag" /\ x.g = Self /\ y.g = Self /\ x.k = y.k /\ x.e = y.e /\ x.p = y.p) => x = y

Emit == IF phase' = "end" THEN PrintT(<<"@@", ToJson([sc |-> sc, hist |-> hist'])>>) ELSE TRUE
=============================================================================
