------------------------------- MODULE System -------------------------------
(* The whole system, one step per period: CAs issue a certificate each, loggers log them, monitors query loggers and CAs,
   gossipers endorse what they learn, monitors publish, and a client applies one monitor's update of each period and judges the
   certificates issued so far.

   In every period each logger and CA behaves towards the monitors in one of these ways:
     honest  every monitor gets its statement            some   some monitors get no answer, the others get its statement
     silent  no monitor gets an answer                    split  monitors get two different signed statements
     lie     every monitor gets one and the same signed statement, but not the one given to the CAs
   Which way follows from the process's own fault mode (1 to 6) if it has one, and is chosen otherwise.            *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Loggers, CAs, NM,      \* NM monitors, each with its gossiper
          Modes,                 \* possible fault modes of the processes: a set of functions entity -> mode
          Interval,              \* every Interval-th request is answered wrongly in modes 1, 3, 4, 6
          Ways,                  \* ways the environment may choose for loggers and CAs of mode 0
          MaxFaults, MaxPer, MaxRevoke

VARIABLES mode, per,
          black,    \* entities proven misbehaving
          roots,    \* <<l, i>>: the client knows the root of logger l's tree of period i (the one given to the CAs)
          info,     \* CAs whose revocations the client knows
          revd,     \* <<c, i>>: certificates revoked
          gone,     \* certificates the client knows to be revoked
          lost,     \* proofs the client knows
          nf, nr, hist
vars == <<mode, per, black, roots, info, revd, gone, lost, nf, nr, hist>>
View == <<mode, per, black, roots, info, revd, gone, lost, nf, nr>>

Ents == Loggers \cup CAs
Init == mode \in Modes /\ per = 0 /\ black = {} /\ roots = {} /\ info = {} /\ revd = {} /\ gone = {} /\ lost = {} /\ nf = 0 /\ nr = 0 /\ hist = <<>>

(* requests that are answered wrongly in a round of NM requests *)
Some == IF Interval <= NM THEN "some" ELSE "honest"
WayOf(e, r) ==
  LET m == mode[e] IN
  CASE m \in {1,4} -> IF r = 2 /\ Interval <= NM THEN "split" ELSE "honest"
    [] m = 2 -> "silent"
    [] m = 3 -> IF r = 2 THEN "silent" ELSE Some
    [] m = 5 -> IF r = 2 THEN "silent" ELSE "honest"
    [] m = 6 -> IF r = 2 THEN Some ELSE "honest"
Choice(e, r) == IF mode[e] # 0 THEN {WayOf(e, r)} ELSE {"honest"} \cup { w \in Ways : w = "lie" => e \in Loggers }
Faulty(f) == { e \in Ents : mode[e] = 0 /\ f[e] # "honest" }

(* certificate <<c, i>> was issued in period i, its evidence are the statements of all loggers for period i+1 *)
Accepts(c, i, rt, inf, gn, ls) == c \in inf /\ <<c, i>> \notin gn /\ \E l \in Loggers : l \notin ls /\ <<l, i+1>> \in rt

Period(f, rv) ==
  LET r     == per + 1
      alive == Ents \ black
      w(x)  == { e \in alive : f[e] = x }
      told  == { e \in alive : f[e] \in {"honest","some","lie"} }
      sth   == told \cap Loggers
      rev   == told \cap CAs
      acc   == w("silent")
      con   == w("split")
      roots2 == roots \cup { <<l, r>> : l \in { x \in sth : f[x] # "lie" } }
      gone2 == gone \cup { x \in revd : x[1] \in rev }
      info2 == info \cup rev
      lost2 == lost \cup acc \cup con
  IN /\ per' = r /\ UNCHANGED mode
     /\ black' = black \cup acc \cup con
     /\ roots' = roots2 /\ info' = info2 /\ gone' = gone2 /\ lost' = lost2
     /\ revd' = revd \cup { <<c, per>> : c \in rv }
     /\ nf' = nf + Cardinality(Faulty(f)) /\ nr' = nr + Cardinality(rv)
     /\ hist' = Append(hist, [a |-> [t |-> "period", p |-> r, rv |-> rv, md |-> mode, f |-> { [e |-> e, w |-> f[e]] : e \in Ents }],
                              x |-> [sth |-> sth, rev |-> rev, acc |-> acc, con |-> con,
                                     ver |-> { [c |-> c, i |-> i, ok |-> Accepts(c, i, roots2, info2, gone2, lost2)] : c \in CAs, i \in 0..per }]])

Next == /\ per < MaxPer
        /\ \E f \in [Ents -> {"honest","silent","split","some","lie"}] :
             /\ \A e \in Ents : f[e] \in Choice(e, per+1)
             /\ nf + Cardinality(Faulty(f)) <= MaxFaults
             /\ \E rv \in SUBSET CAs : nr + Cardinality(rv) <= MaxRevoke /\ Period(f, rv)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
W(i, e) == (CHOOSE y \in hist[i].a.f : y.e = e).w
(* an entity that never misbehaved towards all or with two faces is never accused or convicted, and its statement of every
   period is published *)
HonestClean == \A e \in Ents : (\A i \in 1..Len(hist) : W(i, e) \in {"honest","some","lie"}) =>
                 \A i \in 1..Len(hist) : e \notin hist[i].x.acc \cup hist[i].x.con /\ e \in hist[i].x.sth \cup hist[i].x.rev
(* the first serious fault of an entity is exposed in that period *)
Exposed == \A i \in 1..Len(hist) : \A e \in Ents :
              (W(i, e) \in {"silent","split"} /\ \A j \in 1..(i-1) : W(j, e) \notin {"silent","split"}) =>
                 IF W(i, e) = "silent" THEN e \in hist[i].x.acc ELSE e \in hist[i].x.con
(* nothing of an exposed entity is published afterwards *)
ShutOut == \A i, j \in 1..Len(hist) : i < j => (hist[i].x.acc \cup hist[i].x.con) \cap (hist[j].x.sth \cup hist[j].x.rev \cup hist[j].x.acc \cup hist[j].x.con) = {}
(* a revoked certificate is never accepted again once the client knows *)
StaysRevoked == [][gone \subseteq gone']_vars

Emit == PrintT(<<"@@", ToJson(hist')>>)
EmitEnd == IF per = MaxPer THEN PrintT(<<"@@", ToJson(hist)>>) ELSE TRUE
=============================================================================
