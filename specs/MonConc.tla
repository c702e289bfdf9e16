------------------------------ MODULE MonConc ------------------------------
(* Concurrency at one monitor.  A scenario is a sequence of entries; an entry is an input from the gossiper, a client's
   request, or one of the monitor's periodic tasks (query, wait, publish), and inputs and requests may arrive while the
   task is running (its `par`), or at the same time as each other (entry "par").  The tasks work in small steps; taking in
   one object is atomic.  An update is put together as: the new conflict proofs, then the statements of entities that are
   not convicted at that moment and the new accusation proofs in any order, and only what is in the update is removed.    *)
EXTENDS Monitor

CONSTANTS Scen

VARIABLES sc, i, run, left, col, accd, said
cvars == <<vars, sc, i, run, left, col, accd, said>>
(* run: step of the running task ("" when none runs); left: inputs still to arrive during it; col: what was collected;
   accd: accused by the running task; said: answers given to requests during it *)

E == sc[i]
Opt(x, f, d) == IF f \in DOMAIN x THEN x[f] ELSE d
Mine == UNCHANGED <<sc, run, left, col, accd, said>>

CInit == Init /\ sc \in Scen /\ i = 1 /\ run = "" /\ left = {} /\ col = <<>> /\ accd = {} /\ said = {}

Rel(m) == IF "q" \in DOMAIN m THEN PN(Abs(m.q)) ELSE P
(* an input as the replay sees it *)
Shown(m) == IF "q" \in DOMAIN m THEN m @@ [p |-> Rel(m)] @@ (IF "v" \in DOMAIN m THEN Body(m.k, Abs(m.q), m.v) ELSE [d |-> {}]) ELSE m

(* taking in an object; Feed of Monitor without the history *)
Take(m) ==
  LET p == Rel(m)
      o == CASE m.t = "full" -> [m |-> "full", k |-> m.k, e |-> m.e, p |-> p, v |-> m.v]
             [] m.t = "con"  -> [m |-> "con", k |-> m.k, e |-> m.e, p |-> p]
             [] OTHER -> [m |-> "none"]
  IN /\ temp' = IF m.t = "init" THEN temp \cup {[e |-> m.e, p |-> p]} ELSE temp
     /\ con'  = IF m.t = "con" THEN con \cup {m.e} ELSE con
     /\ acc'  = IF m.t = "full" /\ m.k = "acc" THEN acc \cup {[e |-> m.e, p |-> p]} ELSE acc
     /\ fresh' = IF m.t \in {"full","con"} THEN fresh \cup {o} ELSE fresh
     /\ crvIn' = IF m.t = "full" /\ m.k = "rev" THEN crvIn \cup {[e |-> m.e, i |-> Abs(m.q), v |-> m.v]} ELSE crvIn

Answer(q) == IF "n" \in DOMAIN q /\ q.n + 1 <= Len(pubs) THEN [ok |-> TRUE, u |-> pubs[q.n + 1]] ELSE [ok |-> FALSE]

(* entries without concurrency *)
CFeed == /\ i <= Len(sc) /\ run = "" /\ E.t = "feed"
         /\ Take(E.m) /\ hist' = Step(Shown(E.m), {}) /\ i' = i + 1
         /\ UNCHANGED <<per, phase, pend, crv, pubs, nin, nask, nbad, idle>> /\ Mine
CAsk  == /\ i <= Len(sc) /\ run = "" /\ E.t = "ask"
         /\ hist' = Step([t |-> "ask", ask |-> E.ask], Answer(E.ask)) /\ i' = i + 1
         /\ UNCHANGED <<per, phase, pend, temp, con, acc, fresh, crv, crvIn, pubs, nin, nask, nbad, idle>> /\ Mine

(* a task begins *)
Begin == /\ i <= Len(sc) /\ run = "" /\ E.t \in {"query","wait","publish","par"}
         /\ CASE E.t = "query" -> /\ per' = (IF phase = "start" THEN 0 ELSE per + 1) /\ phase' = "wait" /\ run' = "ask"
                                  /\ crv' = Settle /\ crvIn' = {} /\ pend' = Watched
              [] E.t = "wait" -> phase' = "rest" /\ run' = "look" /\ UNCHANGED <<per, crv, crvIn, pend>>
              [] E.t = "publish" -> phase' = "done" /\ run' = "con" /\ UNCHANGED <<per, crv, crvIn, pend>>
              [] E.t = "par" -> run' = "end" /\ UNCHANGED <<per, phase, crv, crvIn, pend>>
         /\ left' = { [j |-> j, x |-> E.par[j]] : j \in DOMAIN E.par }
         /\ col' = <<{}, {}>> /\ accd' = {} /\ said' = {}
         /\ UNCHANGED <<temp, con, acc, fresh, pubs, nin, nask, nbad, hist, idle, sc, i>>

(* something arrives while the task runs *)
Arrive == /\ run # ""
          /\ \E l \in left :
               /\ left' = left \ {l}
               /\ IF l.x.t # "ask"
                  THEN Take(l.x) /\ said' = said
                  ELSE said' = said \cup {[j |-> l.j, x |-> Answer(l.x.ask)]} /\ UNCHANGED <<temp, con, acc, fresh, crvIn>>
          /\ UNCHANGED <<per, phase, pend, crv, pubs, nin, nask, nbad, hist, idle, sc, i, run, col, accd>>

(* steps of the tasks *)
(* query: for each watched entity, whether there is a proof; col[1]: asked, col[2]: passed on *)
AskOne == /\ run = "ask" /\ pend # {}
          /\ \E e \in pend :
               LET a == CHOOSE a \in Answers[e] : TRUE
                   known == Proof(e, P)
                   good == Proper(e, per, a)
               IN /\ pend' = pend \ {e}
                  /\ col' = IF known THEN col ELSE <<col[1] \cup {e}, IF good THEN col[2] \cup {e} ELSE col[2]>>
          /\ UNCHANGED <<per, phase, temp, con, acc, fresh, crv, crvIn, pubs, nin, nask, nbad, hist, idle, sc, i, run, left, accd, said>>
AskEnd == /\ run = "ask" /\ pend = {} /\ left = {}
          /\ hist' = Step([t |-> "query", p |-> P, ans |-> AnsOf(per, [e \in Watched |-> CHOOSE a \in Answers[e] : TRUE]), par |-> [j \in DOMAIN E.par |-> Shown(E.par[j])]],
                          [ask |-> col[1], fwd |-> { [k |-> Kind(e), e |-> e, p |-> P, v |-> (CHOOSE a \in Answers[e] : TRUE).v] : e \in col[2] }])
          /\ pend' = col[1] \ col[2] /\ run' = "" /\ i' = i + 1
          /\ UNCHANGED <<per, phase, temp, con, acc, fresh, crv, crvIn, pubs, nin, nask, nbad, idle, sc, left, col, accd, said>>

(* the waiting time is over: each entity's timer looks for the statement and for proofs, separately *)
Look == /\ run = "look"
        /\ \/ /\ pend # {} /\ \E e \in pend : pend' = pend \ {e}
                 /\ col' = IF [e |-> e, p |-> P] \in temp THEN col ELSE <<col[1] \cup {e}, {}>>
              /\ accd' = accd
           \/ /\ col[1] # {} /\ \E e \in col[1] : col' = <<col[1] \ {e}, {}>>
                 /\ accd' = IF Proof(e, P) THEN accd ELSE accd \cup {e}
              /\ pend' = pend
        /\ UNCHANGED <<per, phase, temp, con, acc, fresh, crv, crvIn, pubs, nin, nask, nbad, hist, idle, sc, i, run, left, said>>
LookEnd == /\ run = "look" /\ pend = {} /\ col[1] = {} /\ left = {}
           /\ hist' = Step([t |-> "wait", p |-> P, par |-> [j \in DOMAIN E.par |-> Shown(E.par[j])]], { [m |-> "acc", e |-> e, p |-> P] : e \in accd })
           /\ run' = "" /\ i' = i + 1
           /\ UNCHANGED <<per, phase, pend, temp, con, acc, fresh, crv, crvIn, pubs, nin, nask, nbad, idle, sc, left, col, accd, said>>

(* publishing: col[1]: collected, col[2]: kinds collected so far *)
Collect == /\ run = "con" /\ col' = <<{ o \in fresh : o.m = "con" }, {}>> /\ run' = "stm"
           /\ UNCHANGED <<vars, sc, i, left, accd, said>>
CollectStm == /\ run = "stm" /\ \E k \in {"sth","rev","acc"} \ col[2] :
                   col' = <<col[1] \cup { o \in fresh : o.m = "full" /\ o.k = k /\ (k = "acc" \/ o.e \notin con) }, col[2] \cup {k}>>
              /\ UNCHANGED <<vars, sc, i, run, left, accd, said>>
Upd == [sth |-> { o \in col[1] : o.m = "full" /\ o.k = "sth" }, rev |-> { o \in col[1] : o.m = "full" /\ o.k = "rev" },
        acc |-> { o \in col[1] : o.m = "full" /\ o.k = "acc" }, con |-> { o \in col[1] : o.m = "con" }]
WriteUp == /\ run = "stm" /\ col[2] = {"sth","rev","acc"} /\ run' = "rm" /\ pubs' = Append(pubs, Upd)
           /\ UNCHANGED <<per, phase, pend, temp, con, acc, fresh, crv, crvIn, nin, nask, nbad, hist, idle, sc, i, left, col, accd, said>>
Remove == /\ run = "rm" /\ run' = "end" /\ fresh' = fresh \ col[1] /\ temp' = {}
          /\ UNCHANGED <<per, phase, pend, con, acc, crv, crvIn, pubs, nin, nask, nbad, hist, idle, sc, i, left, col, accd, said>>
EndPar == /\ run = "end" /\ left = {} /\ run' = "" /\ i' = i + 1
          /\ hist' = IF E.t = "publish"
                     THEN Step([t |-> "publish", p |-> P, par |-> [j \in DOMAIN E.par |-> Shown(E.par[j])]], Upd @@ [said |-> said])
                     ELSE Step([t |-> "par", p |-> P, par |-> [j \in DOMAIN E.par |-> Shown(E.par[j])]], [said |-> said])
          /\ UNCHANGED <<per, phase, pend, temp, con, acc, fresh, crv, crvIn, pubs, nin, nask, nbad, idle, sc, left, col, accd, said>>

CNext == CFeed \/ CAsk \/ Begin \/ Arrive \/ AskOne \/ AskEnd \/ Look \/ LookEnd \/ Collect \/ CollectStm \/ WriteUp \/ Remove \/ EndPar

-----------------------------------------------------------------------------
Fed == { [m |-> IF h.t = "con" THEN "con" ELSE "full", e |-> h.e, p |-> h.p, k |-> h.k] : h \in
          { x \in { hist[n].a : n \in 1..Len(hist) } \cup UNION { { hist[n].a.par[j] : j \in DOMAIN hist[n].a.par } : n \in { n \in 1..Len(hist) : "par" \in DOMAIN hist[n].a } } :
              x.t \in {"con","full"} } }
All(n) == pubs[n].sth \cup pubs[n].rev \cup pubs[n].acc \cup pubs[n].con
(* every object is in exactly one update or still waiting, unless its entity is convicted *)
ExactlyOnce == run = "" => \A o \in Fed :
   LET in(n) == \E x \in All(n) : x.m = o.m /\ x.k = o.k /\ x.e = o.e /\ x.p = o.p
   IN /\ \A a, b \in 1..Len(pubs) : in(a) /\ in(b) => a = b
      /\ (\E n \in 1..Len(pubs) : in(n)) \/ (\E x \in fresh : x.m = o.m /\ x.k = o.k /\ x.e = o.e /\ x.p = o.p) \/ o.e \in con
NeverBoth == \A n \in 1..Len(pubs) : \A c \in pubs[n].con : ~\E s \in pubs[n].sth \cup pubs[n].rev : s.e = c.e
FairAccusation == \A e \in accd : e \in Watched

CEmit == IF i' = Len(sc) + 1 /\ i # i' THEN PrintT(<<"@@", ToJson([sc |-> sc, hist |-> hist'])>>) ELSE TRUE
CView == <<per, phase, pend, temp, con, acc, fresh, crv, crvIn, pubs, hist, sc, i, run, left, col, accd, said>>
=============================================================================
