------------------------------ MODULE ObjVerify ------------------------------
(* Validity of gossip objects.

   Objects are symbolic: a statement is (entity, kind, inner signer, inner period, content, scheme) laid out in the
   payload fields; a signature is (claimed signer, key that was used, statement that was signed).  Behaviours start
   from an honestly produced object and alter one field per step; Valid gives the verdict every CTng process must
   reach.  TLC checks on all objects within the bound that Valid implies authenticity (NoForgery, NoFalseConflict,
   ThresholdSound) and that honest objects are valid; every object is then built for real and given to the
   implementation's verification, whose verdict has to be Valid.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NG,       \* number of gossipers known to the configuration
          T,        \* threshold
          MaxMut,   \* alterations per object
          Shapes    \* which families of objects: subset of {"init","frag","full","con"}

VARIABLES o, n

Gossipers == {"G1","G2","G3","G4"}
KnownG    == { g \in Gossipers : \E i \in 1..NG : g = <<"G1","G2","G3","G4">>[i] }
Loggers   == {"L1","L2"}
CAs       == {"C1","C2"}
Monitors  == {"M1","M2"}
Known     == Loggers \cup CAs \cup Monitors \cup KnownG
Unknown   == "X1"
Periods   == {"p1","p2"}

-----------------------------------------------------------------------------
(* statements *)
Stmt(ent,kind,p,v) == [ent |-> ent, kind |-> kind, inS |-> ent, inP |-> p, v |-> v, scheme |-> "CRV", lay |-> "ok"]
KindOf(t) == CASE t \in {"STH_INIT","STH_FRAG","STH_FULL"} -> "sth"
               [] t \in {"REV_INIT","REV_FRAG","REV_FULL"} -> "rev"
               [] t \in {"ACC_INIT","ACC_FRAG","ACC_FULL"} -> "acc"
               [] OTHER -> "none"
ShapeOf(t) == CASE t \in {"STH_INIT","REV_INIT","ACC_INIT"} -> "init"
                [] t \in {"STH_FRAG","REV_FRAG","ACC_FRAG"} -> "frag"
                [] t \in {"STH_FULL","REV_FULL","ACC_FULL"} -> "full"
                [] t = "CON_INIT" -> "con"
                [] OTHER -> "none"

(* the text that is signed: fields that do not occur in the text of a kind are normalised away *)
Text(s) == CASE s.kind = "sth" -> <<"sth", s.ent, s.inS, s.inP, s.v>>
             [] s.kind = "rev" -> <<"rev", s.ent, s.scheme, s.inP, s.v>>
             [] s.kind = "acc" -> <<"acc", s.ent>>
             [] s.kind \in {"sthx","sthpre"} -> <<s.kind, s.ent, s.inS, s.inP, s.v>>  \* something behind or in front of a tree head
             [] OTHER          -> <<"junk", s.ent>>

(* the payload is a statement of the kind and period the object claims *)
StatementOK(type, period, s) ==
  /\ s.lay = "ok" /\ s.ent # ""
  /\ s.kind = KindOf(type)
  /\ s.kind \in {"sth","rev"} => period # "" /\ s.inP = period
  /\ s.kind = "sth" => s.inS = s.ent
  /\ s.kind = "rev" => s.scheme = "CRV"

(* "recode": the same signature with other hexadecimal digits (upper case) *)
FormOK(f) == f \in {"ok","recode"}
SigOK(sg, signer, keys, text) ==
  /\ FormOK(sg.form) /\ sg.id = signer /\ sg.key = signer /\ signer \in keys /\ Text(sg.text) = text

SeqSet(s) == { s[i] : i \in 1..Len(s) }
NoRepeat(s) == Cardinality(SeqSet(s)) = Len(s)
Count(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
SameBag(a, b) == \A x \in SeqSet(a) \cup SeqSet(b) : Count(a,x) = Count(b,x)

ValidInit(x) ==
  /\ ShapeOf(x.type) = "init"
  /\ StatementOK(x.type, x.period, x.st)
  /\ SigOK(x.sig, x.signer, Known, Text(x.st))
  /\ x.type # "ACC_INIT" => x.st.ent = x.signer

ValidFrag(x) ==
  /\ ShapeOf(x.type) = "frag"
  /\ StatementOK(x.type, x.period, x.st)
  /\ SigOK(x.sig, x.signer, KnownG, Text(x.st))

ValidFull(x) ==
  /\ ShapeOf(x.type) = "full"
  /\ StatementOK(x.type, x.period, x.st)
  /\ FormOK(x.sig.form)
  /\ Text(x.sig.text) = Text(x.st)
  /\ NoRepeat(x.sig.ids) /\ SeqSet(x.sig.ids) \subseteq KnownG
  /\ Len(x.sig.ids) >= T /\ Len(x.sig.ids) > 0
  /\ SameBag(x.sig.ids, x.sig.contrib)

ConStmtOK(x, s) == s.kind \in {"sth","rev"} /\ s.ent = x.ent /\ s.inP # "" /\ (s.kind = "sth" => s.inS = s.ent)
                   /\ (s.kind = "rev" => s.scheme = "CRV")
ValidCon(x) ==
  /\ x.type = "CON_INIT" /\ x.ent # ""
  /\ ConStmtOK(x, x.st1) /\ ConStmtOK(x, x.st2)
  /\ x.st1.kind = x.st2.kind /\ x.st1.inP = x.st2.inP /\ x.period = x.st1.inP
  /\ Text(x.st1) # Text(x.st2)
  /\ SigOK(x.sig1, x.ent, Known, Text(x.st1))
  /\ SigOK(x.sig2, x.ent, Known, Text(x.st2))

Valid(x) == CASE x.shape = "init" -> ValidInit(x)
              [] x.shape = "frag" -> ValidFrag(x)
              [] x.shape = "full" -> ValidFull(x)
              [] x.shape = "con"  -> ValidCon(x)

-----------------------------------------------------------------------------
(* what the specification leaves open: which roles may sign what, aggregates with repeated signers that still contain T
   different ones, whether a re-encoded signature is accepted, and consistent periods that are no two digit minute *)
RoleOf(e) == CASE e \in Loggers -> "sth" [] e \in CAs -> "rev" [] OTHER -> "acc"
Odd(x) == /\ Valid(x)
          /\ \/ x.period \notin Periods \cup {""}
             \/ IF x.shape = "con" THEN x.sig1.form = "recode" \/ x.sig2.form = "recode" ELSE x.sig.form = "recode"
Open(x) ==
  \/ Odd(x)
  \/
   CASE x.shape = "init" -> Valid(x) /\ (IF x.type = "ACC_INIT" THEN x.signer \notin Monitors \/ x.period = "" \/ x.st.ent \notin Loggers \cup CAs
                                          ELSE RoleOf(x.signer) # KindOf(x.type))
    [] x.shape = "frag" -> Valid(x) /\ (IF x.st.kind = "acc" THEN x.period = "" \/ x.st.ent \notin Loggers \cup CAs ELSE RoleOf(x.st.ent) # x.st.kind)
    [] x.shape = "full" -> \/ Valid(x) /\ (IF x.st.kind = "acc" THEN x.period = "" \/ x.st.ent \notin Loggers \cup CAs ELSE RoleOf(x.st.ent) # x.st.kind)
                           \/ ~NoRepeat(x.sig.ids) /\ SameBag(x.sig.ids, x.sig.contrib) /\ Cardinality(SeqSet(x.sig.ids)) >= T
    [] x.shape = "con"  -> Valid(x) /\ RoleOf(x.ent) # x.st1.kind

-----------------------------------------------------------------------------
(* honest objects *)
Sig(k, s) == [form |-> "ok", id |-> k, key |-> k, text |-> s]
HInit == { [shape |-> "init", type |-> t, period |-> "p1", signer |-> w[1], st |-> Stmt(w[2], KindOf(t), "p1", 1),
            sig |-> Sig(w[1], Stmt(w[2], KindOf(t), "p1", 1))] :
            t \in {"STH_INIT","REV_INIT","ACC_INIT"}, w \in {<<"L1","L1">>, <<"C1","C1">>, <<"M1","L1">>, <<"M1","C1">>} }
HonestInit == { x \in HInit : (x.type = "STH_INIT" /\ x.signer = "L1") \/ (x.type = "REV_INIT" /\ x.signer = "C1")
                           \/ (x.type = "ACC_INIT" /\ x.signer = "M1") }
EntsFor(k) == CASE k = "sth" -> {"L1"} [] k = "rev" -> {"C1"} [] OTHER -> {"L1","C1"}
HonestFrag == { [shape |-> "frag", type |-> t, period |-> "p1", signer |-> "G1", st |-> Stmt(e, KindOf(t), "p1", 1),
                 sig |-> Sig("G1", Stmt(e, KindOf(t), "p1", 1))] : t \in {"STH_FRAG","REV_FRAG","ACC_FRAG"}, e \in {"L1","C1"} }
HonestF == { x \in HonestFrag : x.st.ent \in EntsFor(x.st.kind) }
Quorums == { s \in { <<"G1","G2">>, <<"G2","G3">>, <<"G1","G2","G3">> } : Len(s) >= T /\ SeqSet(s) \subseteq KnownG }
HonestFullAll == { [shape |-> "full", type |-> t, period |-> "p1", st |-> Stmt(e, KindOf(t), "p1", 1),
                 sig |-> [form |-> "ok", ids |-> q, contrib |-> q, text |-> Stmt(e, KindOf(t), "p1", 1)]] :
                 t \in {"STH_FULL","REV_FULL","ACC_FULL"}, e \in {"L1","C1"}, q \in Quorums }
HonestFull == { x \in HonestFullAll : x.st.ent \in EntsFor(x.st.kind) }
HonestCon == { [shape |-> "con", type |-> "CON_INIT", period |-> "p1", ent |-> w[1],
                st1 |-> Stmt(w[1], w[2], "p1", 1), st2 |-> Stmt(w[1], w[2], "p1", w[3]),
                sig1 |-> Sig(w[1], Stmt(w[1], w[2], "p1", 1)), sig2 |-> Sig(w[1], Stmt(w[1], w[2], "p1", w[3]))] :
                w \in {<<"L1","sth",2>>, <<"L1","sth",3>>, <<"C1","rev",2>>} }
Honest == { x \in HonestInit \cup HonestF \cup HonestFull \cup HonestCon : x.shape \in Shapes }

-----------------------------------------------------------------------------
(* alterations *)
Types == {"STH_INIT","REV_INIT","ACC_INIT","CON_INIT","STH_FRAG","REV_FRAG","ACC_FRAG","STH_FULL","REV_FULL","ACC_FULL","BOGUS"}
Ents  == {"L1","L2","C1","C2","M1","X1",""}
StMut(s) ==
     { [s EXCEPT !.ent = e] : e \in {"L1","L2","C1","C2","X1",""} }
  \cup { [s EXCEPT !.ent = e, !.inS = e] : e \in {"L2","C2"} }
  \cup { [s EXCEPT !.kind = k] : k \in {"sth","rev","acc","junk","sthx","sthpre"} }
  \cup { [s EXCEPT !.inS = e] : e \in (IF s.kind = "sth" THEN {"L2","X1"} ELSE {}) }
  \cup { [s EXCEPT !.inP = p] : p \in (IF s.kind \in {"sth","rev"} THEN {"p2","","p1s","p1l"} ELSE {}) }
  \cup { [s EXCEPT !.v = v] : v \in (IF s.kind = "sth" THEN {2,3} ELSE IF s.kind = "rev" THEN {2} ELSE {}) }
  \cup { [s EXCEPT !.scheme = c] : c \in (IF s.kind = "rev" THEN {"CRL"} ELSE {}) }
(* the layout of the payload only exists in objects that carry the three fields *)
LayMut(s) == { [s EXCEPT !.lay = l] : l \in {"shift","tail"} }
SigMut(g) ==
     { [g EXCEPT !.form = f] : f \in {"empty","garbage","flip","swap","odd","short","long","recode"} }
  \cup { [g EXCEPT !.id = i] : i \in {"L1","L2","C1","M1","G1","G2","G4","X1",""} }
  \cup { [g EXCEPT !.key = k] : k \in {"L1","L2","C1","M1","G1","G2","X1"} }
  \cup { [g EXCEPT !.id = k, !.key = k] : k \in {"L2","C2","M2","G2","X1"} }
  \cup { [g EXCEPT !.text = s] : s \in StMut(g.text) }
Resign(x) == { [x EXCEPT !.signer = k, !.sig.id = k, !.sig.key = k] : k \in {"L2","C2","M1","M2","G1","G2","G4","X1"} }
(* the same key signs another statement: a signature of a dishonest but known entity *)
Restate(x) == { [x EXCEPT !.st = s, !.sig.text = s] : s \in StMut(x.st) }
Relabel(x) == { [x EXCEPT !.period = p] : p \in {"p2","","p1s","p1l"} } \cup { [x EXCEPT !.type = t] : t \in { u \in Types : ShapeOf(u) = x.shape } \cup {"BOGUS"} }

IdSeqs(ids) == { Append(ids, g) : g \in {"G1","G3","G4","X1"} } \cup { SubSeq(ids, 1, Len(ids)-1) : z \in IF Len(ids) > 0 THEN {1} ELSE {} }
               \cup { [ids EXCEPT ![i] = g] : i \in 1..Len(ids), g \in {"G1","G3","G4","X1"} }
FullSigMut(g) ==
     { [g EXCEPT !.form = f] : f \in {"empty","garbage","flip","odd","short","long","recode"} }
  \cup { [g EXCEPT !.ids = i] : i \in IdSeqs(g.ids) }
  \cup { [g EXCEPT !.contrib = i] : i \in IdSeqs(g.contrib) }
  \cup { [g EXCEPT !.ids = i, !.contrib = i] : i \in IdSeqs(g.ids) }
  \cup { [g EXCEPT !.text = s] : s \in StMut(g.text) }

Mut(x) ==
  CASE x.shape \in {"init","frag"} ->
         { [x EXCEPT !.st = s] : s \in StMut(x.st) \cup LayMut(x.st) } \cup { [x EXCEPT !.sig = g] : g \in SigMut(x.sig) }
         \cup { [x EXCEPT !.signer = e] : e \in {"L1","L2","C1","M1","G1","G2","G4","X1",""} }
         \cup Resign(x) \cup Restate(x) \cup Relabel(x)
    [] x.shape = "full" ->
         { [x EXCEPT !.st = s] : s \in StMut(x.st) \cup LayMut(x.st) } \cup { [x EXCEPT !.sig = g] : g \in FullSigMut(x.sig) }
         \cup { [x EXCEPT !.st = s, !.sig.text = s] : s \in StMut(x.st) } \cup Relabel(x)
    [] x.shape = "con" ->
         { [x EXCEPT !.st1 = s] : s \in StMut(x.st1) } \cup { [x EXCEPT !.st2 = s] : s \in StMut(x.st2) }
         \cup { [x EXCEPT !.st1 = s, !.sig1.text = s] : s \in StMut(x.st1) }
         \cup { [x EXCEPT !.st2 = s, !.sig2.text = s] : s \in StMut(x.st2) }
         \cup { [x EXCEPT !.st1 = s, !.sig1.text = s, !.st2 = [s EXCEPT !.v = x.st2.v], !.sig2.text = [s EXCEPT !.v = x.st2.v]] : s \in StMut(x.st1) }
         \cup { [x EXCEPT !.sig1 = g] : g \in SigMut(x.sig1) } \cup { [x EXCEPT !.sig2 = g] : g \in SigMut(x.sig2) }
         \cup { [x EXCEPT !.sig1 = [@ EXCEPT !.id = k, !.key = k], !.sig2 = [@ EXCEPT !.id = k, !.key = k]] : k \in {"L2","C1","M1","X1"} }
         \cup { [x EXCEPT !.st2 = x.st1, !.sig2 = x.sig1] }
         \cup { [x EXCEPT !.ent = e] : e \in Ents }
         \cup { [x EXCEPT !.period = p] : p \in {"p2","","p1s","p1l"} }
         \cup { [x EXCEPT !.st2 = x.st1, !.sig2 = [x.sig1 EXCEPT !.form = "recode"]] }

Init == o \in Honest /\ n = 0
Next == n < MaxMut /\ n' = n + 1 /\ o' \in Mut(o)
Spec == Init /\ [][Next]_<<o, n>>

View == o

-----------------------------------------------------------------------------
(* Soundness of the verdicts.  An adversary has the keys of X1 only, and sees what the honest entities signed: each
   honest logger and CA at most one statement per period (content 1), each gossiper only statements it saw.       *)
HonestText(k, s) ==
  CASE k \in Loggers  -> s.kind = "sth" /\ s.ent = k /\ s.inS = k /\ s.inP \in Periods /\ s.v = 1
    [] k \in CAs      -> s.kind = "rev" /\ s.ent = k /\ s.scheme = "CRV" /\ s.inP \in Periods /\ s.v = 1
    [] k \in Monitors -> s.kind = "acc" /\ s.ent \in {"L1","C1"}
    [] k \in KnownG   -> Text(s) \in {Text(Stmt("L1","sth","p1",1)), Text(Stmt("C1","rev","p1",1)), Text(Stmt("L1","acc","p1",1)), Text(Stmt("C1","acc","p1",1))}
    [] OTHER          -> TRUE
ProdSig(sg) == FormOK(sg.form) => HonestText(sg.key, sg.text)

NoForgery ==
  /\ o.shape \in {"init","frag"} /\ ProdSig(o.sig) /\ Valid(o)
       => /\ o.signer \in Known /\ HonestText(o.signer, o.st)
          /\ o.shape = "init" /\ o.type # "ACC_INIT" => o.st.ent = o.signer /\ o.st.inP = o.period
NoFalseConflict == o.shape = "con" /\ ProdSig(o.sig1) /\ ProdSig(o.sig2) => ~Valid(o)
ThresholdSound ==
  o.shape = "full" /\ Valid(o) => Cardinality({ g \in KnownG : Count(o.sig.contrib, g) > 0 }) >= T
HonestValid == n = 0 => Valid(o)
NotOpenHonest == n = 0 => ~Open(o)

Facet == CASE o.shape = "con" -> "con" [] o.shape = "full" -> (IF Text(o.sig.text) = Text(o.st) /\ StatementOK(o.type,o.period,o.st) THEN "threshold" ELSE "full")
           [] OTHER -> o.shape
Emit == IF Open(o) THEN TRUE ELSE PrintT(<<"@@", ToJson([o |-> o, x |-> Valid(o), facet |-> Facet])>>)
=============================================================================
