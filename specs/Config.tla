------------------------------- MODULE Config -------------------------------
(* The configuration generator: what the files of a generated network say once every entity has loaded its own.

   Generate writes the files of nl loggers, nc CAs and ng monitors and gossipers on one machine; Map replaces this machine by
   the addresses in an IP list.  Generating again starts over, whatever was there before.  After every step each entity loads its
   files; x is what it then knows.                                                                                 *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Params,   \* records [ng, t, nl, nc]: the networks generated
          Lists,    \* the IP lists: "tmpl" (as the template makes them), "own", "one", "apart"
          MaxGen,   \* times a network is generated in the same directory
          Subsets   \* "all": every set of gossipers signs; "few": sets around the threshold

VARIABLES net, list, ngen, hist
vars == <<net, list, ngen, hist>>

None == [ng |-> 0, t |-> 0, nl |-> 0, nc |-> 0]
Kinds == {"G", "M", "L", "C"}
Num(n, k) == CASE k = "L" -> n.nl [] k = "C" -> n.nc [] OTHER -> n.ng
Name(k, i) == k \o ToString(i)
Of(n, k) == { Name(k, i) : i \in 1..Num(n, k) }
All(n) == UNION { Of(n, k) : k \in Kinds }

(* where an entity runs.  The template gives a monitor and its gossiper the same machine. *)
Host(l, k, i) ==
  CASE l = "local" -> "localhost"
    [] l = "tmpl"  -> "10.0." \o (CASE k = "C" -> "1." \o ToString(i + 10) [] k = "L" -> "2." \o ToString(i + 40) [] OTHER -> "3." \o ToString(i + 98))
    [] l = "own"   -> "192.168." \o (CASE k = "C" -> "1." [] k = "L" -> "2." [] k = "M" -> "3." [] k = "G" -> "4.") \o ToString(250 - i)
    [] l = "one"   -> "7.7.7.7"
    [] l = "apart" -> "172.16." \o ToString(IF i % 2 = 0 THEN 1 ELSE 2) \o "." \o (CASE k = "C" -> "1" [] k = "L" -> "1" [] k = "M" -> "2" [] k = "G" -> "3")

(* what entity i of kind k knows after loading its files: where it is, with whom it talks, whom it can check *)
Knows(n, l, k, i) ==
  LET base == [host |-> Host(l, k, i), same |-> TRUE, keys |-> All(n), tkeys |-> Of(n, "G"), t |-> n.t, n |-> n.ng]
  IN CASE k = "G" -> base @@ [owner |-> Name("M", i), peers |-> Of(n, "G") \ {Name("G", i)}, gossipers |-> Of(n, "G"), monitors |-> Of(n, "M")]
       [] k = "M" -> base @@ [gossiper |-> Name("G", i), loggers |-> Of(n, "L"), cas |-> Of(n, "C")]
       [] k = "L" -> base @@ [cas |-> Of(n, "C"), loggers |-> Of(n, "L"), monitors |-> Of(n, "M"), gossipers |-> Of(n, "G")]
       [] k = "C" -> base @@ [cas |-> Of(n, "C"), loggers |-> Of(n, "L"), monitors |-> Of(n, "M"), gossipers |-> Of(n, "G"), submits |-> "loggers"]

Entities(n, l) == UNION { { [e |-> Name(k, i), k |-> Knows(n, l, k, i)] : i \in 1..Num(n, k) } : k \in Kinds }

(* the signature of a is accepted as a's by everyone, as anybody else's by nobody *)
Signs(n) == { [by |-> a, as |-> b, at |-> IF a = b THEN All(n) ELSE {}] : a \in All(n), b \in All(n) }

(* fragments of the gossipers in s make an endorsement that everyone accepts iff there are enough of them *)
Groups(n) == IF Subsets = "all" THEN SUBSET (1..n.ng)
             ELSE { 1..i : i \in {n.t, n.ng} \cup (IF n.t > 1 THEN {n.t - 1} ELSE {}) } \cup { (n.ng - i + 1)..n.ng : i \in {n.t} }
Endorses(n) == { [s |-> { Name("G", i) : i \in g }, at |-> IF Cardinality(g) >= n.t THEN All(n) ELSE {}] : g \in { h \in Groups(n) : h # {} } }

Seen(n, l) == [ent |-> Entities(n, l), sign |-> Signs(n), endorse |-> Endorses(n)]

Init == net = None /\ list = "none" /\ ngen = 0 /\ hist = <<>>
Do(a, x) == hist' = Append(hist, [a |-> a, x |-> x])

Generate(p) ==
  /\ ngen < MaxGen /\ ngen' = ngen + 1
  /\ net' = p /\ list' = "local"
  /\ Do([t |-> "generate", p |-> p], Seen(p, "local"))

IPs(l, n, k) == [ i \in 1..Num(n, k) |-> Host(l, k, i) ]
Map(l) ==
  /\ list = "local" /\ list' = l
  /\ Do([t |-> "map", l |-> l, p |-> net, ip |-> [G |-> IPs(l, net, "G"), M |-> IPs(l, net, "M"), L |-> IPs(l, net, "L"), C |-> IPs(l, net, "C")]], Seen(net, l))
  /\ UNCHANGED <<net, ngen>>

(* the key files of the crypto package, for gossipers only: generated, saved and read back *)
Keyfiles(p) ==
  /\ p.t >= 2 /\ p.nl = 1 /\ p.nc = 1 /\ ngen < MaxGen /\ ngen' = ngen + 1
  /\ LET n == [p EXCEPT !.nl = 0, !.nc = 0]
         gs == Of(n, "G")
     IN Do([t |-> "keyfiles", p |-> p],
           [ent |-> {}, sign |-> { [by |-> a, as |-> b, at |-> IF a = b THEN gs ELSE {}] : a \in gs, b \in gs },
            endorse |-> { [s |-> r.s, at |-> IF r.at = {} THEN {} ELSE gs] : r \in Endorses(n) }])
  /\ UNCHANGED <<net, list>>

Next == (\E p \in Params : Keyfiles(p)) \/ (\E p \in Params : Generate(p)) \/ (\E l \in Lists : Map(l))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the network described is closed, its monitors and gossipers are paired, and no two entities share an address of one kind *)
Known(n, l) == { e.k : e \in Entities(n, l) }
Closed == list # "none" => \A k \in Known(net, list) : k.keys = All(net) /\ k.tkeys = Of(net, "G")
Paired == list # "none" => \A e \in Entities(net, list), f \in Entities(net, list) :
            "owner" \in DOMAIN e.k /\ e.k.owner = f.e => f.k.gossiper = e.e
Enough == list # "none" => \E r \in Endorses(net) : r.at = All(net)
Emit == PrintT(<<"@@", ToJson(hist')>>)
=============================================================================
