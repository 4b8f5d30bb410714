------------------------------- MODULE Tally --------------------------------
(***************************************************************************)
(* The two commands as they read: line by line, counting as they go, with  *)
(* what was loaded so far at hand.  The counts at any moment are those of  *)
(* the lines read so far (Tallies), they add up, and refused lines load    *)
(* nothing.  IOEnv.UNI: [lines, dec, n].                                   *)
(***************************************************************************)
EXTENDS Tallies, Json, IOUtils

VARIABLES un, which, read, tree, stats, warned
vars == <<un, which, read, tree, stats, warned>>

Universes == JsonDeserialize(IOEnv.UNI)
U == Universes[un]
Lines == {[t |-> U.lines[i], dec |-> U.dec[i]] : i \in 1..Len(U.lines)}
Zero == [ALL |-> 0, EMPTY |-> 0, VALID |-> 0, INVALID |-> 0, UNIQ |-> 0, UNKNOW |-> 0]
Plus(s, ks) == [k \in DOMAIN s |-> IF k \in ks THEN s[k] + 1 ELSE s[k]]

Init == /\ un \in 1..Len(Universes) /\ which \in {"make", "match"} /\ read = <<>>
        /\ tree = {} /\ stats = Zero /\ warned = 0

ReadUrl(x) ==
    /\ which = "make"
    /\ IF Empty(x) THEN stats' = Plus(stats, {"ALL", "EMPTY"}) /\ UNCHANGED <<tree, warned>>
       ELSE IF ~GoodUrl(x) THEN stats' = Plus(stats, {"ALL", "INVALID"}) /\ warned' = warned + 1 /\ UNCHANGED tree
       ELSE /\ stats' = Plus(stats, {"ALL", "VALID"} \cup IF LineUrl(x) \in tree THEN {} ELSE {"UNIQ"})
            /\ tree' = tree \cup {LineUrl(x)} /\ UNCHANGED warned

ReadPattern(x) ==
    /\ which = "match"
    /\ IF ~Slashed(x) THEN stats' = Plus(stats, {"ALL", "UNKNOW"}) /\ UNCHANGED <<tree, warned>>
       ELSE IF ~GoodPattern(x) THEN stats' = Plus(stats, {"ALL", "INVALID"}) /\ warned' = warned + 1 /\ UNCHANGED tree
       ELSE stats' = Plus(stats, {"ALL", "VALID"}) /\ tree' = tree \cup {x.t} /\ UNCHANGED warned

Next == /\ Len(read) < U.n
        /\ \E x \in Lines : read' = Append(read, x) /\ (ReadUrl(x) \/ ReadPattern(x))
        /\ UNCHANGED <<un, which>>
Spec == Init /\ [][Next]_vars

Exact == stats = IF which = "make" THEN MakeTally(read) ELSE MatchTally(read)
AddsUp == /\ stats.ALL = stats.EMPTY + stats.UNKNOW + stats.VALID + stats.INVALID
          /\ warned = stats.INVALID
Loaded == IF which = "make" THEN Cardinality(tree) = stats.UNIQ ELSE Cardinality(tree) <= stats.VALID
=============================================================================
