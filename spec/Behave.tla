------------------------------- MODULE Behave -------------------------------
(***************************************************************************)
(* Behaviours of the system, generated by TLC (-simulate) to be replayed   *)
(* into the real code: two makers and a matcher under any interleaving of  *)
(* loads, makes, abandoned makes, combined trees, matches, and patterns    *)
(* the specification itself makes being loaded.  IOEnv.UNI lists universes *)
(* [urls, pats, ms]; IOEnv.DEPTH is the length of a behaviour.             *)
(***************************************************************************)
EXTENDS System, Json, IOUtils

VARIABLES un, hist
vars == <<mk, mt, un, hist>>

Universes == JsonDeserialize(IOEnv.UNI)
UN == Universes[un]
Depth == atoi(IOEnv.DEPTH)

Init == /\ un \in 1..Len(Universes)
        /\ mk = F([k \in 1..2 |-> NewMaker(UN.ms[k])])
        /\ mt = (1 :> NewMatcher)
        /\ hist = <<>>

Log(o, k, i, p) == hist' = Append(hist, [op |-> o, k |-> k, i |-> i, p |-> p])
Keep == UNCHANGED un /\ Len(hist) < Depth

Load(k) == /\ \E i \in 1..Len(UN.urls) : LoadUrl(k, UN.urls[i], {i}) /\ Log("load", k, i, <<>>)
           /\ Keep
Load1 == Load(1)
Load1Again == Load(1)
Load2 == Load(2)
Make(k) == Urls(k) # {} /\ Ask /\ Log("make", k, 0, <<>>) /\ Keep
Make1 == Make(1)
Make2 == Make(2)
GiveUp == \E k \in 1..2 : Urls(k) # {} /\ Ask /\ Log("giveup", k, 0, <<>>) /\ Keep
Combine == \E k \in 1..2 : Urls(k) # {} /\ Ask /\ Log("combine", k, 0, <<>>) /\ Keep
LoadPat == \E i \in 1..Len(UN.pats) :
             LoadPattern(1, UN.pats[i], {i}) /\ Log("loadp", 1, i, UN.pats[i]) /\ Keep
\* a pattern the specification makes
LoadMade == /\ Len(hist) % 6 = 5 /\ Keep
            /\ \E k \in 1..2 : \E c \in MakeReply(mk[k]) :
                 LoadPattern(1, c.pat, {100}) /\ Log("loadp", 1, 0, c.pat)
Match == \E i \in 1..Len(UN.urls) : Ask /\ Log("match", 1, i, <<>>) /\ Keep

Next == Load1 \/ Load1Again \/ Load2 \/ Make1 \/ Make2 \/ GiveUp \/ Combine
        \/ LoadPat \/ LoadMade \/ Match
Spec == Init /\ [][Next]_vars

Emit == Len(hist) < Depth \/ PrintT("BEHAVIOUR " \o ToJson([un |-> un, hist |-> hist]))
=============================================================================
