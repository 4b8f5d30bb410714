------------------------------ MODULE Tallies -------------------------------
(***************************************************************************)
(* What the commands say about their input in the log: how many lines were *)
(* read, and what became of them.  A line is [t: text without surrounding  *)
(* white space, dec: whether its bytes are a text].                        *)
(***************************************************************************)
EXTENDS Patterns

LineUrl(x) == ParseUrl(x.t)
GoodUrl(x) == x.dec /\ IsUrl(LineUrl(x))
Slashed(x) == x.t # <<>> /\ x.t[1] = SLASH
GoodPattern(x) == x.dec /\ Slashed(x) /\ ParsePattern(x.t).ok
Count(ls, P(_)) == Cardinality({i \in 1..Len(ls) : P(ls[i])})
Empty(x) == x.t = <<>>

\* pattern-make
MakeTally(ls) ==
    [ALL |-> Len(ls), EMPTY |-> Count(ls, Empty), VALID |-> Count(ls, GoodUrl),
     INVALID |-> Count(ls, LAMBDA x : ~Empty(x) /\ ~GoodUrl(x)),
     UNIQ |-> Cardinality({LineUrl(ls[i]) : i \in {j \in 1..Len(ls) : GoodUrl(ls[j])}}), UNKNOW |-> 0]
\* pattern-match: of the pattern files
MatchTally(ps) ==
    [ALL |-> Len(ps), EMPTY |-> 0, VALID |-> Count(ps, GoodPattern),
     INVALID |-> Count(ps, LAMBDA x : Slashed(x) /\ ~GoodPattern(x)), UNIQ |-> 0,
     UNKNOW |-> Count(ps, LAMBDA x : ~Slashed(x))]
=============================================================================
