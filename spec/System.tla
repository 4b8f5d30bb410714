------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* os-urlpattern as a state machine.                                       *)
(*                                                                         *)
(* A maker is loaded with URLs and, at any time and any number of times,   *)
(* asked for its clusters; a matcher is loaded with URL patterns and asked *)
(* which of them match a URL.  Several makers and matchers live in one     *)
(* process.  Everything a maker or a matcher answers is a function of its  *)
(* abstract state:                                                         *)
(*   mk[k] = [m: min_cluster_num,                                          *)
(*            urls: parsed URL -> set of the metas it was loaded with]     *)
(*   mt[k] = pattern -> metas it is bound to (at most one; a pattern is    *)
(*           known by its text with single slashes)                        *)
(* byId names the raw URLs (or metas) of the process: id -> parsed URL.    *)
(***************************************************************************)
EXTENDS Cluster

VARIABLES mk, mt

EmptyFun == [x \in {} |-> x]
NewMaker(m) == [m |-> m, urls |-> EmptyFun]
NewMatcher == EmptyFun
Set(f, k, v) == (k :> v) @@ f

Urls(k) == DOMAIN mk[k].urls

-----------------------------------------------------------------------------
(* Maker.                                                                  *)
\* x: set of at most one meta
LoadUrl(k, u, x) ==
    LET pu == ParseUrl(u)
        old == IF pu \in Urls(k) THEN mk[k].urls[pu] ELSE {}
    IN  /\ mk' = IF IsUrl(pu)
                 THEN Set(mk, k, [mk[k] EXCEPT !.urls = Set(mk[k].urls, pu, old \cup x)])
                 ELSE mk
        /\ UNCHANGED mt

\* What make answers in state s of a maker.
MakeReply(s) == MakeClusters(DOMAIN s.urls, s.m)

\* The metas of a cluster.
MetasOf(s, c) == UNION {s.urls[u] : u \in c.mem}

-----------------------------------------------------------------------------
(* Matcher.                                                                *)
PatKey(pp) == Pack(StructOf(pp), pp.comps)
LoadPattern(k, p, x) ==
    LET pp == ParsePattern(p)
        q == PatKey(pp)
    IN  /\ mt' = IF pp.ok
                 THEN Set(mt, k, Set(mt[k], q, IF x = {} /\ q \in DOMAIN mt[k] THEN mt[k][q] ELSE x))
                 ELSE mt
        /\ UNCHANGED mk

\* The patterns that match u in state s of a matcher.
MatchReply(s, u) ==
    LET pu == ParseUrl(u)
        pieces == PiecesOf(pu)
    IN  IF ~IsUrl(pu) THEN {}
        ELSE {p \in DOMAIN s : StrictMatch(ParsePattern(p), pu, pieces)}

\* Ranking: q is a best answer when no other answer is better.
BestReply(R) == {p \in R : \A q \in R : ~Better(ParsePattern(q), ParsePattern(p))}

Ask == UNCHANGED <<mk, mt>>
=============================================================================
