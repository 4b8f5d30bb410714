------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* Model checking of the system itself: every history of loads over small  *)
(* universes of URLs and patterns.  The properties are stated on what a    *)
(* maker or a matcher would answer in every reachable state.               *)
(* The file IOEnv.UNI lists the universes: [urls, pats, asks, ms] (texts   *)
(* as sequences of code points).                                           *)
(***************************************************************************)
EXTENDS System, Json, IOUtils

VARIABLE un
vars == <<mk, mt, un>>

Universes == JsonDeserialize(IOEnv.UNI)
UN == Universes[un]

Init == /\ un \in 1..Len(Universes)
        /\ \E i \in 1..Len(UN.ms) : mk = (1 :> NewMaker(UN.ms[i]))
        /\ mt = (1 :> NewMatcher)

Next == /\ UNCHANGED un
        /\ \/ \E i \in 1..Len(UN.urls) : LoadUrl(1, UN.urls[i], {i})
           \/ \E i \in 1..Len(UN.pats) : LoadPattern(1, UN.pats[i], {i})

Spec == Init /\ [][Next]_vars

R == MakeReply(mk[1])
U == Urls(1)
M == mk[1].m

\* C05
Partition ==
    LET r == F(R)
    IN  /\ UNION {c.mem : c \in r} = U
        /\ \A c \in r : c.mem # {}
        /\ \A c, d \in r : c # d => c.mem \cap d.mem = {}
\* C06
Sound == \A c \in R : LET pp == ParsePattern(c.pat) IN pp.ok /\ \A u \in c.mem : UrlRegexMatch(pp, u)
\* C07
Literal(pp) == \A i \in 1..Len(pp.units) : \A j \in 1..Len(pp.units[i]) : IsLiteral(pp.units[i][j])
EnoughOrLiteral ==
    \A c \in R : LET pp == ParsePattern(c.pat)
                 IN  IF Literal(pp)
                     THEN /\ Cardinality(c.mem) = 1
                          /\ \A u \in c.mem :
                               c.pat = Pack(StructOf(u), [i \in 1..Len(u.comps) |-> Piece(u.comps[i]).t])
                     ELSE Cardinality(c.mem) >= M
\* C08
OnePerPattern == LET r == F(R) IN Cardinality({c.pat : c \in r}) = Cardinality(r)
\* C11, C13: what is made is written canonically and strictly matches its members
RoundTrip ==
    \A c \in R : LET pp == ParsePattern(c.pat)
                 IN  /\ Canonical(pp)
                     /\ \A u \in c.mem : StrictMatch(pp, u, PiecesOf(u))
\* C24: a cluster made again from its own URLs is itself
Final == \A c \in R : MakeClusters(c.mem, M) = {c}
\* C20, C22: a signature is clustered as if it were alone
Isolated ==
    LET r == F(R)
        sigs == {Signature(u) : u \in U}
    IN  /\ \A c \in r : Cardinality({Signature(u) : u \in c.mem}) = 1
        /\ \A g \in sigs :
             LET V == {u \in U : Signature(u) = g}
             IN  MakeClusters(V, M) = {c \in r : c.mem \subseteq V}
\* C19: patterns as a tree: no pattern is a proper branch of another one
Branches(pp) == {SubSeq(pp.comps, 1, i) : i \in 0..Len(pp.comps)}
TreeShaped ==
    \A c, d \in R : LET p == ParsePattern(c.pat)
                        q == ParsePattern(d.pat)
                    IN  c # d /\ StructOf(p) = StructOf(q) => p.comps \notin Branches(q)
\* C21
Metas == UNION {MetasOf(mk[1], c) : c \in R} = UNION RangeOf(mk[1].urls)
\* The matcher.
Asked == UN.asks
\* C12
Strict ==
    \A i \in 1..Len(Asked) :
      LET pu == ParseUrl(Asked[i])
      IN  \A p \in MatchReply(mt[1], Asked[i]) :
            LET pp == ParsePattern(p)
            IN  /\ UrlRegexMatch(pp, pu)
                /\ \A j \in 1..Len(pu.comps) : FzOfUnits(pp.units[j]) = CharSpaces(pu.comps[j])
\* C14: the ranking is a strict partial order with a best answer
Ranking ==
    \A i \in 1..Len(Asked) :
      LET r == F(MatchReply(mt[1], Asked[i]))
          pp == F([p \in r |-> ParsePattern(p)])
          less == F([p \in r |-> [q \in r |-> Better(pp[p], pp[q])]])
      IN  /\ \A p \in r : ~less[p][p]
          /\ \A p, q \in r : less[p][q] => ~less[q][p]
          /\ \A p, q, s \in r : less[p][q] /\ less[q][s] => less[p][s]
          /\ r # {} => BestReply(r) # {}
\* C13: every answer was loaded, and stands on its own: it is answered by a
\* matcher with that pattern alone
Alone ==
    \A i \in 1..Len(Asked) :
      \A p \in MatchReply(mt[1], Asked[i]) :
        p \in DOMAIN mt[1] /\ MatchReply(p :> mt[1][p], Asked[i]) = {p}
\* C03, C15: what is refused is never there
OnlyRegular == /\ \A u \in U : IsUrl(u)
               /\ \A p \in DOMAIN mt[1] : ParsePattern(p).ok
=============================================================================
