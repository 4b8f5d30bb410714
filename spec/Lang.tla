-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* Model checking of the two languages: all words over the tokens of an    *)
(* alphabet, up to a length.  IOEnv.UNI lists [pre, tokens, n].            *)
(***************************************************************************)
EXTENDS System, Json, IOUtils

VARIABLES un, w, n
vars == <<mk, mt, un, w, n>>
Universes == JsonDeserialize(IOEnv.UNI)

Init == /\ un \in 1..Len(Universes) /\ w = Universes[un].pre /\ n = 0
        /\ mk = EmptyFun /\ mt = EmptyFun
Next == /\ n < Universes[un].n /\ n' = n + 1
        /\ \E i \in 1..Len(Universes[un].tokens) : w' = w \o Universes[un].tokens[i]
        /\ UNCHANGED <<mk, mt, un>>
Spec == Init /\ [][Next]_vars
View == <<un, w>>

-----------------------------------------------------------------------------
(* URLs.                                                                   *)
Scheme == <<104, 116, 116, 112, 58, 47, 47, 104>> \* http://h
PU == ParseUrl(w)
Raw(u) == Scheme \o Cat([i \in 1..u.depth |-> <<SLASH>> \o u.comps[i]])
\* C01: keys and values account for the whole query; the host never matters
HostFree == LET u == PU
            IN  IsUrl(u) /\ StartsWith(w, Scheme)
                => ParseUrl(<<104, 116, 116, 112, 115, 58, 47, 47, 120, 46, 121, 58, 49>>
                            \o SubSeq(w, 9, Len(w))) = u
Shape == LET u == PU
         IN  IsUrl(u) => /\ u.depth >= 1
                         /\ Len(u.comps) = u.depth + Len(u.keys) + (IF u.frag THEN 1 ELSE 0)
                         /\ \A i \in 1..(u.depth - 1) : u.comps[i] # <<>>
\* a URL rebuilt from its levels has these levels
PathAgain == LET u == PU
                 v == ParseUrl(Raw(u))
             IN  IsUrl(u) /\ SEMI \notin UNION {Range(u.comps[i]) : i \in 1..u.depth}
                 => IsUrl(v) /\ v.depth = u.depth /\ v.comps = SubSeq(u.comps, 1, u.depth)
\* C02
Lossless ==
    LET u == PU
    IN  IsUrl(u) =>
        \A i \in 1..Len(u.comps) :
          LET s == u.comps[i]
              p == Piece(s)
              rs == p.runs
              from(j) == FoldLeft(LAMBDA a, r : a + r.len, 0, SubSeq(rs, 1, j - 1))
          IN  /\ LenOf(rs) = Len(s) /\ p.len = Len(s) /\ p.fz = CharSpaces(s)
              /\ \A j \in 1..(Len(rs) - 1) : rs[j].fz # rs[j + 1].fz
              /\ \A j \in 1..Len(rs) :
                   LET t == SubSeq(s, from(j) + 1, from(j) + rs[j].len)
                   IN  CharSpaces(t) = rs[j].fz /\ RunText(RuleOf(t[1]), t) = rs[j].t
\* the views cut the same text in other places
Views ==
    LET u == PU
    IN  IsUrl(u) =>
        \A i \in 1..Len(u.comps) :
          LET p == Piece(u.comps[i])
          IN  \A v \in {Multi(p), Mixed(p), Ldsf(p)} :
                TextOf(v) = p.t /\ LenOf(v) = p.len /\ FzOf(v) = p.fz
\* C11, C15: the literal text of a URL is a canonical pattern, of the same
\* structure, that matches it
LiteralReads ==
    LET u == PU
        t == Pack(StructOf(u), [i \in 1..Len(u.comps) |-> Piece(u.comps[i]).t])
        pp == ParsePattern(t)
    IN  IsUrl(u) => /\ Canonical(pp) /\ StructOf(pp) = StructOf(u)
                    /\ UrlRegexMatch(pp, u) /\ StrictMatch(pp, u, PiecesOf(u))
                    /\ \A i \in 1..Len(pp.units) : \A j \in 1..Len(pp.units[i]) : IsLiteral(pp.units[i][j])
\* C04: a literal pattern has the signature of its URL
LiteralSignature ==
    LET u == PU
        pp == ParsePattern(Pack(StructOf(u), [i \in 1..Len(u.comps) |-> Piece(u.comps[i]).t]))
    IN  IsUrl(u) => F([i \in 1..Len(pp.units) |-> FzOfUnits(pp.units[i])]) = Signature(u).fz
\* C03: the two ways of being refused
Refused == ~IsUrl(PU) => PU.why \in {"irregular", "char", "pattern"}

-----------------------------------------------------------------------------
(* URL patterns.                                                           *)
PP == ParsePattern(w)
\* the units of a component are its text, in order
UnitsAreText ==
    LET p == PP
    IN  p.ok => \A i \in 1..Len(p.units) : TextOfUnits(p.units[i]) = p.comps[i]
\* counts never contradict the spaces they count
UnitsCount ==
    LET p == PP
    IN  p.ok => \A i \in 1..Len(p.units) : \A j \in 1..Len(p.units[i]) :
                  LET x == p.units[i][j]
                  IN  x.num = -1 \/ x.num >= Cardinality(x.rules)
\* the key of a pattern is a pattern with that key
KeyAgain == LET p == PP IN p.ok => LET q == ParsePattern(PatKey(p)) IN q = p
\* a shortest text a unit stands for
OneOf(rs) == LET s == Sorted(rs)
             IN  [i \in 1..Len(s) |-> CHOOSE c \in Legal : RuleOf(c) = s[i]]
TextFor(x) ==
    IF ~x.b THEN x.t
    ELSE LET o == OneOf(x.rules)
             k == IF x.num < 0 THEN Len(o) ELSE x.num
         IN  o \o [i \in 1..(k - Len(o)) |-> o[1]]
\* every accepted pattern denotes something (as a regular expression)
Inhabited ==
    LET p == PP
    IN  p.ok => \A i \in 1..Len(p.units) :
                  LET us == p.units[i]
                      s == Cat([j \in 1..Len(us) |-> TextFor(us[j])])
                  IN  Len(s) < 40 => RegexMatch(us, s)
\* strictness: a component that matches is denoted and has all the spaces
StrictIsRegex ==
    LET p == PP
    IN  p.ok => \A i \in 1..Len(p.units) :
                  LET us == p.units[i]
                      s == Cat([j \in 1..Len(us) |-> TextFor(us[j])])
                  IN  Len(s) < 40 /\ CompMatch(us, i = p.depth, Piece(s)) /\ CanonUnits(us)
                      => RegexMatch(us, s) /\ CharSpaces(s) = FzOfUnits(us)
=============================================================================
