------------------------------ MODULE Patterns ------------------------------
(***************************************************************************)
(* The URL pattern language: grammar, regular-expression denotation, the   *)
(* strict matching relation and the ranking of matched patterns.           *)
(*                                                                         *)
(*   component ::= unit*                                                   *)
(*   unit      ::= maximal literal run of one major space                  *)
(*               | "[" rule+ "]" ( "" | "{" digits "}" | "+" )             *)
(* A unit is [b: bracketed, t: text, rules: set, num: n or -1].            *)
(***************************************************************************)
EXTENDS Urls

QMARK == <<LB, BS, QM, RB>>

\* Rules of a bracket, from position i on: [ok, rules, next].
RECURSIVE RulesFrom(_, _, _)
RulesFrom(s, i, acc) ==
    IF i > Len(s) THEN [ok |-> FALSE, rules |-> {}, next |-> 0]
    ELSE IF s[i] = RB THEN [ok |-> acc # {}, rules |-> acc, next |-> i + 1]
    ELSE IF s[i] \in AlNum
    THEN LET w == SubSeq(s, i, IF i + 2 <= Len(s) THEN i + 2 ELSE Len(s))
             R == {r \in Major : RuleTexts[r] = w}
         IN  IF R = {} THEN [ok |-> FALSE, rules |-> {}, next |-> 0]
             ELSE RulesFrom(s, i + 3, acc \cup R)
    ELSE IF s[i] = BS
    THEN IF i < Len(s) /\ s[i + 1] \in Escaped
         THEN RulesFrom(s, i + 2, acc \cup {BS * 256 + s[i + 1]})
         ELSE [ok |-> FALSE, rules |-> {}, next |-> 0]
    ELSE IF s[i] \in Plain THEN RulesFrom(s, i + 1, acc \cup {s[i] * 256})
    ELSE [ok |-> FALSE, rules |-> {}, next |-> 0]

NumOf(s) == FoldLeft(LAMBDA a, d : IF a > 100000 THEN a ELSE a * 10 + (d - 48), 0, s)
BadUnits == [ok |-> FALSE, units |-> <<>>]

RECURSIVE UnitsFrom(_, _, _)
UnitsFrom(s, i, acc) ==
    IF i > Len(s) THEN [ok |-> TRUE, units |-> acc]
    ELSE IF s[i] \in AlNum
    THEN LET E == {j \in i..Len(s) : j = Len(s) \/ s[j + 1] \notin AlNum
                                      \/ RuleOf(s[j + 1]) # RuleOf(s[i])}
             e == Min(E)
         IN  UnitsFrom(s, e + 1, Append(acc,
                [b |-> FALSE, t |-> SubSeq(s, i, e), rules |-> {RuleOf(s[i])},
                 num |-> e - i + 1]))
    ELSE IF s[i] = LB
    THEN LET rr == RulesFrom(s, i + 1, {})
             n == rr.next
         IN  IF ~rr.ok THEN BadUnits
             ELSE IF n <= Len(s) /\ s[n] = PLUS
             THEN UnitsFrom(s, n + 1, Append(acc,
                    [b |-> TRUE, t |-> SubSeq(s, i, n), rules |-> rr.rules, num |-> -1]))
             ELSE IF n <= Len(s) /\ s[n] = LC
             THEN LET c == IndexFrom(s, RC, n + 1)
                      ds == SubSeq(s, n + 1, c - 1)
                  IN  IF c = 0 \/ ds = <<>> \/ (\E j \in 1..Len(ds) : ds[j] \notin Digit)
                         \/ NumOf(ds) < Cardinality(rr.rules)
                      THEN BadUnits
                      ELSE UnitsFrom(s, c + 1, Append(acc,
                             [b |-> TRUE, t |-> SubSeq(s, i, c), rules |-> rr.rules,
                              num |-> NumOf(ds)]))
             ELSE IF Cardinality(rr.rules) > 1 THEN BadUnits
             ELSE UnitsFrom(s, n, Append(acc,
                    [b |-> TRUE, t |-> SubSeq(s, i, n - 1), rules |-> rr.rules, num |-> 1]))
    ELSE BadUnits

\* An empty component is one empty literal unit.
Units(s) == IF s = <<>>
            THEN [ok |-> TRUE, units |-> <<[b |-> FALSE, t |-> <<>>, rules |-> {}, num |-> 1]>>]
            ELSE UnitsFrom(s, 1, <<>>)

NoPattern == [ok |-> FALSE, depth |-> 0, keys |-> <<>>, frag |-> FALSE, comps |-> <<>>, units |-> <<>>]

ParsePattern(s) ==
    LET x == Sections(s, QMARK)
        levels == PathLevels(x.path)
        qr == IF x.hasq THEN ParseQuery(x.query)
              ELSE [ok |-> TRUE, keys |-> <<>>, values |-> <<>>]
        comps == F(levels \o qr.values \o (IF x.hasf THEN <<x.frag>> ELSE <<>>))
        us == F([i \in 1..Len(comps) |-> Units(comps[i])])
    IN  IF s = <<>> \/ s[1] # SLASH \/ ~qr.ok \/ levels = <<>> THEN NoPattern
        ELSE IF \E i \in 1..Len(us) : ~us[i].ok THEN NoPattern
        ELSE [ok |-> TRUE, depth |-> Len(levels), keys |-> qr.keys, frag |-> x.hasf,
              comps |-> comps, units |-> F([i \in 1..Len(us) |-> us[i].units])]

-----------------------------------------------------------------------------
(* Regular-expression denotation: the set of positions of s reachable from *)
(* the positions P by one unit.                                            *)
In(c, rules) == RuleOf(c) \in rules
Reach(u, s, P) ==
    IF ~u.b THEN {p + Len(u.t) : p \in {p \in P : p + Len(u.t) <= Len(s)
                                          /\ SubSeq(s, p + 1, p + Len(u.t)) = u.t}}
    ELSE IF u.num > 0
    THEN {p + u.num : p \in {p \in P : p + u.num <= Len(s)
                               /\ \A k \in (p + 1)..(p + u.num) : In(s[k], u.rules)}}
    ELSE UNION {{e \in (p + 1)..Len(s) : \A k \in (p + 1)..e : In(s[k], u.rules)} : p \in P}

RegexMatch(units, s) ==
    Len(s) \in FoldLeft(LAMBDA P, u : Reach(u, s, P), {0}, units)

\* A URL pattern as a regular expression over the components of a URL of the
\* same structure.
UrlRegexMatch(pp, pu) ==
    /\ pp.ok /\ IsUrl(pu)
    /\ pp.depth = pu.depth /\ pp.keys = pu.keys /\ pp.frag = pu.frag
    /\ Len(pp.comps) = Len(pu.comps)
    /\ \A i \in 1..Len(pu.comps) : RegexMatch(pp.units[i], pu.comps[i])

FzOfUnits(us) == UNION {us[i].rules : i \in 1..Len(us)}
CharSpaces(s) == {RuleOf(s[j]) : j \in 1..Len(s)}

-----------------------------------------------------------------------------
(* Strict matching.                                                        *)
IsLiteral(u) == ~u.b \/ (Cardinality(u.rules) = 1 /\ u.num > 0 /\ u.rules \cap Major = {})

UnitKind(u) == IF IsLiteral(u) THEN "piece" ELSE IF u.num < 0 THEN "fuzzy" ELSE "length"

\* Can the pattern only have come from looking at prefix . extension?
LastDotSplit(us, kind) ==
    LET ext == SubSeq(us, 3, Len(us))
        lit == \A i \in 1..Len(ext) : IsLiteral(ext[i])
    IN  /\ us[2].rules = {DOT}
        /\ \A i \in 1..Len(ext) : ext[i].rules \subseteq Major
        /\ IF lit THEN Len(ext) = 1 \/ (kind = "mixed" /\ Len(ext) <= 2)
           ELSE /\ Len(ext) = 1
                /\ \/ kind = "multi"
                   \/ Cardinality(us[1].rules) > 1 /\ ~(us[1].rules \subseteq Mixable)

Kind(us, last) ==
    IF Len(us) = 1 THEN UnitKind(us[1])
    ELSE IF \A i \in 1..Len(us) : IsLiteral(us[i]) THEN "piece"
    ELSE LET k == IF \E i \in 1..Len(us) : ~IsLiteral(us[i]) /\ Cardinality(us[i].rules) > 1
                  THEN "mixed" ELSE "multi"
         IN  IF last /\ LastDotSplit(us, k) THEN "ldsf" ELSE k

\* Consecutive literal units of the mixable spaces stand for one part.
Groups(us, kind) ==
    LET n == Len(us)
        glue(i) == IsLiteral(us[i]) /\ us[i].rules \subseteq Mixable
        st == F(IF kind = "multi" THEN [i \in 1..n |-> i]
                ELSE Sorted({i \in 1..n : i = 1 \/ ~glue(i) \/ ~glue(i - 1)}))
    IN  F([j \in 1..Len(st) |-> SubSeq(us, st[j], IF j = Len(st) THEN n ELSE st[j + 1] - 1)])

TextOfUnits(us) == Cat([i \in 1..Len(us) |-> us[i].t])

\* One group of units against one part.
PartMatch(g, part) ==
    /\ FzOfUnits(g) = part.fz
    /\ IF Len(g) = 1 /\ ~IsLiteral(g[1])
       THEN g[1].num < 0 \/ g[1].num = part.len
       ELSE TextOfUnits(g) = part.t

CompMatch(us, last, p) ==
    LET k == Kind(us, last)
    IN  /\ FzOfUnits(us) = p.fz
        /\ CASE k = "piece" -> TextOfUnits(us) = p.t
             [] k = "length" -> us[1].num = p.len
             [] k = "fuzzy" -> TRUE
             [] OTHER ->
                  LET parts == CASE k = "multi" -> Multi(p)
                                 [] k = "mixed" -> Mixed(p)
                                 [] k = "ldsf" -> Ldsf(p)
                      gs == Groups(us, k)
                  IN  /\ Len(gs) = Len(parts)
                      /\ \A i \in 1..Len(gs) : PartMatch(gs[i], parts[i])

\* pieces: Piece of every component of the URL
StrictMatch(pp, pu, pieces) ==
    /\ pp.ok /\ IsUrl(pu)
    /\ pp.depth = pu.depth /\ pp.keys = pu.keys /\ pp.frag = pu.frag
    /\ Len(pp.comps) = Len(pu.comps)
    /\ \A i \in 1..Len(pu.comps) : CompMatch(pp.units[i], i = pp.depth, pieces[i])

PiecesOf(pu) == F([i \in 1..Len(pu.comps) |-> Piece(pu.comps[i])])

\* Patterns in the spelling pattern-make uses: rules sorted, {n} only for
\* n > 1, no sign run cut in two.
CanonUnit(u) == ~u.b \/ u.t = UnitText(u.rules, u.num)
CanonUnits(us) ==
    /\ \A i \in 1..Len(us) : CanonUnit(us[i])
    /\ \A i \in 2..Len(us) : ~(us[i].rules = us[i - 1].rules /\ Cardinality(us[i].rules) = 1)
Canonical(pp) == pp.ok /\ \A i \in 1..Len(pp.units) : CanonUnits(pp.units[i])

-----------------------------------------------------------------------------
(* Ranking of matched patterns: the last component that differs decides;   *)
(* the more literal kind wins, then the more literal units from the right. *)
KindOrder == [piece |-> 0, multi |-> 1, mixed |-> 2, ldsf |-> 3, length |-> 4, fuzzy |-> 5]

CmpKey(us) == LET n == Len(us) IN [i \in 1..n |-> KindOrder[UnitKind(us[n + 1 - i])]]

\* lexicographic a < b
LexLess(a, b) ==
    LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        D == {i \in 1..m : a[i] # b[i]}
    IN  IF D = {} THEN Len(a) < Len(b) ELSE a[Min(D)] < b[Min(D)]

CompBetter(us, vs, last) ==
    LET ku == Kind(us, last)
        kv == Kind(vs, last)
    IN  IF ku = kv THEN LexLess(CmpKey(us), CmpKey(vs))
        ELSE KindOrder[ku] < KindOrder[kv]

\* pp ranks before qq (both of one structure)
Better(pp, qq) ==
    LET D == {i \in 1..Len(pp.comps) : pp.comps[i] # qq.comps[i]}
    IN  D # {} /\ CompBetter(pp.units[Max(D)], qq.units[Max(D)], Max(D) = pp.depth)
=============================================================================
