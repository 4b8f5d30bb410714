------------------------------- MODULE Pieces -------------------------------
(***************************************************************************)
(* URL components ("pieces"): splitting into maximal runs of one character *)
(* space, the normal form, the literal length and the three ways of        *)
(* looking at a piece that clustering and matching share:                  *)
(*   Multi  - one part per run                                             *)
(*   Mixed  - consecutive 0-9 A-Z a-z % runs joined into one part          *)
(*   Ldsf   - everything before the last dot as one part, the dot, the     *)
(*            extension (last path level only)                             *)
(* A part is [t: normal text, len: literal length, fz: set of rules].      *)
(***************************************************************************)
EXTENDS Chars

RunText(r, chars) == IF r \in Major THEN chars ELSE UnitText({r}, Len(chars))

RunsOf(s) ==
    LET st == F(Sorted({i \in 1..Len(s) : i = 1 \/ RuleOf(s[i]) # RuleOf(s[i - 1])}))
        n  == Len(st)
    IN  F([j \in 1..n |->
           LET a == st[j]
               b == IF j = n THEN Len(s) ELSE st[j + 1] - 1
               r == RuleOf(s[a])
           IN  [t |-> RunText(r, SubSeq(s, a, b)), len |-> b - a + 1, fz |-> {r}]])

TextOf(parts) == Cat([i \in 1..Len(parts) |-> parts[i].t])
LenOf(parts) == FoldLeft(LAMBDA a, p : a + p.len, 0, parts)
FzOf(parts) == UNION {parts[i].fz : i \in 1..Len(parts)}
Join(parts) == [t |-> TextOf(parts), len |-> LenOf(parts), fz |-> FzOf(parts)]

\* The piece of a raw component.
Piece(s) ==
    LET rs == RunsOf(s)
    IN  F([t |-> TextOf(rs), len |-> Len(s), fz |-> FzOf(rs), runs |-> rs])

\* A part seen as a piece of its own: it is never split again.
AsPiece(part) == [t |-> part.t, len |-> part.len, fz |-> part.fz, runs |-> <<part>>]

Multi(p) == p.runs

IsMixRun(run) == run.fz \subseteq Mixable
MixRuns(rs) ==
    LET n  == Len(rs)
        st == F(Sorted({i \in 1..n : i = 1 \/ ~IsMixRun(rs[i]) \/ ~IsMixRun(rs[i - 1])}))
    IN  F([j \in 1..Len(st) |->
           Join(SubSeq(rs, st[j], IF j = Len(st) THEN n ELSE st[j + 1] - 1))])
Mixed(p) == MixRuns(p.runs)

\* The last dot counts only when at most two runs, all of the major spaces,
\* follow it.
Ldsf(p) ==
    LET rs == p.runs
        n  == Len(rs)
        D  == {i \in (IF n > 2 THEN n - 2 ELSE 1)..n : rs[i].fz = {DOT}}
        whole == <<[t |-> p.t, len |-> p.len, fz |-> p.fz]>>
    IN  IF D = {} THEN whole
        ELSE LET d == Max(D)
                 ext == SubSeq(rs, d + 1, n)
             IN  IF \E i \in 1..Len(ext) : ~(ext[i].fz \subseteq Major) THEN whole
                 ELSE <<Join(SubSeq(rs, 1, d - 1)), rs[d]>> \o MixRuns(ext)

\* The signature of a view: the rule sets of its parts, in order.
Sig(parts) == F([i \in 1..Len(parts) |-> parts[i].fz])
=============================================================================
