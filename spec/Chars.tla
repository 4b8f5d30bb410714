------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Character spaces (README "Character space").                            *)
(*                                                                         *)
(* Text is a sequence of code points.  Every legal character belongs to    *)
(* one character space; the space is named by an integer (`rule`) whose    *)
(* numeric order is the textual order of the rule in a rendered pattern:   *)
(* three major spaces 0-9, A-Z, a-z; every symbol is a space of its own,   *)
(* written as itself (Plain) or behind a backslash (Escaped).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

LB == 91   RB == 93   LC == 123  RC == 125  PLUS == 43  BS == 92
SLASH == 47  QM == 63  HASH == 35  AMP == 38  EQ == 61  SEMI == 59
TAB == 9  COLON == 58

Digit == 48..57
Upper == 65..90
Lower == 97..122
AlNum == Digit \cup Upper \cup Lower
\* % & _ @ # ; : , = < > ~ /
Plain == {37, 38, 95, 64, 35, 59, 58, 44, 61, 60, 62, 126, 47}
\* . + \ " ' ( ) [ ] { } * $ ^ ? | ! -
Escaped == {46, 43, 92, 34, 39, 40, 41, 91, 93, 123, 125, 42, 36, 94, 63, 124, 33, 45}
Legal == AlNum \cup Plain \cup Escaped

DIGIT == 48 * 256
UPPER == 65 * 256
LOWER == 97 * 256
PERCENT == 37 * 256
DOT == 92 * 256 + 46
Major == {DIGIT, UPPER, LOWER}
Mixable == Major \cup {PERCENT}

\* F forces TLC to evaluate a function once, not at every application.
F(f) == TLCEval(f)

RuleTab == F([c \in 0..127 |->
              CASE c \in Digit -> DIGIT
                [] c \in Upper -> UPPER
                [] c \in Lower -> LOWER
                [] c \in Plain -> c * 256
                [] c \in Escaped -> BS * 256 + c
                [] OTHER -> 0])

IsLegal(c) == IF c < 0 \/ c > 127 THEN FALSE ELSE RuleTab[c] # 0
RuleOf(c) == RuleTab[c]
AllLegal(s) == \A i \in 1..Len(s) : IsLegal(s[i])

\* How a rule is written inside brackets.
RuleText(r) == CASE r = DIGIT -> <<48, 45, 57>>
                 [] r = UPPER -> <<65, 45, 90>>
                 [] r = LOWER -> <<97, 45, 122>>
                 [] r \div 256 = BS -> <<BS, r % 256>>
                 [] OTHER -> <<r \div 256>>
RuleTexts == F([r \in {RuleTab[c] : c \in 0..127} \ {0} |-> RuleText(r)])

Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
JoinWith(ss, sep) ==
    IF Len(ss) = 0 THEN <<>>
    ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, Head(ss), Tail(ss))

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
FuzzyText(fz) == LET s == F(Sorted(fz)) IN Cat([i \in 1..Len(s) |-> RuleTexts[s[i]]])

\* [rules], [rules]{n}, [rules]+ (n < 0).
UnitText(fz, n) ==
    <<LB>> \o FuzzyText(fz) \o <<RB>> \o
    (IF n = 1 THEN <<>>
     ELSE IF n < 0 THEN <<PLUS>>
     ELSE <<LC>> \o Dec(n) \o <<RC>>)

Sum(f, S) == FoldSet(LAMBDA x, acc : f[x] + acc, 0, S)

\* 1-based index of the first element c of s at or after position i; 0 if none.
IndexFrom(s, c, i) ==
    LET I == {j \in i..Len(s) : s[j] = c} IN IF I = {} THEN 0 ELSE Min(I)
LastIndex(s, c) ==
    LET I == {j \in 1..Len(s) : s[j] = c} IN IF I = {} THEN 0 ELSE Max(I)

\* Split s on every occurrence of c, keeping empty parts.
Split(s, c) ==
    LET I == {j \in 1..Len(s) : s[j] = c}
        P == F(<<0>> \o Sorted(I) \o <<Len(s) + 1>>)
    IN  F([k \in 1..(Cardinality(I) + 1) |-> SubSeq(s, P[k] + 1, P[k + 1] - 1)])

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
=============================================================================
