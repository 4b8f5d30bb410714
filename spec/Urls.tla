-------------------------------- MODULE Urls --------------------------------
(***************************************************************************)
(* URL structure (README "URL structure"): scheme, host and params are     *)
(* ignored; path levels, query keys (in order) and the existence of a      *)
(* fragment are the structure; path pieces, query values and the fragment  *)
(* are the components.                                                     *)
(***************************************************************************)
EXTENDS Pieces

SchemeChars == AlNum \cup {43, 45, 46}
\* Schemes whose last path segment may carry ;params
ParamSchemes ==
    { <<>>,
      <<104, 116, 116, 112>>, \* http
      <<104, 116, 116, 112, 115>>, \* https
      <<102, 116, 112>>, \* ftp
      <<104, 100, 108>>, \* hdl
      <<112, 114, 111, 115, 112, 101, 114, 111>>, \* prospero
      <<115, 104, 116, 116, 112>>, \* shttp
      <<114, 116, 115, 112>>, \* rtsp
      <<114, 116, 115, 112, 117>>, \* rtspu
      <<115, 105, 112>>, \* sip
      <<115, 105, 112, 115>>, \* sips
      <<109, 109, 115>>, \* mms
      <<115, 102, 116, 112>>, \* sftp
      <<116, 101, 108>> } \* tel
LowerCase(s) == [i \in 1..Len(s) |-> IF s[i] \in Upper THEN s[i] + 32 ELSE s[i]]

\* Length of the scheme, 0 if the string has none.
SchemeLen(u) ==
    LET i == IndexFrom(u, COLON, 1)
    IN  IF i > 1 /\ (u[1] \in Upper \cup Lower)
           /\ \A j \in 1..(i - 1) : u[j] \in SchemeChars
        THEN i - 1 ELSE 0

\* What is left of the host: position of the first character of path, query
\* or fragment.
RestOf(u) ==
    LET n == SchemeLen(u)
        a == IF n = 0 THEN u ELSE SubSeq(u, n + 2, Len(u))
    IN  IF StartsWith(a, <<SLASH, SLASH>>)
        THEN LET D == {j \in 3..Len(a) : a[j] \in {SLASH, QM, HASH}}
             IN  IF D = {} THEN <<>> ELSE SubSeq(a, Min(D), Len(a))
        ELSE a

HasParams(u) == LowerCase(SubSeq(u, 1, SchemeLen(u))) \in ParamSchemes

CutParams(path) ==
    LET i == IndexFrom(path, SEMI, LastIndex(path, SLASH) + 1)
    IN  IF i = 0 THEN path ELSE SubSeq(path, 1, i - 1)

\* [ok, keys, values] of a query string (without the question mark).
\* Shared by URLs and URL patterns.
ParseQuery(q) ==
    LET items == Split(q, AMP)
        n == Len(items)
        eq == F([i \in 1..n |-> IndexFrom(items[i], EQ, 1)])
    IN  IF q = <<>> THEN [ok |-> TRUE, keys |-> <<<<>>>>, values |-> <<<<>>>>]
        ELSE IF \E i \in 1..n : items[i] = <<>>
        THEN [ok |-> FALSE, keys |-> <<>>, values |-> <<>>]
        ELSE IF n = 1 /\ eq[1] = 0
        THEN [ok |-> TRUE, keys |-> <<<<>>>>, values |-> items]
        ELSE [ok |-> TRUE,
              keys |-> F([i \in 1..n |-> IF eq[i] = 0 THEN items[i]
                                       ELSE SubSeq(items[i], 1, eq[i])]),
              values |-> F([i \in 1..n |-> IF eq[i] = 0 THEN <<>>
                                         ELSE SubSeq(items[i], eq[i] + 1, Len(items[i]))])]

\* Path levels: what follows the first slash, split on slashes; only the last
\* level may be empty.
PathLevels(path) ==
    LET parts == Tail(Split(path, SLASH))
        n == Len(parts)
        keep == F(Sorted({i \in 1..n : i = n \/ parts[i] # <<>>}))
    IN  F([j \in 1..Len(keep) |-> parts[keep[j]]])

\* Path, query and fragment of the text behind the host; mark is the text of
\* the question mark ("?" in a URL, "[\?]" in a URL pattern).
IndexOf(s, m) ==
    LET I == {j \in 1..(Len(s) - Len(m) + 1) : s[j] = m[1] /\ SubSeq(s, j, j + Len(m) - 1) = m}
    IN  IF I = {} THEN 0 ELSE Min(I)
Sections(rest, mark) ==
    LET h == IndexFrom(rest, HASH, 1)
        body == IF h = 0 THEN rest ELSE SubSeq(rest, 1, h - 1)
        q == IndexOf(body, mark)
    IN  [path |-> IF q = 0 THEN body ELSE SubSeq(body, 1, q - 1),
         hasq |-> q # 0,
         query |-> IF q = 0 THEN <<>> ELSE SubSeq(body, q + Len(mark), Len(body)),
         hasf |-> h # 0,
         frag |-> IF h = 0 THEN <<>> ELSE SubSeq(rest, h + 1, Len(rest))]

\* Query keys are compared in normal form, with the equals sign kept.
KeyText(k) ==
    IF k # <<>> /\ k[Len(k)] = EQ
    THEN TextOf(RunsOf(SubSeq(k, 1, Len(k) - 1))) \o <<EQ>>
    ELSE TextOf(RunsOf(k))

NoUrl(why) == [why |-> why, depth |-> 0, keys |-> <<>>, frag |-> FALSE, comps |-> <<>>]

\* Tabs and line ends are legal nowhere in a URL.
Broken(u) == \E i \in 1..Len(u) : u[i] \in {9, 10, 13}

\* why = "" for a regular URL, otherwise the reason of the rejection.
ParseUrl(u) ==
    LET s == Sections(RestOf(u), <<QM>>)
        path == IF HasParams(u) THEN CutParams(s.path) ELSE s.path
        levels == PathLevels(path)
        qr == IF s.hasq THEN ParseQuery(s.query)
              ELSE [ok |-> TRUE, keys |-> <<>>, values |-> <<>>]
        comps == F(levels \o qr.values \o (IF s.hasf THEN <<s.frag>> ELSE <<>>))
    IN  IF u # <<>> /\ u[1] = SLASH THEN NoUrl("pattern")
        ELSE IF Broken(u) THEN NoUrl("char")
        ELSE IF levels = <<>> THEN NoUrl("irregular")
        ELSE IF ~qr.ok THEN NoUrl("irregular")
        ELSE IF \E i \in 1..Len(qr.keys) : ~AllLegal(qr.keys[i]) THEN NoUrl("char")
        ELSE IF \E i \in 1..Len(comps) : ~AllLegal(comps[i]) THEN NoUrl("char")
        ELSE [why |-> "", depth |-> Len(levels),
              keys |-> F([i \in 1..Len(qr.keys) |-> KeyText(qr.keys[i])]),
              frag |-> s.hasf, comps |-> comps]

IsUrl(pu) == pu.why = ""
StructOf(pu) == [depth |-> pu.depth, keys |-> pu.keys, frag |-> pu.frag]
\* What the fuzzy digest identifies: the structure and, per component, the
\* set of character spaces.
Signature(pu) ==
    [st |-> StructOf(pu),
     fz |-> F([i \in 1..Len(pu.comps) |-> {RuleOf(pu.comps[i][j]) : j \in 1..Len(pu.comps[i])}])]
=============================================================================
