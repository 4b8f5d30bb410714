-------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties, clause by clause.  Every operator takes a recorded      *)
(* event and gives the names of the clauses the observed answer breaks in  *)
(* the state before the event ({}: the property holds).                    *)
(*                                                                         *)
(* Observed clusters: [pat: text, cnt: number, mem: sequence of metas].    *)
(* Metas are numbers: n > 0 is the identity of a raw URL (byId gives its   *)
(* parsed form, raw its text), n < 0 a tag shared by several URLs.         *)
(* seen records what the process answered before, by abstract state.       *)
(***************************************************************************)
EXTENDS System, Tallies

VARIABLES byId, raw, seen

CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Bagged(s) == {[x |-> y, n |-> CountIn(s, y)] : y \in ToSet(s)}
If(cond, clause) == IF cond THEN {clause} ELSE {}
Ids(k) == UNION RangeOf(mk[k].urls)
Known(c) == {i \in ToSet(c.mem) : i \in DOMAIN byId}
Mem(c) == {byId[i] : i \in Known(c)}
Sub(s) == 1..Len(s)
Fun(S, Op(_)) == F([x \in S |-> Op(x)])

\* An answer, free of the order in which it was given.
Norm(cl) == {[pat |-> cl[j].pat, cnt |-> cl[j].cnt, mem |-> Mem(cl[j])] : j \in Sub(cl)}
Failed(e) == e.exc # ""
\* The same answer where some URLs have no metadata.
Bare(k, cs) == {[pat |-> c.pat, cnt |-> c.cnt, mem |-> {u \in c.mem : mk[k].urls[u] # {}}] : c \in cs}

\* --- answers as a function of the abstract state
Before(t, key) == key \in DOMAIN seen[t]
Same(t, key, val) == ~Before(t, key) \/ seen[t][key] = val
Remember(t, key, val) ==
    IF Before(t, key) THEN seen ELSE [seen EXCEPT ![t] = Set(seen[t], key, val)]
Nothing == [t \in {"make", "iso", "ete", "match", "rank", "digest", "final", "calm", "quiet"} |-> EmptyFun]

MakeKey(k) == <<mk[k].m, Urls(k)>>

-----------------------------------------------------------------------------
(* C01 - URL structure.                                                    *)
C01(e) ==
    CASE e.op = "parse" ->
           LET pu == ParseUrl(e.u)
           IN  IF ~IsUrl(pu) THEN {}
               ELSE IF Failed(e) THEN {"refused"}
               ELSE If(e.depth # pu.depth, "path levels")
                    \cup If(e.keys # pu.keys, "query keys")
                    \cup If(e.frag # pu.frag, "fragment")
                    \cup If(Len(e.comps) # Len(pu.comps), "component count")
                    \cup If(Len(e.comps) = Len(pu.comps) /\
                            \E i \in Sub(e.comps) : e.comps[i].t # Piece(pu.comps[i]).t,
                            "component")
      [] e.op = "parsep" ->
           LET pp == ParsePattern(e.p)
           IN  IF ~pp.ok THEN {}
               ELSE IF Failed(e) THEN {"refused pattern"}
               ELSE If(e.depth # pp.depth, "path levels of pattern")
                    \cup If(e.keys # pp.keys, "query keys of pattern")
                    \cup If(e.frag # pp.frag, "fragment of pattern")
                    \cup If([i \in Sub(e.comps) |-> e.comps[i].t] # pp.comps, "component of pattern")
      [] OTHER -> {}

(* C02 - splitting into character spaces.                                  *)
C02(e) ==
    IF e.op # "parse" \/ Failed(e) THEN {}
    ELSE LET pu == ParseUrl(e.u)
             bad(i) ==
               LET p == Piece(pu.comps[i])
                   o == e.comps[i]
               IN  If(o.len # Len(pu.comps[i]), "length")
                   \cup If(o.fz # FuzzyText(p.fz), "character spaces")
                   \cup If(Len(o.runs) # Len(p.runs), "runs")
                   \cup If(o.t # p.t, "text")
                   \cup If(Len(o.runs) = Len(p.runs) /\
                           \E j \in Sub(o.runs) : \/ o.runs[j].t # p.runs[j].t
                                                  \/ o.runs[j].r # FuzzyText(p.runs[j].fz),
                           "run")
         IN  IF ~IsUrl(pu) \/ Len(e.comps) # Len(pu.comps) THEN {}
             ELSE UNION {bad(i) : i \in Sub(e.comps)}

PatternErrors == {"InvalidPatternException", "IrregularURLException", "InvalidCharException", "ValueError"}
Answer(e) == {q \in DOMAIN mt[e.k] : mt[e.k][q] \cap ToSet(e.ms) # {}}
MatchKey(e) == <<DOMAIN mt[e.k], ParseUrl(e.u)>>
(* C03 - irregular URLs are refused, without a trace.                      *)
Why(u) ==
    LET s == Sections(RestOf(u), <<QM>>)
        path == IF HasParams(u) THEN CutParams(s.path) ELSE s.path
        levels == PathLevels(path)
        qr == IF s.hasq THEN ParseQuery(s.query)
              ELSE [ok |-> TRUE, keys |-> <<>>, values |-> <<>>]
        shape == levels = <<>> \/ ~qr.ok
        \* every piece of the text the URL keeps
        txt == Cat(levels) \o (IF s.hasq THEN s.query ELSE <<>>) \o s.frag
    IN  IF u # <<>> /\ u[1] = SLASH THEN PatternErrors
        ELSE
        (IF shape THEN {"IrregularURLException"} ELSE {})
        \cup (IF AllLegal(txt) /\ ~Broken(u) THEN {} ELSE {"InvalidCharException"})

C03(e) ==
    CASE e.op \in {"load", "parse", "match"} ->
           LET w == Why(e.u)
           IN  If(w = {} /\ Failed(e), "regular URL refused")
               \cup If(w # {} /\ ~Failed(e), "irregular URL accepted")
               \cup If(w # {} /\ Failed(e) /\ e.exc \notin w, "exception")
               \cup If(e.op = "match" /\ w = {} /\ ~Failed(e) /\ ~Same("match", MatchKey(e), Answer(e)),
                       "matches show a trace")
      [] e.op = "make" ->
           If(Failed(e), "failed")
           \cup If(~Failed(e) /\ ~Same("make", MakeKey(e.k), Norm(e.cl)), "trace of refused URL")
      [] OTHER -> {}

(* C04 - fuzzy digest.                                                     *)
SigOfPattern(pp) ==
    [st |-> StructOf(pp), fz |-> F([i \in Sub(pp.units) |-> FzOfUnits(pp.units[i])])]
DigestKey(e) ==
    IF e.kind = "url"
    THEN LET pu == ParseUrl(e.x) IN IF IsUrl(pu) THEN <<Signature(pu)>> ELSE <<>>
    ELSE LET pp == ParsePattern(e.x) IN IF pp.ok THEN <<SigOfPattern(pp)>> ELSE <<>>
Hex == Digit \cup 97..102
C04(e) ==
    IF e.op # "digest" THEN {}
    ELSE LET k == DigestKey(e)
         IN  IF k = <<>> THEN {}
             ELSE IF Failed(e) THEN {"no digest"}
             ELSE If(~(Len(e.d) > 0 /\ \A i \in Sub(e.d) : e.d[i] \in Hex \cup 65..70), "hexadecimal")
                  \cup If(e.d2 # e.d, "two ways of asking")
                  \cup If(Before("digest", k) /\ seen["digest"][k] # e.d, "one signature, two digests")
                  \cup If(~Before("digest", k) /\ \E x \in DOMAIN seen["digest"] : seen["digest"][x] = e.d,
                          "two signatures, one digest")

-----------------------------------------------------------------------------
(* Metadata makes no difference: the clusters are those made before of the *)
(* same URLs, and members are told for the URLs that have metadata.        *)
BareMake(e) ==
    IF Failed(e) THEN {"failed"}
    ELSE If(Before("make", MakeKey(e.k)) /\
            Bagged([j \in Sub(e.cl) |-> [pat |-> e.cl[j].pat, cnt |-> e.cl[j].cnt, mem |-> Mem(e.cl[j])]])
              # {[x |-> c, n |-> 1] : c \in Bare(e.k, seen["make"][MakeKey(e.k)])}, "URLs without metadata")

(* C05 - clusters partition the distinct URLs.                             *)
C05(e) ==
    CASE e.op = "load" ->
           LET pu == ParseUrl(e.u)
           IN  IF ~IsUrl(pu) \/ Failed(e) THEN {}
               ELSE If(e.new # (pu \notin Urls(e.k)), "is new")
      [] e.op = "make" ->
           IF Failed(e) THEN {"failed"}
           ELSE LET cl == e.cl
                    ms == Fun(Sub(cl), LAMBDA j : Mem(cl[j]))
                    all == Ids(e.k)
                IN  If(\E j \in Sub(cl) : ToSet(cl[j].mem) \ all # {}, "foreign member")
                    \cup If(\E j \in Sub(cl) : cl[j].mem = <<>>, "empty cluster")
                    \cup If(UNION {ToSet(cl[j].mem) : j \in Sub(cl)} # all, "lost URL")
                    \cup If(\E j \in Sub(cl) : Len(cl[j].mem) # Cardinality(ToSet(cl[j].mem)),
                            "member twice")
                    \cup If(\E i, j \in Sub(cl) : i < j /\ ms[i] \cap ms[j] # {}, "two clusters")
                    \cup If(\E j \in Sub(cl) : cl[j].cnt # Cardinality(ms[j]), "count")
                    \cup If(\E j \in Sub(cl) : \E i \in Sub(cl[j].odd) : cl[j].odd[i].cnt # cl[j].odd[i].below, "count of a node")
      [] OTHER -> {}

(* C06 - every member matches the pattern of its cluster.                  *)
C06(e) ==
    IF e.op # "make" THEN {}
    ELSE IF Failed(e) THEN {"failed"}
    ELSE UNION {LET c == e.cl[j]
                    pp == ParsePattern(c.pat)
                IN  If(~pp.ok, "not a pattern")
                    \cup If(\E u \in Mem(c) : ~UrlRegexMatch(pp, u), "member does not match")
                    \cup If(~c.re, "regular expression")
                : j \in Sub(e.cl)}

(* C07 - what is too small is not generalised.                             *)
LiteralPattern(pp) == \A i \in Sub(pp.units) : \A j \in Sub(pp.units[i]) : IsLiteral(pp.units[i][j])
LiteralText(u) == Pack(StructOf(u), F([i \in Sub(u.comps) |-> Piece(u.comps[i]).t]))
C07(e) ==
    IF e.op # "make" THEN {}
    ELSE IF Failed(e) THEN {"failed"}
    ELSE UNION {LET c == e.cl[j]
                    pp == ParsePattern(c.pat)
                    M == Mem(c)
                IN  IF ~pp.ok THEN {"not a pattern"}
                    ELSE IF LiteralPattern(pp)
                    THEN If(Cardinality(M) # 1, "literal cluster of several")
                         \cup If(\E u \in M : c.pat # LiteralText(u), "literal pattern")
                    ELSE If(Cardinality(M) < mk[e.k].m, "generalised from too few")
                : j \in Sub(e.cl)}

(* C08 - one cluster per pattern.                                          *)
C08(e) ==
    IF e.op # "make" THEN {}
    ELSE IF Failed(e) THEN {"failed"}
    ELSE If(\E i, j \in Sub(e.cl) : i < j /\ e.cl[i].pat = e.cl[j].pat, "pattern twice")

(* C09, C10 - the clusters are a function of the set of URLs loaded: not   *)
(* of order, repetition, what was asked before, or other makers.           *)
C09(e) ==
    IF e.op # "make" THEN {}
    ELSE IF Failed(e) THEN {"failed"}
    ELSE If(~Same("make", MakeKey(e.k), Norm(e.cl)), "other clusters for the same URLs")
         \cup If(Len(e.cl) # Cardinality(Norm(e.cl)), "cluster twice")
C10(e) == C09(e)

(* C11 - what was made matches what it was made from.                      *)
Owner(k, u) == {c.pat : c \in {c \in seen["make"][MakeKey(k)] : u \in c.mem}}
C11(e) ==
    CASE e.op = "make" -> If(Failed(e), "failed")
      [] e.op = "loadp" -> If(Failed(e), "pattern cannot be loaded")
      [] e.op = "match" ->
           LET u == ParseUrl(e.u)
           IN  IF Failed(e) THEN {"match failed"}
               ELSE IF ~IsUrl(u) \/ ~Before("make", MakeKey(e.k)) THEN {}
               ELSE If(~(Owner(e.k, u) \subseteq {raw[i] : i \in ToSet(e.ms) \cap DOMAIN raw}),
                       "own pattern does not match")
      [] OTHER -> {}

-----------------------------------------------------------------------------
(* Matching.  Metas of patterns are identities too: raw[i] is the text.    *)
Spelled(e) == {raw[i] : i \in ToSet(e.ms) \cap DOMAIN raw}
BoundTo(k) == UNION RangeOf(mt[k])
Foreign(e) == ToSet(e.ms) \ BoundTo(e.k) # {}

(* C12 - strict soundness.                                                 *)
C12(e) ==
    IF e.op # "match" THEN {}
    ELSE LET u == ParseUrl(e.u)
         IN  IF ~IsUrl(u) THEN If(~Failed(e) /\ e.ms # <<>>, "irregular URL matched")
             ELSE IF Failed(e) THEN {"match failed"}
             ELSE If(Foreign(e), "pattern was not loaded")
                  \cup UNION {LET pp == ParsePattern(p)
                              IN  IF ~pp.ok THEN {"not a pattern"}
                                  ELSE If(~(StructOf(pp) = StructOf(u)), "structure")
                                       \cup If(~UrlRegexMatch(pp, u), "regular expression")
                                       \cup If(~(SigOfPattern(pp) = Signature(u)),
                                               "character spaces")
                              : p \in Answer(e)}

(* C13 - completeness: exactly the loaded patterns that strictly match.    *)
C13(e) ==
    CASE e.op = "loadp" -> If(Failed(e) /\ ParsePattern(e.p).ok, "pattern refused")
      [] e.op = "match" ->
           IF ~IsUrl(ParseUrl(e.u)) THEN {}
           ELSE IF Failed(e) THEN {"match failed"}
           ELSE LET want == MatchReply(mt[e.k], e.u)
                    got == Answer(e)
                IN  If(Len(e.ms) # Cardinality(ToSet(e.ms)), "match twice")
                    \cup If(want \ got # {}, "pattern missed")
                    \cup If(got \ want # {}, "pattern too many")
      [] OTHER -> {}

PatOf(k, i) == CHOOSE q \in DOMAIN mt[k] : i \in mt[k][q]
Ranked(e) == \A i \in Sub(e.rank) : e.rank[i] \in BoundTo(e.k)
RankVal(e) == F([i \in Sub(e.rank) |-> PatOf(e.k, e.rank[i])])
RankSpelled(e) == F([i \in Sub(e.rank) |-> raw[e.rank[i]]])
(* C14 - ranking.                                                          *)
C14(e) ==
    IF e.op # "match" \/ ~IsUrl(ParseUrl(e.u)) THEN {}
    ELSE IF Failed(e) THEN {"match failed"}
    ELSE IF ~Ranked(e) THEN {"pattern was not loaded"}
    ELSE LET pps == F([i \in Sub(e.rank) |-> ParsePattern(PatOf(e.k, e.rank[i]))])
         IN  If(ToSet(e.rank) # ToSet(e.ms) \/ Len(e.rank) # Len(e.ms), "ranking is no permutation")
             \cup If(\E i, j \in Sub(pps) : i < j /\ Better(pps[j], pps[i]), "worse pattern first")
             \cup If(~Same("rank", Answer(e), RankVal(e)), "other ranking")

(* C15 - the pattern language.                                             *)
C15(e) ==
    CASE e.op \in {"loadp", "parsep"} ->
           LET ok == ParsePattern(e.p).ok
           IN  If(ok /\ Failed(e), "pattern refused")
               \cup If(~ok /\ ~Failed(e), "malformed pattern accepted")
               \cup If(~ok /\ Failed(e) /\ e.exc \notin PatternErrors, "exception")
      [] e.op = "match" ->
           IF ~IsUrl(ParseUrl(e.u)) THEN {}
           ELSE IF Failed(e) THEN {"match failed"}
           ELSE If(~Same("match", MatchKey(e), Answer(e)),
                   "trace of refused pattern")
      [] OTHER -> {}

-----------------------------------------------------------------------------
(* C16 - the clusters are those of the clustering rules.                   *)
C16(e) ==
    IF e.op # "make" THEN {}
    ELSE IF Failed(e) THEN {"failed"}
    ELSE LET want == MakeReply(mk[e.k])
             got == {[mem |-> c.mem, pat |-> c.pat] : c \in Norm(e.cl)}
         IN  If(got # want, "clusters")

(* C20 - sharding by fuzzy digest: the low-level answer is the high-level. *)
C20(e) ==
    CASE e.op = "make" ->
           IF Failed(e) THEN {"failed"}
           ELSE If(~Same("make", MakeKey(e.k), Norm(e.cl)), "sharded clusters")
                \cup If(Len(e.cl) # Cardinality(Norm(e.cl)), "cluster twice")
      [] e.op = "match" ->
           IF ~IsUrl(ParseUrl(e.u)) THEN {}
           ELSE IF Failed(e) THEN {"match failed"}
           ELSE If(~Same("match", MatchKey(e), Answer(e)), "sharded matches")
                \cup If(Len(e.ms) # Cardinality(ToSet(e.ms)), "match twice")
      [] OTHER -> {}

(* C21 - metadata.                                                         *)
C21(e) ==
    CASE e.op = "make" ->
           IF Failed(e) THEN {"failed"}
           ELSE LET M == Fun(Sub(e.cl), LAMBDA j : Mem(e.cl[j]))
                    all == UNION RangeOf(M)
                    with(U, i) == Cardinality({u \in U : i \in mk[e.k].urls[u]})
                    \* every URL can be told by a meta of its own
                    told == Urls(e.k) = {u \in Urls(e.k) : \E i \in mk[e.k].urls[u] : i > 0}
                IN  If(all \ Urls(e.k) # {}, "foreign URL")
                    \cup If(told /\ all # Urls(e.k), "lost URL")
                    \cup If(\E i \in UNION {ToSet(e.cl[j].mem) : j \in Sub(e.cl)} : i \notin Ids(e.k), "foreign meta")
                    \cup If(\E i \in Ids(e.k) :
                               with(Urls(e.k), i) # Sum([j \in Sub(e.cl) |-> CountIn(e.cl[j].mem, i)], Sub(e.cl)),
                            "meta lost or twice")
                    \cup If(told /\ all = Urls(e.k) /\
                            \E j \in Sub(e.cl) : \E i \in Ids(e.k) : CountIn(e.cl[j].mem, i) # with(M[j], i),
                            "meta of another cluster")
                    \cup If(\E j \in Sub(e.cl) : \E i \in Sub(e.cl[j].paths) :
                               LET q == e.cl[j].paths[i]
                               IN  q.x \in DOMAIN byId /\
                                   q.t # [n \in Sub(byId[q.x].comps) |-> Piece(byId[q.x].comps[n]).t],
                            "meta of another URL")
      [] e.op = "loadp" ->
           LET pp == ParsePattern(e.p)
           IN  IF ~pp.ok \/ Failed(e) THEN {}
               ELSE If(e.new # (PatKey(pp) \notin DOMAIN mt[e.k]), "is new")
      [] e.op = "match" ->
           IF ~IsUrl(ParseUrl(e.u)) THEN {}
           ELSE IF Failed(e) THEN {"match failed"}
           ELSE \* every answer carries the meta bound last to its pattern
                If(\E i \in ToSet(e.ms) : i \notin BoundTo(e.k), "stale meta")
                \cup If(\E p \in Answer(e) : ~UrlRegexMatch(ParsePattern(p), ParseUrl(e.u)), "meta of another pattern")
      [] OTHER -> {}

(* C22 - URLs that are not similar do not influence each other.            *)
SigsOf(U) == {Signature(u) : u \in U}
IsoKey(k, g) == <<mk[k].m, {u \in Urls(k) : Signature(u) = g}>>
IsoVal(e, g) == {c \in Norm(e.cl) : \E u \in c.mem : Signature(u) = g}
C22(e) ==
    IF e.op # "make" THEN {}
    ELSE IF Failed(e) THEN {"failed"}
    ELSE If(\E j \in Sub(e.cl) : Cardinality(SigsOf(Mem(e.cl[j]))) > 1, "mixed cluster")
         \cup If(\E g \in SigsOf(Urls(e.k)) : ~Same("iso", IsoKey(e.k, g), IsoVal(e, g)), "influence")

-----------------------------------------------------------------------------
(* C19 - combined pattern trees.  A tree is recorded as the list of its    *)
(* nodes: [path: pattern texts from the root, cnt, leaf].                  *)
Trees(e) == e.trees
TreeLeaves(t) == {i \in Sub(t.nodes) : t.nodes[i].leaf}
Below(t, i) == {j \in TreeLeaves(t) : StartsWith(t.nodes[j].path, t.nodes[i].path)}
StOf(t) == [depth |-> t.depth, keys |-> t.keys, frag |-> t.frag]
LeafOut(e) == UNION {{[pat |-> Pack(StOf(t), t.nodes[i].path), cnt |-> t.nodes[i].cnt]
                      : i \in TreeLeaves(t)} : t \in ToSet(e.trees)}
\* the label of a node in the ETE rendering
Label(t, n) ==
    LET d == Len(n.path)
        nq == Len(t.keys)
        pat == IF d = 0 THEN <<>> ELSE n.path[d]
    IN  (IF d > t.depth /\ d <= t.depth + nq
         THEN (IF d = t.depth + 1 THEN QMARK ELSE <<AMP>>) \o t.keys[d - t.depth]
         ELSE IF d = t.depth + nq + 1 THEN <<HASH>> ELSE <<>>)
        \o pat \o <<40>> \o Dec(n.cnt) \o <<41>>
C19(e) ==
    CASE e.op = "make" -> If(Failed(e), "failed")
      [] e.op = "combine" ->
           IF Failed(e) THEN {"failed"}
           ELSE If(Before("make", MakeKey(e.k)) /\
                   LeafOut(e) # {[pat |-> c.pat, cnt |-> c.cnt] : c \in seen["make"][MakeKey(e.k)]},
                   "leaves are not the clusters")
                \cup UNION {LET t == e.trees[x]
                            IN  If(\E i \in Sub(t.nodes) :
                                     t.nodes[i].cnt # Sum([j \in Sub(t.nodes) |-> t.nodes[j].cnt], Below(t, i)),
                                   "count of a node")
                                \cup If(\E i, j \in Sub(t.nodes) : i < j /\ t.nodes[i].path = t.nodes[j].path,
                                        "node twice")
                                \cup If(\E i \in TreeLeaves(t) :
                                          Len(t.nodes[i].path) # t.depth + Len(t.keys) + (IF t.frag THEN 1 ELSE 0),
                                        "depth")
                                \cup (IF t.ete = <<>> THEN {}
                                      ELSE LET want == F([i \in Sub(t.nodes) |-> Label(t, t.nodes[i])])
                                           IN  If(\E y \in ToSet(want) \cup ToSet(t.ete) :
                                                    CountIn(want, y) # CountIn(t.ete, y),
                                                  "rendered tree"))
                            : x \in Sub(e.trees)}
      [] OTHER -> {}

-----------------------------------------------------------------------------
(* C17 - pattern-make.  out is the text on standard output.                *)
LinesOf(out) ==
    LET ls == Split(out, 10) IN IF ls[Len(ls)] = <<>> THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls
Terminated(out) == out = <<>> \/ out[Len(out)] = 10
IsSubLine(x) == x # <<>> /\ x[1] = TAB
\* a pattern line and the indented lines below it
ClusterBlocks(ls) ==
    LET heads == F(Sorted({i \in Sub(ls) : ~IsSubLine(ls[i])}))
        n == Len(heads)
    IN  F([j \in 1..n |->
             LET e == IF j = n THEN Len(ls) ELSE heads[j + 1] - 1
             IN  [pat |-> ls[heads[j]],
                  mem |-> [i \in 1..(e - heads[j]) |-> SubSeq(ls[heads[j] + i], 2, Len(ls[heads[j] + i]))]]])
RawMem(k, c) == {raw[i] : i \in UNION {mk[k].urls[u] : u \in c.mem}}
C17(e) ==
    CASE e.op = "make" -> If(Failed(e), "failed")
      [] e.op = "climake" ->
           IF e.rc # 0 THEN {"exit status"}
           ELSE IF ~Before("make", MakeKey(e.k)) THEN {}
           ELSE LET cs == seen["make"][MakeKey(e.k)]
                    ls == LinesOf(e.out)
                    want == UNION {{<<c.pat, x>> : x \in RawMem(e.k, c)} : c \in cs}
                IN  If(~Terminated(e.out), "last line is cut")
                    \cup
                    CASE e.fmt = "CLUSTER" ->
                           LET bs == ClusterBlocks(ls)
                               got == UNION {{<<bs[i].pat, x>> : x \in ToSet(bs[i].mem)} : i \in Sub(bs)}
                           IN  If(ls # <<>> /\ IsSubLine(ls[1]), "URL without pattern")
                               \cup If(got # want, "clusters")
                               \cup If(Len(ls) # Cardinality(want) + Cardinality(cs), "lines")
                      [] e.fmt = "INLINE" ->
                           LET sp == F([i \in Sub(ls) |-> IndexFrom(ls[i], TAB, 1)])
                           IN  If(\E i \in Sub(ls) : sp[i] = 0, "line without URL")
                               \cup If((\A i \in Sub(ls) : sp[i] # 0) /\
                                       {<<SubSeq(ls[i], 1, sp[i] - 1), SubSeq(ls[i], sp[i] + 1, Len(ls[i]))>>
                                          : i \in Sub(ls)} # want, "pairs")
                               \cup If(Len(ls) # Cardinality(want), "lines")
                      [] e.fmt = "PATTERN" ->
                           If(ToSet(ls) # {c.pat : c \in cs}, "patterns")
                           \cup If(Len(ls) # Cardinality(cs), "lines")
                      [] e.fmt = "JSON" ->
                           If(Len(e.js) # Len(ls), "not JSON")
                           \cup If(Bagged(e.js) # {[x |-> [ptn |-> c.pat, cnt |-> c.cnt], n |-> 1] : c \in cs},
                                   "records")
                      [] e.fmt = "ETE" ->
                           If(Before("ete", MakeKey(e.k)) /\ Bagged(e.ete) # seen["ete"][MakeKey(e.k)],
                              "rendered trees")
                      [] e.fmt = "NULL" -> If(e.out # <<>>, "output")
                      [] OTHER -> {}
      [] OTHER -> {}

(* C23 - the commands together: what pattern-make prints is a pattern file *)
(* for pattern-match over the same URLs.                                   *)
C23(e) ==
    CASE e.op = "make" -> If(Failed(e), "failed")
      [] e.op = "pipe" ->
           IF e.rc # 0 \/ e.rc2 # 0 THEN {"exit status"}
           ELSE IF ~Before("make", MakeKey(e.k)) THEN {}
           ELSE LET ls == LinesOf(e.out)
                    pats == {c.pat : c \in seen["make"][MakeKey(e.k)]}
                    line(i) ==
                      LET fs == Split(ls[i], TAB)
                          n == Len(fs)
                          res == SubSeq(fs, 1, n - 1)
                          pu == ParseUrl(e.lines[i])
                      IN  IF ~IsUrl(pu) \/ pu \notin Urls(e.k) THEN {}
                          ELSE If(n < 2 \/ fs[n] # e.lines[i], "input line")
                               \cup If(ToSet(res) \ pats # {}, "pattern was not made")
                               \cup (IF e.all
                                     THEN If(~(Owner(e.k, pu) \subseteq ToSet(res)), "own pattern does not match")
                                     ELSE If(Len(res) # 1, "one result"))
                IN  If(Len(ls) # Len(e.lines), "one line per input line")
                    \cup (IF Len(ls) # Len(e.lines) THEN {} ELSE UNION {line(i) : i \in Sub(ls)})
      [] OTHER -> {}

(* C24 - a cluster is final: made again from its own URLs, it is itself.   *)
FinalKey(k) == <<mk[k].m, Urls(k)>>
C24(e) ==
    IF e.op # "make" THEN {}
    ELSE IF Failed(e) THEN {"failed"}
    ELSE IF ~Before("final", FinalKey(e.k)) THEN {}
    ELSE If(Norm(e.cl) # {[pat |-> seen["final"][FinalKey(e.k)], cnt |-> Cardinality(Urls(e.k)), mem |-> Urls(e.k)]},
            "cluster falls apart")

(* C25 - every format shows the same clusters.                             *)
C25(e) ==
    CASE e.op = "make" -> If(Failed(e), "failed")
      [] e.op = "formats" ->
           IF Failed(e) THEN {"failed"}
           ELSE If(Before("make", MakeKey(e.k)) /\
                   {[pat |-> e.fs[j].cl.pat, cnt |-> e.fs[j].cl.cnt, mem |-> Mem(e.fs[j].cl)] : j \in Sub(e.fs)}
                     # Bare(e.k, seen["make"][MakeKey(e.k)]), "clusters")
                \cup UNION {LET f == e.fs[j]
                                c == f.cl
                                ts == F([i \in Sub(c.mem) |-> raw[c.mem[i]]])
                            IN  If(f.pattern # <<c.pat>>, "pattern")
                                \cup If(f.cluster = <<>> \/ f.cluster[1] # c.pat \/
                                        Bagged(Tail(f.cluster)) # Bagged([i \in Sub(ts) |-> <<TAB>> \o ts[i]]), "cluster")
                                \cup If(Bagged(f.inline) # Bagged([i \in Sub(ts) |-> c.pat \o <<TAB>> \o ts[i]]), "inline")
                                \cup If(f.json # <<[ptn |-> c.pat, cnt |-> IF \E u \in Urls(e.k) : mk[e.k].urls[u] = {}
                                                                             THEN c.cnt ELSE Cardinality(Mem(c))]>>, "json")
                                \cup If(f.null # <<>>, "null")
                            : j \in Sub(e.fs)}
      [] OTHER -> {}

(* C26 - threads: an answer does not depend on what else runs.             *)
CalmKey(e) ==
    CASE e.op = "parse" -> <<e.op, e.u>>
      [] e.op = "parsep" -> <<e.op, e.p>>
      [] e.op = "digest" -> <<e.op, e.x>>
      [] e.op = "load" -> <<e.op, e.u, Urls(e.k)>>
      [] e.op = "make" -> <<e.op, mk[e.k].m, Urls(e.k)>>
      [] e.op = "loadp" -> <<e.op, e.p, DOMAIN mt[e.k]>>
      [] e.op = "match" -> <<e.op, e.u, DOMAIN mt[e.k]>>
      [] OTHER -> <<>>
CalmVal(e) ==
    CASE e.op \in {"parse", "parsep"} -> <<e.exc, e.depth, e.keys, e.frag, e.comps>>
      [] e.op = "digest" -> <<e.exc, e.d, e.d2>>
      [] e.op \in {"load", "loadp"} -> <<e.exc, e.new>>
      [] e.op = "make" -> <<e.exc, Norm(e.cl)>>
      [] e.op = "match" -> <<e.exc, Answer(e), Len(e.ms)>>
C26(e) ==
    IF CalmKey(e) = <<>> THEN {}
    ELSE If(~Same("calm", CalmKey(e), CalmVal(e)), "another answer among threads")

(* C18 - pattern-match.                                                    *)
\* e.lines: the stripped input lines; e.kinds: "url", "undecodable"
C18(e) ==
    CASE e.op = "match" -> {}
      [] e.op = "climatch" ->
           IF e.rc # 0 THEN {"exit status"}
           ELSE LET ls == LinesOf(e.out)
                    line(i) ==
                      LET u == e.lines[i]
                          n == Len(ls[i]) - Len(u) - 1
                          ends == n > 0 /\ SubSeq(ls[i], n + 1, Len(ls[i])) = <<TAB>> \o u
                          res == IF ends THEN Split(SubSeq(ls[i], 1, n), TAB) ELSE <<>>
                          pu == ParseUrl(u)
                          key == <<DOMAIN mt[e.k], pu>>
                      IN  If(~ends, "input line")
                          \cup (IF ~e.dec[i] \/ ~IsUrl(pu) THEN If(res # <<<<69>>>>, "E")
                                ELSE IF ~Before("match", key) THEN {}
                                ELSE IF seen["match"][key] = {} THEN If(res # <<<<78>>>>, "N")
                                ELSE IF e.all
                                THEN If(ToSet(res) # seen["match"][key] \/ Len(res) # Cardinality(seen["match"][key]), "all matched")
                                ELSE LET rk == seen["match"][key]
                                     IN  If(Len(res) # 1, "one result")
                                         \cup If(Before("rank", rk) /\ Len(res) >= 1 /\ res[1] # seen["rank"][rk][1], "best match"))
                IN  If(~Terminated(e.out), "last line is cut")
                    \cup If(Len(ls) # Len(e.lines), "one line per input line")
                    \cup (IF Len(ls) # Len(e.lines) THEN {} ELSE UNION {line(i) : i \in Sub(ls)})
      [] OTHER -> {}

(* C27 - the log: apart from the output, and exact.                        *)
QuietKey(e) == <<e.which, e.k, e.fmt>>
QuietVal(e) == IF e.which = "make" THEN Bagged(LinesOf(e.out)) ELSE LinesOf(e.out)
C27(e) ==
    CASE e.op = "clilog" ->
           IF e.rc # 0 THEN {"exit status"}
           ELSE LET ls == F([i \in Sub(e.lines) |-> [t |-> e.lines[i], dec |-> e.dec[i]]])
                    ps == F([i \in Sub(e.plines) |-> [t |-> e.plines[i], dec |-> e.pdec[i]]])
                    tally == IF e.which = "make" THEN MakeTally(ls) ELSE MatchTally(ps)
                    warns == tally.INVALID + (IF e.which = "make" THEN 0 ELSE Count(ls, LAMBDA x : ~GoodUrl(x)))
                IN  If(~Same("quiet", QuietKey(e), QuietVal(e)), "output depends on the log")
                    \cup If(e.level = "NOTSET" /\ e.err # 0, "log without a level")
                    \cup If(e.level \in {"DEBUG", "INFO", "WARN"} /\ e.warns # warns, "a warning per refused line")
                    \cup If(e.level = "FATAL" /\ e.err # 0, "more than the level")
                    \cup If(e.level # "DEBUG" /\ (e.told # 0 \/ e.sizes # <<>> \/ e.beats # <<0, 0>>), "more than the level")
                    \cup (IF e.level # "DEBUG" THEN {}
                           ELSE If(e.told # 1 \/ e.stats # tally, "statistics")
                                \cup If(e.beats # (IF e.which = "make" THEN <<Len(ls) \div 5000, 0>>
                                                     ELSE <<Len(ps) \div 1000, Len(ls) \div 5000>>), "progress")
                                \cup If(e.which = "make" /\ e.fmt # "ETE" /\ Before("make", MakeKey(e.k)) /\
                                         LET cs == seen["make"][MakeKey(e.k)]
                                         IN  \E n \in {c.cnt : c \in cs} \cup ToSet(e.sizes) :
                                               CountIn(e.sizes, n) # Cardinality({c \in cs : c.cnt = n}),
                                        "cluster sizes"))
      [] OTHER -> {}
=============================================================================
