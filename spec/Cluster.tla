------------------------------ MODULE Cluster ------------------------------
(***************************************************************************)
(* The clustering rules.  Input: a set Q of paths (sequences of pieces, all *)
(* of one signature), a weight per path, and                               *)
(*   ctx = [m: min_cluster_num, depth: levels, pd: path levels,            *)
(*          lit: keep the last level literal].                             *)
(* Output: the set of clusters [mem: paths, pat: pattern text per level].  *)
(***************************************************************************)
EXTENDS Patterns

\* Neither one value nor a clear majority: too even to keep apart.
Confused(total, mx, m) ==
    /\ total >= m
    /\ LET o == total - mx
       IN  \/ mx >= m /\ o >= m
           \/ (IF mx > o THEN mx - o ELSE o - mx) < m - 1

RangeOf(f) == {f[x] : x \in DOMAIN f}

RECURSIVE Clusters(_, _, _), Assign(_, _, _, _)

\* Where a piece that is not kept literal goes first ...
RouteFirst(p, m, lastPath) ==
    LET vl == Len(p.runs)
        mv == Mixed(p)
        mvl == Len(mv)
    IN  IF vl = 1 THEN "len"
        ELSE IF vl = 3 /\ lastPath
        THEN IF Sig(Ldsf(p)) = Sig(Multi(p)) THEN "ldsf" ELSE "base"
        ELSE IF vl <= 3 THEN "base"
        ELSE IF mvl = 1 THEN "len"
        ELSE IF vl - mvl < m THEN "base"
        ELSE IF mvl = 3 /\ lastPath /\ Sig(Ldsf(p)) = Sig(mv) THEN "ldsf"
        ELSE "mixed"

\* ... after the runs did not cluster ...
RouteBase(p, lastPath) ==
    LET mv == Mixed(p)
        mvl == Len(mv)
    IN  IF Sig(mv) = Sig(Multi(p))
        THEN IF lastPath /\ Len(Ldsf(p)) # 1 THEN "ldsf" ELSE "len"
        ELSE IF mvl = 1 THEN "len"
        ELSE IF mvl = 3 /\ lastPath /\ Sig(mv) = Sig(Ldsf(p)) THEN "ldsf"
        ELSE "mixed"

\* ... and after the mixed parts did not.
RouteMixed(p, lastPath) ==
    IF lastPath /\ Len(Ldsf(p)) # 1 THEN "ldsf" ELSE "len"

ViewOf(v, p) == LET parts == CASE v = "base" -> Multi(p)
                               [] v = "mixed" -> Mixed(p)
                               [] v = "ldsf" -> Ldsf(p)
                IN  F([i \in 1..Len(parts) |-> AsPiece(parts[i])])

\* The accepted sub-clusters of the pieces S under view v: pieces of one
\* signature are clustered part by part, and every sub-cluster with at least
\* m URLs becomes a pattern.
Stage(S, wt, v, m) ==
    LET vw == F([p \in S |-> ViewOf(v, p)])
        sg == F([p \in S |-> Sig(vw[p])])
        bucket(g) == {p \in S : sg[p] = g}
        sub(B, n) ==
            LET back == F([q \in {vw[p] : p \in B} |-> CHOOSE p \in B : vw[p] = q])
                W == F([q \in DOMAIN back |-> wt[back[q]]])
            IN  {[mem |-> {back[q] : q \in c.mem}, pat |-> Cat(c.pat)] :
                   c \in Clusters(DOMAIN back, W,
                                  [m |-> m, depth |-> n, pd |-> n, lit |-> v = "ldsf"])}
    IN  UNION {LET B == bucket(g)
               IN  IF Sum(wt, B) < m THEN {}
                   ELSE {c \in sub(B, Len(g)) : Sum(wt, c.mem) >= m} : g \in RangeOf(sg)}

Members(acc) == UNION {c.mem : c \in acc}
PatIn(acc, p) == (CHOOSE c \in acc : p \in c.mem).pat

\* Pieces that ended up here are told apart by length, or not at all.
LengthStage(S, wt, m) ==
    LET lens == {p.len : p \in S}
        B == F([l \in lens |-> {p \in S : p.len = l}])
        cnt == F([l \in lens |-> Sum(wt, B[l])])
        total == Sum(cnt, lens)
        mx == Max(RangeOf(cnt))
        asCluster(l) ==
            IF Cardinality(B[l]) < m
            THEN Confused(cnt[l], Max({wt[p] : p \in B[l]}), m)
            ELSE TRUE
    IN  IF S = {} THEN <<>>
        ELSE IF Cardinality(lens) >= m \/ Confused(total, mx, m)
        THEN F([p \in S |-> UnitText(p.fz, -1)])
        ELSE LET as == F([l \in lens |-> asCluster(l)])
             IN  F([p \in S |-> IF as[p.len] THEN UnitText(p.fz, p.len) ELSE p.t])

\* One level of one branch: [pat: pattern per piece, num: patterns counted].
Level(Q, W, k, ctx) ==
    LET m == ctx.m
        P == {q[k] : q \in Q}
        wt == F([p \in P |-> Sum(W, {q \in Q : q[k] = p})])
        total == Sum(wt, P)
        lastPath == k = ctx.pd
        literal == [pat |-> F([p \in P |-> p.t]), num |-> Cardinality(P)]
        r0 == F([p \in P |-> RouteFirst(p, m, lastPath)])
        s1 == {p \in P : r0[p] = "base"}
        a1 == Stage(s1, wt, "base", m)
        f1 == s1 \ Members(a1)
        r1 == F([p \in f1 |-> RouteBase(p, lastPath)])
        s2 == {p \in P : r0[p] = "mixed"} \cup {p \in f1 : r1[p] = "mixed"}
        a2 == Stage(s2, wt, "mixed", m)
        f2 == s2 \ Members(a2)
        r2 == F([p \in f2 |-> RouteMixed(p, lastPath)])
        s3 == {p \in P : r0[p] = "ldsf"} \cup {p \in f1 : r1[p] = "ldsf"}
                \cup {p \in f2 : r2[p] = "ldsf"}
        a3 == Stage(s3, wt, "ldsf", m)
        s4 == P \ (Members(a1) \cup Members(a2) \cup Members(a3))
        l4 == LengthStage(s4, wt, m)
        acc == a1 \cup a2 \cup a3
        pats(a) == Cardinality({c.pat : c \in a})
    IN  IF ctx.lit /\ k = ctx.depth THEN literal
        ELSE IF Cardinality(P) < m /\ ~Confused(total, Max(RangeOf(wt)), m) THEN literal
        ELSE [pat |-> F([p \in P |-> IF p \in s4 THEN l4[p] ELSE PatIn(acc, p)]),
              num |-> pats(a1) + pats(a2) + pats(a3) + Cardinality(RangeOf(l4))]

\* Pattern per level of every path, branching by the pattern of the level.
Assign(Q, W, k, ctx) ==
    IF k > ctx.depth THEN F([q \in Q |-> <<>>])
    ELSE LET lv == Level(Q, W, k, ctx)
             sub == F([t \in RangeOf(lv.pat) |->
                         Assign({q \in Q : lv.pat[q[k]] = t}, W, k + 1, ctx)])
         IN  F([q \in Q |-> LET t == lv.pat[q[k]] IN <<t>> \o sub[t][q]])

\* Paths with one pattern are a cluster if they cluster to one pattern again.
Clusters(Q, W, ctx) ==
    IF Q = {} THEN {}
    ELSE LET a == Assign(Q, W, 1, ctx)
             ts == RangeOf(a)
         IN  IF Cardinality(ts) = 1
             THEN {[mem |-> Q, pat |-> a[CHOOSE q \in Q : TRUE]]}
             ELSE UNION {Clusters({q \in Q : a[q] = t}, W, ctx) : t \in ts}

-----------------------------------------------------------------------------
(* URLs to clusters.                                                       *)

\* The text of a URL pattern.
Pack(st, texts) ==
    LET nq == Len(st.keys)
        path == JoinWith(SubSeq(texts, 1, st.depth), <<SLASH>>)
        qs == [i \in 1..nq |-> st.keys[i] \o texts[st.depth + i]]
    IN  <<SLASH>> \o path
        \o (IF nq = 0 THEN <<>> ELSE QMARK \o JoinWith(qs, <<AMP>>))
        \o (IF st.frag THEN <<HASH>> \o texts[Len(texts)] ELSE <<>>)

\* Clusters of a set U of parsed URLs of one signature (or of any).
ClustersOfOne(U, m) ==
    LET u0 == CHOOSE u \in U : TRUE
        st == StructOf(u0)
        pcs == F([u \in U |-> PiecesOf(u)])
        back == F([q \in RangeOf(pcs) |-> CHOOSE u \in U : pcs[u] = q])
        W == F([q \in DOMAIN back |-> 1])
    IN  {[mem |-> {back[q] : q \in c.mem}, pat |-> Pack(st, c.pat)] :
           c \in Clusters(DOMAIN back, W,
                          [m |-> m, depth |-> Len(u0.comps), pd |-> u0.depth, lit |-> FALSE])}

MakeClusters(U, m) ==
    LET sg == F([u \in U |-> Signature(u)])
    IN  UNION {ClustersOfOne({u \in U : sg[u] = g}, m) : g \in RangeOf(sg)}
=============================================================================
